//! Random trees from a table: per kind the fields and what they hold.
use crate::util::*;
use rand::RngCore;
use rand_pcg::Pcg64;
use serde_json::{json, Map, Value};

/// `Kind key:what …`; what: n name, b flag, i number, s text, d decimal text, h bytes text, t line(s) of text, 'x the text x,
/// X node of category X, ?X X or null or absent, ~X X or absent, *X list, +X list that is not empty, 2X list of two or more, |a|b one of the texts.
pub struct Schema {
    /// now and then a key is left out
    pub gaps: bool,
    pub tag: &'static str,
    pub kinds: Vec<(&'static str, Vec<(&'static str, &'static str)>)>,
    pub cats: Vec<(&'static str, Vec<&'static str>)>,
}
impl Schema {
    pub fn new(tag: &'static str, kinds: &'static str, cats: &'static str) -> Schema {
        let p = |l: &'static str| {
            let mut w = l.split_whitespace();
            (w.next().unwrap(), w.collect::<Vec<_>>())
        };
        let ls = |t: &'static str| t.lines().map(|l| l.trim()).filter(|l| !l.is_empty());
        Schema {
            gaps: true,
            tag,
            kinds: ls(kinds).map(|l| { let (k, f) = p(l); (k, f.iter().map(|x| x.split_once(':').unwrap()).collect()) }).collect(),
            cats: ls(cats).map(p).collect(),
        }
    }
    pub fn text(r: &mut Pcg64, odd: bool) -> String {
        const W: &[&str] = &["a", "the", "total", "supply", "x1", "quick brown", "über", "日本", "don't", "(b)", "0x", "%d"];
        const O: &[&str] = &["\"", "\\", "\n", "\r", "'", "\t", "\\n", "\u{1}", "\u{7f}", "\u{1F600}", "{}"];
        let n = below(r, 6);
        let mut s = String::new();
        for i in 0..n {
            if i > 0 && coin(r, 0.8) {
                s.push(' ');
            }
            s.push_str(if odd && coin(r, 0.3) { pick(r, O) } else { pick(r, W) });
        }
        s
    }
    pub fn name(r: &mut Pcg64) -> String {
        const N: &[&str] = &["a", "b", "balance", "owner", "self", "msg", "sender", "_x", "Transfer", "uint256", "HashMap", "i", "total_supply_of_this_token"];
        pick(r, N).to_string()
    }
    pub fn of(&self, r: &mut Pcg64, cat: &str, d: u32) -> Value {
        let ks = &self.cats.iter().find(|c| c.0 == cat).unwrap_or_else(|| panic!("{}", cat)).1;
        // the first kind of a category is a leaf
        let k = if d == 0 { ks[below(r, ks.len().min(2) as u64) as usize] } else { *pick(r, ks) };
        self.kind(r, k, d.saturating_sub(1))
    }
    pub fn kind(&self, r: &mut Pcg64, k: &str, d: u32) -> Value {
        let fs = &self.kinds.iter().find(|c| c.0 == k).unwrap_or_else(|| panic!("{}", k)).1;
        let mut m = Map::new();
        for (key, w) in fs {
            if self.gaps && coin(r, 0.004) {
                continue; // a key the compiler left out
            }
            if let Some(v) = self.what(r, w, d) {
                m.insert(key.to_string(), v);
            }
        }
        m.insert(self.tag.to_string(), json!(k.split('.').next().unwrap()));
        Value::Object(m)
    }
    fn what(&self, r: &mut Pcg64, w: &str, d: u32) -> Option<Value> {
        let (c, rest) = w.split_at(1);
        Some(match c {
            "n" => json!(Self::name(r)),
            "b" => json!(coin(r, 0.4)),
            "i" => match below(r, 8) {
                0 => json!(r.next_u64()),
                1 => json!(-(below(r, 1000) as i64)),
                2 => json!(i64::MAX as u64 + below(r, 3) as u64),
                3 => json!(i64::MIN),
                4 => json!(1.5e30),
                _ => json!(below(r, 1000)),
            },
            "s" => json!(Self::text(r, true)),
            "t" => { let o = coin(r, 0.3); json!(Self::text(r, o).replace('\r', "")) }
            "d" => json!(match below(r, 6) { 0 => "0.0000000001".to_string(), 1 => "1.50".into(), 2 => "00.0".into(), 3 => "170141183460469231731687303715884105727.9999999999".into(), _ => format!("{}.{}", below(r, 100), below(r, 100)) }),
            "h" => json!(format!("0x{}", (0..below(r, 5)).map(|_| if coin(r, 0.3) { format!("{:02X}", below(r, 256)) } else { format!("{:02x}", below(r, 256)) }).collect::<String>())),
            "x" => json!(format!("0x{}", (0..below(r, 41)).map(|_| if coin(r, 0.4) { format!("{:X}", below(r, 16)) } else { format!("{:x}", below(r, 16)) }).collect::<String>())),
            "'" => json!(rest),
            "|" => json!(*pick(r, &rest.split('|').collect::<Vec<_>>())),
            "N" => Value::Null,
            "?" => match below(r, 10) {
                0..=3 => Value::Null,
                4 => return None,
                _ => return self.what(r, rest, d),
            },
            "~" => {
                if coin(r, 0.5) {
                    return None;
                }
                return self.what(r, rest, d);
            }
            "*" | "+" | "2" => {
                let n = (c == "+") as u64 + 2 * (c == "2") as u64 + if d == 0 { below(r, 2) } else { below(r, 4) };
                Value::Array((0..n).filter_map(|_| self.what(r, rest, d)).collect())
            }
            _ => self.of(r, w, d),
        })
    }
}
