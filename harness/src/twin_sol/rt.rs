//! What the generated spelling functions stand on: trees, settings and the page.
use crate::pp::Page;
use mutagenyx_lib::pretty_printer::*;
use serde_json::Value;

#[derive(Clone, Copy)]
pub struct JV<'a>(pub &'a Value);
#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub semi: bool,
    pub single: bool,
    pub nonpay: bool,
}
impl Cfg {
    pub fn semis(self, b: bool) -> Cfg {
        Cfg { semi: b, ..self }
    }
    pub fn singles(self, b: bool) -> Cfg {
        Cfg { single: b, ..self }
    }
}
#[derive(Clone)]
pub struct St(pub Page);
impl St {
    pub fn nl(mut self) -> St {
        self.0.nl();
        self
    }
    pub fn indent(mut self) -> St {
        self.0.indent();
        self
    }
    pub fn sp(mut self) -> St {
        self.0.sp();
        self
    }
    pub fn tok(mut self, s: impl AsRef<str>) -> St {
        self.0.tok(s.as_ref());
        self
    }
    pub fn quoted(mut self, s: impl AsRef<str>) -> St {
        self.0.tok(&format!("\"{}\"", s.as_ref()));
        self
    }
    pub fn quoted3(mut self, s: impl AsRef<str>) -> St {
        self.0.tok(&format!("\"\"\"{}\"\"\"", s.as_ref()));
        self
    }
    pub fn inc(mut self) -> St {
        self.0.inc(1);
        self
    }
    pub fn dec(mut self) -> St {
        self.0.dec(1);
        self
    }
    /// Flowable text is C15's: the function itself, from this state.
    pub fn flow(mut self, s: impl AsRef<str>, next: &str) -> St {
        let g = &mut self.0;
        let mut p = PrettyPrinter::new(g.tab, g.page);
        p.column = g.col;
        p.indent = g.ind;
        let mut b: Vec<u8> = vec![];
        write_flowable_text(&mut p, &mut b, s.as_ref(), next);
        g.out.push_str(&String::from_utf8(b).unwrap());
        g.col = p.column;
        g.ind = p.indent;
        self
    }
}
impl<'a> JV<'a> {
    pub fn has(self, k: &str) -> bool {
        self.0.as_object().map_or(false, |o| o.contains_key(k))
    }
    pub fn at(self, k: &str) -> JV<'a> {
        JV(&self.0.as_object().unwrap()[k])
    }
    pub fn str_at(self, k: &str) -> bool {
        self.has(k) && self.at(k).0.is_string()
    }
    pub fn str(self, k: &str) -> &'a str {
        self.at(k).0.as_str().unwrap()
    }
    pub fn is_str(self, k: &str, s: &str) -> bool {
        self.str_at(k) && self.str(k) == s
    }
    pub fn arr_at(self, k: &str) -> bool {
        self.has(k) && self.at(k).0.is_array()
    }
    pub fn arr(self, k: &str) -> &'a [Value] {
        self.at(k).0.as_array().unwrap()
    }
    pub fn bool_at(self, k: &str) -> bool {
        self.has(k) && self.at(k).0.is_boolean()
    }
    pub fn bool(self, k: &str) -> bool {
        self.at(k).0.as_bool().unwrap()
    }
    pub fn null(self) -> bool {
        self.0.is_null()
    }
    pub fn object(self) -> bool {
        self.0.is_object()
    }
    pub fn boolean(self) -> bool {
        self.0.is_boolean()
    }
    pub fn string(self) -> bool {
        self.0.is_string()
    }
    pub fn truth(self) -> bool {
        self.0.as_bool().unwrap()
    }
    pub fn chars(self) -> &'a str {
        self.0.as_str().unwrap()
    }
}
pub fn nth(a: &[Value], i: i64) -> JV {
    JV(&a[i as usize])
}
pub fn count(a: &[Value]) -> i64 {
    a.len() as i64
}
pub fn has_nl(t: &str) -> bool {
    t.contains('\n')
}
pub fn flag(n: JV, k: &str) -> bool {
    n.bool_at(k) && n.bool(k)
}
pub fn live(n: JV, k: &str) -> bool {
    n.has(k) && !n.at(k).null()
}
pub fn some(n: JV, k: &str) -> bool {
    n.arr_at(k) && count(n.arr(k)) > 0
}
pub fn one(b: bool) -> i64 {
    b as i64
}
pub fn esc(s: &str) -> String {
    let mut r = String::new();
    for c in s.chars() {
        match c {
            '\t' => r += "\\t",
            '\n' => r += "\\n",
            '\r' => r += "\\r",
            '"' | '\\' => {
                r.push('\\');
                r.push(c)
            }
            c if (c as u32) < 32 => r += &format!("\\x{:02x}", c as u32),
            c if (c as u32) < 127 => r.push(c),
            c if (c as u32) < 0x10000 => r += &format!("\\u{:04x}", c as u32),
            c => {
                for b in c.to_string().into_bytes() {
                    r += &format!("\\x{:02x}", b);
                }
            }
        }
    }
    r
}
pub fn dotted(t: &str) -> bool {
    !t.is_empty() && t.chars().all(|c| c.is_ascii_digit() || c == '.')
}
pub fn part(t: &str, i: i64) -> &str {
    t.split('\n').nth(i as usize).unwrap()
}
pub fn nparts(t: &str) -> i64 {
    t.split('\n').count() as i64
}
pub fn blank(t: &str) -> bool {
    t.is_empty()
}
pub fn ptext(n: JV, c: Cfg) -> String {
    pr(St(Page::new(4, 150)), n, c).0.out
}
/// The spelling of a node: by its kind; what is no node of a known kind is spelled by its parts.
pub fn pr(s: St, n: JV, c: Cfg) -> St {
    if super::gen::known(n) {
        return super::gen::v_node(s, n, c);
    }
    match n.0 {
        Value::Array(a) => a.iter().fold(s, |s, x| pr(s, JV(x), c)),
        Value::Object(o) => o.values().fold(s, |s, x| pr(s, JV(x), c)),
        _ => s,
    }
}
