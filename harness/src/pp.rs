//! C14 and C15: the layout of printed tokens and of flowable text, against an independent model of the page.
use crate::util::*;
use mutagenyx_lib::pretty_printer::*;
use rand::Rng;
use serde_json::{json, Value};
use std::io::Write;

#[derive(Clone, Debug)]
pub struct Page {
    pub out: String,
    pub row: usize,
    pub col: usize,
    pub ind: usize,
    pub tab: usize,
    pub page: usize,
    pub max: usize,
}
impl Page {
    pub fn new(tab: usize, page: usize) -> Page {
        let max = if tab == 0 { usize::MAX } else if page < tab { 0 } else { page / tab - 1 };
        Page { out: String::new(), row: 1, col: 1, ind: 0, tab, page, max }
    }
    pub fn raw(&mut self, s: &str) {
        self.out.push_str(s);
        self.col += s.len();
    }
    pub fn nl(&mut self) {
        self.out.push('\n');
        self.row += 1;
        self.col = 1;
    }
    pub fn indent(&mut self) {
        let s = " ".repeat(self.ind * self.tab);
        self.raw(&s);
    }
    pub fn sp(&mut self) {
        if self.col == self.page {
            self.nl();
            self.indent();
        }
        self.raw(" ");
    }
    pub fn tok(&mut self, s: &str) {
        if self.col > self.page {
            self.nl();
        }
        let too_long = s.len() > self.page;
        if too_long && self.col > self.ind * self.tab || !too_long && self.col + s.len() > self.page {
            self.nl();
            self.indent();
        }
        self.raw(s);
    }
    pub fn inc(&mut self, n: usize) {
        self.ind = self.ind.saturating_add(n).min(self.max);
    }
    pub fn dec(&mut self, n: usize) {
        self.ind = self.ind.saturating_sub(n);
    }
}

struct Full;
impl Write for Full {
    fn write(&mut self, _b: &[u8]) -> std::io::Result<usize> {
        Err(std::io::Error::new(std::io::ErrorKind::Other, "full"))
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub fn words(s: &str) -> Vec<&str> {
    s.split(|c| c == ' ' || c == '\n').filter(|w| !w.is_empty()).collect()
}

fn text(cx: &mut Cx, spacey: bool) -> String {
    if !spacey && cx.rng.gen_range(0, 5) == 0 {
        const T: &[&str] = &[";", ",", "(", ")", "{", "}", "[", "]", ".", ":", "=", "+", "//", "/*", "*/", "#", "-", "\"", "\t", "\r", "0", "=>", "return", "if"];
        return T[cx.rng.gen_range(0, T.len())].to_string();
    }
    let n = match cx.rng.gen_range(0, 10) {
        0 => 0,
        1..=5 => cx.rng.gen_range(0, 8),
        6..=8 => cx.rng.gen_range(0, 40),
        _ => cx.rng.gen_range(0, 160),
    };
    let set: &[char] = match cx.rng.gen_range(0, 4) {
        0 => &['a', 'b', ' '],
        1 => &['a', 'é', ' ', 'x', '\n', '日'],
        2 => &['w', 'o', 'r', 'd', 's', ' ', '.', 'q', 'z', 'k'],
        _ => &[' ', ' ', 'a', '\n', '\u{1F600}'],
    };
    (0..n)
        .map(|_| {
            let c = set[cx.rng.gen_range(0, set.len())];
            if !spacey && (c == '\n' || c == ' ') {
                '_'
            } else {
                c
            }
        })
        .collect()
}

fn state(p: &PrettyPrinter) -> (usize, usize, usize, usize) {
    (p.row, p.column, p.indent, p.indent_string().len())
}

pub fn run(cx: &mut Cx) {
    if cx.wants(&["C14"]) {
        layout(cx);
    }
    if cx.wants(&["C15"]) {
        flow(cx);
    }
}

fn layout(cx: &mut Cx) {
    let n = if cx.thorough { 400_000 } else { 40_000 };
    for it in 0..n {
        let tab = if cx.rng.gen_range(0, 20) == 0 { 0 } else { cx.rng.gen_range(1, 9) };
        let page = match cx.rng.gen_range(0, 4) {
            0 => cx.rng.gen_range(1, 5),
            1 | 2 => cx.rng.gen_range(1, 40),
            _ => cx.rng.gen_range(60, 160),
        };
        let mut ops: Vec<Value> = vec![];
        let mut p = PrettyPrinter::new(tab, page);
        let mut m = Page::new(tab, page);
        let mut out: Vec<u8> = vec![];
        let helper = it % 2 == 0;
        let head = json!({"tab_width": tab, "page_width": page});
        cx.enter("C14", "printing tokens", &head);
        let mut bad: Option<String> = None;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            for _ in 0..cx.rng.gen_range(1, 30) {
                let t = text(cx, false);
                let k = cx.rng.gen_range(0, 4usize);
                let op = cx.rng.gen_range(0, 16);
                let mut ok = true;
                match op {
                    0 => { p.increase_indent(); m.inc(1); }
                    1 => { p.decrease_indent(); m.dec(1); }
                    2 => { p.increase_indent_by(k); m.inc(k); }
                    3 => { p.decrease_indent_by(k); m.dec(k); }
                    4 => { if helper { write_indent(&mut p, &mut out) } else { ok = p.write_indent(&mut out).is_ok() }; m.indent(); }
                    5 => { if helper { write_newline(&mut p, &mut out) } else { ok = p.write_newline(&mut out).is_ok() }; m.nl(); }
                    6 | 7 => { if helper { write_space(&mut p, &mut out) } else { ok = p.write_space(&mut out).is_ok() }; m.sp(); }
                    8 => { if helper { write_spaces(&mut p, &mut out, k) } else { ok = p.write_spaces(&mut out, k).is_ok() }; for _ in 0..k { m.sp() } }
                    9 => { if helper { write_tokens(&mut p, &mut out, &t, k) } else { ok = p.write_tokens(&mut out, &t, k).is_ok() }; for _ in 0..k { m.tok(&t) } }
                    10 => { if helper { write_string(&mut p, &mut out, &t) } else { ok = p.write_string(&mut out, &t).is_ok() }; m.tok(&format!("\"{t}\"")); }
                    11 => { if helper { write_triple_string(&mut p, &mut out, &t) } else { ok = p.write_triple_string(&mut out, &t).is_ok() }; m.tok(&format!("\"\"\"{t}\"\"\"")); }
                    _ => { if helper { write_token(&mut p, &mut out, &t) } else { ok = p.write_token(&mut out, &t).is_ok() }; m.tok(&t); }
                }
                ops.push(json!([op, t, k]));
                let s = String::from_utf8_lossy(&out).to_string();
                if !ok || s != m.out || state(&p) != (m.row, m.col, m.ind, m.ind * m.tab) {
                    bad = Some(format!("after operation {op} the printer wrote {:?} and is at {:?}, expected {:?} at {:?}", s, state(&p), m.out, (m.row, m.col, m.ind, m.ind * m.tab)));
                    return;
                }
            }
        }));
        let input = json!({"tab_width": tab, "page_width": page, "operations": ops});
        cx.case("layout", &input);
        if r.is_err() {
            cx.fail("C14", "printing tokens", "panicked", input);
        } else if let Some(b) = bad {
            cx.fail("C14", "printing tokens", &b, input);
        }
    }
    // a stream that accepts nothing: an error, no panic, and the printer's position stays
    for page in 1..6 {
        let mut p = PrettyPrinter::new(2, page);
        let input = json!({"page_width": page, "stream": "refuses everything"});
        cx.case("refused", &input);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let e = p.write_token(&mut Full, "abc").is_err() && p.write_space(&mut Full).is_err() && p.write_newline(&mut Full).is_err();
            write_token(&mut p, &mut Full, "abc");
            write_string(&mut p, &mut Full, "abc");
            e && (p.row, p.column) == (1, 1)
        }));
        if !matches!(r, Ok(true)) {
            cx.fail("C14", "a stream that refuses the text", "no error reported, or position moved, or panic", input);
        }
    }
}

fn flow(cx: &mut Cx) {
    let n = if cx.thorough { 600_000 } else { 60_000 };
    for it in 0..n {
        let tab = cx.rng.gen_range(1, 6);
        let page = match cx.rng.gen_range(0, 4) {
            0 => cx.rng.gen_range(1, 5),
            1 | 2 => cx.rng.gen_range(1, 40),
            _ => cx.rng.gen_range(20, 60),
        };
        let ind = cx.rng.gen_range(0, 5);
        let pre = match cx.rng.gen_range(0, 3) {
            0 => 0,
            1 => cx.rng.gen_range(0, page + 1),
            _ => cx.rng.gen_range(0, 2 * page + 4),
        };
        let s = text(cx, true);
        let next = ["", "", " * ", "// ", "# ", "/// leader text "][cx.rng.gen_range(0, 6)];
        let input = json!({"tab_width": tab, "page_width": page, "indent": ind, "written_before": pre, "text": s, "next_line_text": next});
        cx.case("flow", &input);
        cx.enter("C15", "printing flowable text", &input);
        let mut p = PrettyPrinter::new(tab, page);
        let mut m = Page::new(tab, page);
        for _ in 0..ind {
            p.increase_indent();
            m.inc(1);
        }
        let mut out: Vec<u8> = vec![];
        let lead = "x".repeat(pre);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            if it % 3 == 0 {
                write_indent(&mut p, &mut out);
            }
            write_token(&mut p, &mut out, &lead);
            let at = out.len();
            let (row, col) = (p.row, p.column);
            if it % 2 == 0 {
                write_flowable_text(&mut p, &mut out, &s, next);
            } else if p.write_flowable_text(&mut out, &s, next).is_err() {
                return Err("error although the stream takes everything".to_string());
            }
            Ok((at, row, col))
        }));
        let (at, row, col) = match r {
            Err(_) => {
                cx.fail("C15", "printing flowable text", "panicked", input);
                continue;
            }
            Ok(Err(e)) => {
                cx.fail("C15", "printing flowable text", &e, input);
                continue;
            }
            Ok(Ok(x)) => x,
        };
        let o = String::from_utf8_lossy(&out[at..]).to_string();
        m.row = row;
        m.col = col;
        if let Some(why) = flow_bad(&m, &o, &s, next, (p.row, p.column)) {
            cx.fail("C15", "printing flowable text", &format!("{why}; printed {o:?}"), input);
        }
    }
    // remove_all: what is left does not contain the text any more, and for two spaces keeps the words
    use mutagenyx_lib::string::MutagenyxString;
    for _ in 0..n / 20 {
        let s = text(cx, true);
        let input = json!({"text": s});
        cx.case("double spaces", &input);
        cx.enter("C15", "removing double spaces", &input);
        let mut t = s.clone();
        t.remove_all("  ");
        if t.contains("  ") || words(&t) != words(&s) {
            cx.fail("C15", "removing double spaces", &format!("left {t:?}"), input);
        }
    }
}

/// What is wrong with the output `o` of flowable text `s` written at state `m`.
pub fn flow_bad(m: &Page, o: &str, s: &str, next: &str, end: (usize, usize)) -> Option<String> {
    // the text of a line break
    let mut b = m.clone();
    b.out.clear();
    b.nl();
    b.indent();
    b.tok(next);
    let brk = b.out.clone();
    let fresh = m.ind * m.tab + next.len() + 1;
    let mut pieces: Vec<&str> = vec![];
    let mut rest = o;
    loop {
        match rest.find('\n') {
            None => {
                pieces.push(rest);
                break;
            }
            Some(i) => {
                pieces.push(&rest[..i]);
                match rest[i..].strip_prefix(brk.as_str()) {
                    None => return Some(format!("a line break is not {brk:?}")),
                    Some(r) => rest = r,
                }
            }
        }
    }
    let got: Vec<&str> = pieces.iter().flat_map(|p| words(p)).collect();
    if got != words(s) {
        return Some(format!("words {got:?} instead of {:?}", words(s)));
    }
    let mut st = m.clone();
    st.out.clear();
    for (i, p) in pieces.iter().enumerate() {
        if !(p.is_empty() || st.col + p.len() <= st.page || words(p).len() <= 1 && st.col <= fresh) {
            return Some(format!("line {p:?} starting in column {} passes the page width", st.col));
        }
        if i + 1 < pieces.len() {
            let more: Vec<&str> = pieces[i + 1..].iter().flat_map(|p| words(p)).collect();
            if let Some(w) = more.first() {
                if st.col + p.len() + 2 + w.len() <= st.page {
                    return Some(format!("the line ends after {p:?} though {w:?} still fits"));
                }
            }
        }
        st.raw(p);
        if i + 1 < pieces.len() {
            st.nl();
            st.indent();
            st.tok(next);
        }
    }
    if (st.row, st.col) != end {
        return Some(format!("the printer is at {end:?}, the text ends at {:?}", (st.row, st.col)));
    }
    None
}
