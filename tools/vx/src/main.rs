//! vx: mechanical extractor. Reads a unit template (*.vrs), copies the functions and types it names
//! verbatim out of the repository's current source text, inserts the contracts of the template, applies the
//! fixed list of syntactic rules below, and writes one Verus file plus a JSON report of everything
//! it copied, inserted and rewrote.  Nothing of a function body is retyped by hand.
//!
//! usage: vx REPO TEMPLATE OUT.rs REPORT.json
use proc_macro2::Span;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;
use syn::visit::Visit;

#[derive(Clone, Debug)]
enum Part {
    Lit(String),
    Src(usize, usize),
}
#[derive(Clone, Debug)]
struct Edit {
    start: usize,
    end: usize,
    parts: Vec<Part>,
    seq: usize,
}

struct SrcFile {
    rel: String,
    text: String,
    ast: syn::File,
}

fn br(s: Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

struct Ctx<'a> {
    text: &'a str,
    edits: Vec<Edit>,
    rules: HashMap<String, usize>,
    loops: Vec<(usize, usize, usize, usize)>, // (expr start, body open brace pos, body close pos, expr end)
    stmts: Vec<(usize, usize)>,
    calls: Vec<(String, usize)>,
    closures: Vec<(usize, (usize, usize), bool, Vec<String>)>, // (end of the parameters, body, body is a block, parameter texts)
    flags: Vec<String>,
    maps: Vec<String>,
    bindings: HashMap<String, (String, bool)>, // let X = literal / format literal
    litfns: Vec<String>,
    prefix: String,
}

impl<'a> Ctx<'a> {
    fn edit(&mut self, start: usize, end: usize, parts: Vec<Part>, rule: &str) {
        let seq = self.edits.len();
        self.edits.push(Edit { start, end, parts, seq });
        *self.rules.entry(rule.to_string()).or_insert(0) += 1;
    }
    fn flag(&self, f: &str) -> bool {
        self.flags.iter().any(|x| x == f)
    }
}

// the argument of String::from(..)
fn string_from_arg(e: &syn::Expr) -> Option<&syn::Expr> {
    if let syn::Expr::Call(c) = e {
        if let syn::Expr::Path(p) = &*c.func {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if segs == ["String", "from"] && c.args.len() == 1 {
                return Some(&c.args[0]);
            }
        }
    }
    None
}

fn render(text: &str, edits: &[Edit], start: usize, end: usize, skip: Option<usize>) -> String {
    // outermost edits inside [start,end)
    let mut inner: Vec<&Edit> = edits
        .iter()
        .filter(|e| e.start >= start && e.end <= end && Some(e.seq) != skip)
        .collect();
    // an insertion exactly at the end of the range belongs to the enclosing range unless it is an
    // edit of positive width
    inner.sort_by(|a, b| a.start.cmp(&b.start).then((b.end - b.start > 0).cmp(&(a.end - a.start > 0)).reverse()).then(b.end.cmp(&a.end)).then(a.seq.cmp(&b.seq)));
    let mut out = String::new();
    let mut pos = start;
    for e in inner {
        if e.start < pos {
            continue; // nested in an edit already emitted (or conflicting)
        }
        out.push_str(&text[pos..e.start]);
        for p in &e.parts {
            match p {
                Part::Lit(s) => out.push_str(s),
                Part::Src(a, b) => {
                    let sub: Vec<Edit> = edits
                        .iter()
                        .filter(|x| x.seq != e.seq && !(x.start == e.start && x.end == e.end && x.seq < e.seq))
                        .cloned()
                        .collect();
                    out.push_str(&render(text, &sub, *a, *b, None));
                }
            }
        }
        pos = e.end;
    }
    out.push_str(&text[pos..end]);
    out
}

fn lit_str(e: &syn::Expr) -> Option<String> {
    match e {
        syn::Expr::Lit(l) => match &l.lit {
            syn::Lit::Str(s) => Some(s.value()),
            _ => None,
        },
        _ => None,
    }
}

fn strip_ref(e: &syn::Expr) -> &syn::Expr {
    match e {
        syn::Expr::Reference(r) => strip_ref(&r.expr),
        syn::Expr::Paren(p) => strip_ref(&p.expr),
        _ => e,
    }
}

fn pat_strs(p: &syn::Pat) -> Option<Vec<String>> {
    match p {
        syn::Pat::Lit(l) => match &l.lit {
            syn::Lit::Str(s) => Some(vec![quote::quote!(#s).to_string()]),
            _ => None,
        },
        syn::Pat::Or(o) => {
            let mut v = vec![];
            for c in &o.cases {
                v.extend(pat_strs(c)?);
            }
            Some(v)
        }
        syn::Pat::Paren(p) => pat_strs(&p.pat),
        _ => None,
    }
}

/// the texts of a pattern like `Some("a") | Some("b")` or `Some("a" | "b")`
fn pat_some_strs(p: &syn::Pat) -> Option<Vec<String>> {
    match p {
        syn::Pat::TupleStruct(t) if t.path.is_ident("Some") && t.elems.len() == 1 => pat_strs(&t.elems[0]),
        syn::Pat::Or(o) => {
            let mut v = vec![];
            for c in &o.cases {
                v.extend(pat_some_strs(c)?);
            }
            Some(v)
        }
        syn::Pat::Paren(p) => pat_some_strs(&p.pat),
        _ => None,
    }
}

/// the text of `Some("a")`
fn some_str(e: &syn::Expr) -> Option<String> {
    match e {
        syn::Expr::Call(c) if c.args.len() == 1 && matches!(&*c.func, syn::Expr::Path(p) if p.path.is_ident("Some")) => lit_str(&c.args[0]).map(|s| rust_str(&s)),
        syn::Expr::Paren(p) => some_str(&p.expr),
        _ => None,
    }
}

/// evaluates a JSON text (with format placeholders) into a JV spec expression
fn json_to_jv(text: &str, is_fmt: bool, args: &mut Vec<String>) -> Option<String> {
    let mut s = String::new();
    if is_fmt {
        let cs: Vec<char> = text.chars().collect();
        let mut i = 0;
        let mut in_q = false;
        while i < cs.len() {
            let c = cs[i];
            if c == '{' && i + 1 < cs.len() && cs[i + 1] == '{' {
                s.push('{');
                i += 2;
                continue;
            }
            if c == '}' && i + 1 < cs.len() && cs[i + 1] == '}' {
                s.push('}');
                i += 2;
                continue;
            }
            if c == '{' {
                let mut name = String::new();
                i += 1;
                while i < cs.len() && cs[i] != '}' {
                    name.push(cs[i]);
                    i += 1;
                }
                i += 1;
                if name.is_empty() || !name.chars().all(|c| c.is_alphanumeric() || c == '_') {
                    return None;
                }
                if !args.contains(&name) {
                    args.push(name.clone());
                }
                if in_q {
                    s.push_str(&format!("\u{E000}{name}\u{E001}"));
                } else {
                    s.push_str(&format!("\"\u{E002}{name}\u{E001}\""));
                }
                continue;
            }
            if c == '"' {
                in_q = !in_q;
            }
            s.push(c);
            i += 1;
        }
    } else {
        s = text.to_string();
    }
    let v: Value = serde_json::from_str(&s).ok()?;
    Some(jv(&v))
}

fn rust_str(s: &str) -> String {
    format!("{:?}", s)
}

fn jv(v: &Value) -> String {
    match v {
        Value::Null => "JV::Null".into(),
        Value::Bool(b) => format!("JV::Bool({b})"),
        Value::Number(n) => {
            if n.is_i64() || n.is_u64() {
                format!("JV::Num(NumV::Int({n}))")
            } else {
                "JV::Num(NumV::Float(arbitrary()))".into()
            }
        }
        Value::String(s) => {
            if s.starts_with('\u{E002}') {
                let n: String = s.chars().skip(1).take_while(|c| *c != '\u{E001}').collect();
                return format!("vx_arg_{n}.vx_raw()");
            }
            if s.contains('\u{E000}') {
                let mut out: Vec<String> = vec![];
                let mut rest = s.as_str();
                while let Some(p) = rest.find('\u{E000}') {
                    if p > 0 {
                        out.push(format!("{}@", rust_str(&rest[..p])));
                    }
                    let after = &rest[p + '\u{E000}'.len_utf8()..];
                    let q = after.find('\u{E001}').unwrap();
                    out.push(format!("vx_arg_{}.vx_disp()", &after[..q]));
                    rest = &after[q + '\u{E001}'.len_utf8()..];
                }
                if !rest.is_empty() {
                    out.push(format!("{}@", rust_str(rest)));
                }
                return format!("JV::Str({})", out.join(" + "));
            }
            format!("JV::Str({}@)", rust_str(s))
        }
        Value::Array(a) => format!("JV::Arr(seq![{}])", a.iter().map(jv).collect::<Vec<_>>().join(", ")),
        Value::Object(o) => {
            let mut s = String::from("jv_empty()");
            for (k, v) in o {
                s.push_str(&format!(".set({}@, {})", rust_str(k), jv(v)));
            }
            s
        }
    }
}

enum FmtPart {
    Text(String),
    Name(String),
}
/// the pieces of a format string that only has plain `{}` and `{name}` placeholders
fn fmt_parts(f: &str) -> Option<Vec<FmtPart>> {
    let mut out = vec![];
    let mut t = String::new();
    let cs: Vec<char> = f.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            '{' if cs.get(i + 1) == Some(&'{') => {
                t.push('{');
                i += 2;
            }
            '}' if cs.get(i + 1) == Some(&'}') => {
                t.push('}');
                i += 2;
            }
            '{' => {
                let e = cs[i..].iter().position(|c| *c == '}')? + i;
                let n: String = cs[i + 1..e].iter().collect();
                if !n.chars().all(|c| c.is_alphanumeric() || c == '_') || n.chars().next().map_or(false, |c| c.is_ascii_digit()) {
                    return None;
                }
                if !t.is_empty() {
                    out.push(FmtPart::Text(std::mem::take(&mut t)));
                }
                out.push(FmtPart::Name(n));
                i = e + 1;
            }
            '}' => return None,
            c => {
                t.push(c);
                i += 1;
            }
        }
    }
    if !t.is_empty() {
        out.push(FmtPart::Text(t));
    }
    Some(out)
}
/// `a + b` on texts, as far as the syntax shows it
fn is_text_add(b: &syn::ExprBinary) -> bool {
    fn right(e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Lit(l) => matches!(l.lit, syn::Lit::Str(_)),
            syn::Expr::MethodCall(m) => ["as_str", "as_ref"].contains(&m.method.to_string().as_str()),
            syn::Expr::Reference(r) => matches!(&*r.expr, syn::Expr::MethodCall(m) if m.method == "to_string") || matches!(&*r.expr, syn::Expr::Macro(m) if macro_name(&m.mac) == "format"),
            _ => false,
        }
    }
    fn left(e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Call(c) => match &*c.func {
                syn::Expr::Path(p) => p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>() == ["String", "from"],
                _ => false,
            },
            syn::Expr::MethodCall(m) => m.method == "to_string",
            syn::Expr::Macro(m) => macro_name(&m.mac) == "format",
            syn::Expr::Paren(p) => left(&p.expr),
            syn::Expr::Binary(b) => is_text_add(b),
            _ => false,
        }
    }
    matches!(b.op, syn::BinOp::Add(_)) && (right(&b.right) || left(&b.left))
}
fn macro_name(m: &syn::Macro) -> String {
    m.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}

impl<'a> Ctx<'a> {
    fn handle_macro(&mut self, m: &syn::Macro, range: (usize, usize)) -> bool {
        let name = macro_name(m);
        let (ts, te) = {
            let sp = match &m.delimiter {
                syn::MacroDelimiter::Paren(p) => p.span.span(),
                syn::MacroDelimiter::Brace(p) => p.span.span(),
                syn::MacroDelimiter::Bracket(p) => p.span.span(),
            };
            let (a, b) = br(sp);
            (a + 1, b - 1)
        };
        if name.starts_with("log::") || ["println", "eprintln", "print", "eprint"].contains(&name.as_str()) {
            self.edit(range.0, range.1, vec![Part::Lit("()".into())], "drop-log");
            return true;
        }
        if name == "format" && self.flag("exactfmt") {
            if let Ok(es) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                if let Some(f) = es.first().and_then(lit_str) {
                    if let Some(parts) = fmt_parts(&f) {
                        let mut out = vec![];
                        let mut k = 1;
                        let mut ok = true;
                        for p in &parts {
                            match p {
                                FmtPart::Text(t) => out.push(vec![Part::Lit(rust_str(t))]),
                                FmtPart::Name(n) if n.is_empty() => {
                                    if let Some(e) = es.iter().nth(k) {
                                        self.visit_expr(e);
                                        let r = br(e.span());
                                        out.push(vec![Part::Lit("(&(".into()), Part::Src(r.0, r.1), Part::Lit(").vx_to_string())".into())]);
                                        k += 1;
                                    } else {
                                        ok = false;
                                    }
                                }
                                FmtPart::Name(n) => out.push(vec![Part::Lit(format!("(&{n}.vx_to_string())"))]),
                            }
                        }
                        if ok && k == es.len() {
                            // the first part starts the string, the others are added to it
                            let mut all = vec![];
                            let first = if out.is_empty() { vec![Part::Lit("\"\"".into())] } else { out.remove(0) };
                            for _ in &out {
                                all.push(Part::Lit("vx_add(".into()));
                            }
                            all.push(Part::Lit("vx_string(".into()));
                            all.extend(first);
                            all.push(Part::Lit(")".into()));
                            for o in out {
                                all.push(Part::Lit(", ".into()));
                                all.extend(o);
                                all.push(Part::Lit(")".into()));
                            }
                            self.edit(range.0, range.1, all, "format-concat");
                            return true;
                        }
                    }
                }
            }
        }
        if name == "format" && !self.flag("keepformat") {
            self.edit(range.0, range.1, vec![Part::Lit("vx_format()".into())], "format-havoc");
            return true;
        }
        if name == "json" {
            if let Ok(e) = m.parse_body::<syn::Expr>() {
                self.visit_expr(&e);
                self.edit(
                    range.0,
                    range.1,
                    vec![Part::Lit("vx_json(&(".into()), Part::Src(ts, te), Part::Lit("))".into())],
                    "json-macro",
                );
                return true;
            }
        }
        if name == "assert_eq" {
            if let Ok(es) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                if es.len() >= 2 {
                    let a = br(es[0].span());
                    let b = br(es[1].span());
                    self.visit_expr(&es[0]);
                    self.visit_expr(&es[1]);
                    self.edit(
                        range.0,
                        range.1,
                        vec![
                            Part::Lit("vx_assert((".into()),
                            Part::Src(a.0, a.1),
                            Part::Lit(") == (".into()),
                            Part::Src(b.0, b.1),
                            Part::Lit("))".into()),
                        ],
                        "assert-obligation",
                    );
                    return true;
                }
            }
        }
        if name == "assert" {
            if let Ok(es) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                let a = br(es[0].span());
                self.visit_expr(&es[0]);
                self.edit(range.0, range.1, vec![Part::Lit("vx_assert(".into()), Part::Src(a.0, a.1), Part::Lit(")".into())], "assert-obligation");
                return true;
            }
        }
        if name == "panic" || name == "unreachable" || name == "todo" || name == "unimplemented" {
            self.edit(range.0, range.1, vec![Part::Lit("vx_panic()".into())], "panic-obligation");
            return true;
        }
        if name == "matches" {
            struct M {
                e: syn::Expr,
                p: syn::Pat,
            }
            impl syn::parse::Parse for M {
                fn parse(input: syn::parse::ParseStream) -> syn::Result<Self> {
                    let e = input.parse()?;
                    input.parse::<syn::Token![,]>()?;
                    let p = syn::Pat::parse_multi_with_leading_vert(input)?;
                    let _: Option<syn::Token![,]> = input.parse()?;
                    Ok(M { e, p })
                }
            }
            if let Ok(mm) = m.parse_body::<M>() {
                self.visit_expr(&mm.e);
                if let Some(lits) = pat_strs(&mm.p) {
                    let a = br(mm.e.span());
                    let mut parts = vec![Part::Lit("(".into())];
                    for (i, l) in lits.iter().enumerate() {
                        if i > 0 {
                            parts.push(Part::Lit(" || ".into()));
                        }
                        parts.push(Part::Lit("vx_streq(".into()));
                        parts.push(Part::Src(a.0, a.1));
                        parts.push(Part::Lit(format!(", {l})")));
                    }
                    parts.push(Part::Lit(")".into()));
                    self.edit(range.0, range.1, parts, "str-match");
                } else if let Some(lits) = pat_some_strs(&mm.p) {
                    let a = br(mm.e.span());
                    let mut parts = vec![Part::Lit("({ let vx_m = ".into()), Part::Src(a.0, a.1), Part::Lit("; ".into())];
                    parts.push(Part::Lit(lits.iter().map(|l| format!("vx_some_is(vx_m, {l})")).collect::<Vec<_>>().join(" || ")));
                    parts.push(Part::Lit(" })".into()));
                    self.edit(range.0, range.1, parts, "str-match");
                }
                return true;
            }
        }
        if name == "write" && self.flag("strfn") {
            if let Ok(es) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                let fmt = es.iter().nth(1).and_then(lit_str);
                let x = es.first().map(|e| br(e.span()));
                if let (Some(f), Some(x)) = (fmt, x) {
                    if es.len() == 2 && f.len() > 2 && f.starts_with('{') && f.ends_with('}') && f[1..f.len() - 1].chars().all(|c| c.is_alphanumeric() || c == '_') {
                        self.edit(range.0, range.1, vec![Part::Lit("(".into()), Part::Src(x.0, x.1), Part::Lit(format!(").vx_write(&{})", &f[1..f.len() - 1]))], "write");
                        return true;
                    }
                    if es.len() == 3 && f == "{}" {
                        let b = br(es[2].span());
                        self.visit_expr(&es[2]);
                        self.edit(range.0, range.1, vec![Part::Lit("(".into()), Part::Src(x.0, x.1), Part::Lit(").vx_write(&(".into()), Part::Src(b.0, b.1), Part::Lit("))".into())], "write");
                        return true;
                    }
                }
            }
        }
        if name == "write" && !self.flag("strfn") {
            if let Ok(es) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                if es.len() == 3 && lit_str(&es[1]).as_deref() == Some("{}") {
                    let (a, b) = (br(es[0].span()), br(es[2].span()));
                    self.visit_expr(&es[2]);
                    self.edit(range.0, range.1, vec![Part::Lit("vx_write(".into()), Part::Src(a.0, a.1), Part::Lit(", ".into()), Part::Src(b.0, b.1), Part::Lit(")".into())], "write");
                    return true;
                }
                if es.len() == 2 && lit_str(&es[1]).map_or(false, |s| !s.contains('{') && !s.contains('}')) {
                    let (a, b) = (br(es[0].span()), br(es[1].span()));
                    self.edit(range.0, range.1, vec![Part::Lit("vx_write(".into()), Part::Src(a.0, a.1), Part::Lit(", ".into()), Part::Src(b.0, b.1), Part::Lit(")".into())], "write");
                    return true;
                }
            }
        }
        if name == "writeln" {
            if let Ok(es) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                let fmt = es.iter().nth(1).and_then(lit_str);
                let x = es.first().map(|e| br(e.span()));
                if let (Some(f), Some(x)) = (fmt, x) {
                    if es.len() == 2 && f.len() > 2 && f.starts_with('{') && f.ends_with('}') && f[1..f.len() - 1].chars().all(|c| c.is_alphanumeric() || c == '_') {
                        self.edit(range.0, range.1, vec![Part::Lit("(".into()), Part::Src(x.0, x.1), Part::Lit(format!(").vx_writeln(&{})", &f[1..f.len() - 1]))], "writeln");
                        return true;
                    }
                    if es.len() == 3 && f == "{}" {
                        let b = br(es[2].span());
                        self.visit_expr(&es[2]);
                        self.edit(range.0, range.1, vec![Part::Lit("(".into()), Part::Src(x.0, x.1), Part::Lit(").vx_writeln(&(".into()), Part::Src(b.0, b.1), Part::Lit("))".into())], "writeln");
                        return true;
                    }
                }
            }
        }
        if name == "vec" {
            if let Ok(es) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                for e in &es {
                    self.visit_expr(e);
                }
            }
            return true;
        }
        false
    }
    fn closure1(e: &syn::Expr) -> Option<(Vec<(usize, usize)>, (usize, usize), &syn::Expr)> {
        if let syn::Expr::Closure(c) = e {
            let ps = c.inputs.iter().map(|p| br(p.span())).collect();
            return Some((ps, br(c.body.span()), &c.body));
        }
        None
    }
}

impl<'a, 'ast> Visit<'ast> for Ctx<'a> {
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        self.stmts.push(br(s.span()));
        if let syn::Stmt::Local(l) = s {
            if let syn::Pat::Type(pt) = &l.pat {
                if let (syn::Pat::Ident(i), syn::Type::Path(tp)) = (&*pt.pat, &*pt.ty) {
                    let seg = tp.path.segments.last().unwrap();
                    if seg.ident == "HashMap" {
                        if let syn::PathArguments::AngleBracketed(ab) = &seg.arguments {
                            if ab.args.len() == 2 {
                                let k = br(ab.args[0].span());
                                if ["&str", "&'static str"].contains(&&self.text[k.0..k.1]) {
                                    let tr = br(pt.ty.span());
                                    let v = br(ab.args[1].span());
                                    self.edit(tr.0, tr.1, vec![Part::Lit("StrMap<".into()), Part::Src(v.0, v.1), Part::Lit(">".into())], "hashmap-model");
                                    self.maps.push(i.ident.to_string());
                                }
                            }
                        }
                    }
                }
            }
            if let (syn::Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                self.bindings.remove(&i.ident.to_string());
                if i.mutability.is_some() {
                } else if let Some(v) = lit_str(string_from_arg(&init.expr).unwrap_or(&init.expr)) {
                    self.bindings.insert(i.ident.to_string(), (v, false));
                } else if let syn::Expr::Macro(m) = &*init.expr {
                    if macro_name(&m.mac) == "format" {
                        if let Ok(es) =
                            m.mac.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated)
                        {
                            if es.len() == 1 {
                                if let Some(v) = lit_str(&es[0]) {
                                    self.bindings.insert(i.ident.to_string(), (v, true));
                                }
                            }
                        }
                    }
                }
            }
        }
        if let syn::Stmt::Macro(m) = s {
            let r = br(m.mac.span());
            if self.handle_macro(&m.mac, r) {
                return;
            }
        }
        syn::visit::visit_stmt(self, s);
    }
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        let r = br(a.span());
        self.edit(r.0, r.1, vec![], "drop-attr");
    }
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        let r = br(e.span());
        match e {
            syn::Expr::Macro(m) => {
                if self.handle_macro(&m.mac, r) {
                    return;
                }
            }
            syn::Expr::Closure(c) => {
                let ps = c.inputs.iter().map(|p| { let q = br(p.span()); self.text[q.0..q.1].to_string() }).collect();
                let block = matches!(&*c.body, syn::Expr::Block(_));
                self.closures.push((br(c.or2_token.span()).1, br(c.body.span()), block, ps));
            }
            // `as` never panics; the verifier is told to give it Rust's truncating meaning
            syn::Expr::Cast(c) if self.flag("truncate") => {
                if let syn::Type::Path(tp) = &*c.ty {
                    if ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"].iter().any(|t| tp.path.is_ident(t)) {
                        self.edit(r.0, r.1, vec![Part::Lit("(#[verifier::truncate] (".into()), Part::Src(r.0, r.1), Part::Lit("))".into())], "truncating-cast");
                    }
                }
            }
            syn::Expr::ForLoop(f) => {
                let b = br(f.body.span());
                self.loops.push((r.0, b.0, b.1, r.1));
                // enumerate rule
                if let syn::Expr::MethodCall(mc) = &*f.expr {
                    if mc.method == "enumerate" && mc.args.is_empty() {
                        if let syn::Expr::MethodCall(it) = &*mc.receiver {
                            if it.method == "iter" && it.args.is_empty() {
                                if let syn::Pat::Tuple(t) = &*f.pat {
                                    if t.elems.len() == 2 {
                                        let p0 = br(t.elems[0].span());
                                        let p1 = br(t.elems[1].span());
                                        let fp = br(f.pat.span());
                                        let fe = br(f.expr.span());
                                        let rc = br(it.receiver.span());
                                        let n = self.loops.len() - 1;
                                        self.edit(fp.0, fp.1, vec![Part::Lit(format!("vx_i{n}"))], "enumerate");
                                        self.edit(
                                            fe.0,
                                            fe.1,
                                            vec![Part::Lit("0..".into()), Part::Src(rc.0, rc.1), Part::Lit(".len()".into())],
                                            "enumerate",
                                        );
                                        self.edit(
                                            b.0 + 1,
                                            b.0 + 1,
                                            vec![
                                                Part::Lit(" let ".into()),
                                                Part::Src(p0.0, p0.1),
                                                Part::Lit(format!(" = vx_i{n}; let ")),
                                                Part::Src(p1.0, p1.1),
                                                Part::Lit(" = &".into()),
                                                Part::Src(rc.0, rc.1),
                                                Part::Lit(format!("[vx_i{n}];")),
                                            ],
                                            "enumerate",
                                        );
                                        self.visit_expr(&it.receiver);
                                        self.visit_block(&f.body);
                                        return;
                                    }
                                }
                            }
                        }
                    }
                }
                let fp = br(f.expr.span());
                let n = self.loops.len() - 1;
                // a vector of mutable references is walked by index (the elements left over at a break stay known)
                if self.flag(&format!("ownvec{n}")) {
                    let a = br(f.pat.span());
                    self.edit(
                        r.0,
                        fp.1,
                        vec![
                            Part::Lit(format!("let mut vx_v{n} = ")),
                            Part::Src(fp.0, fp.1),
                            Part::Lit(format!("; let ghost vx_c{n} = vx_v{n}@; let ghost mut vx_k{n}: int = 0; while vx_v{n}.len() > 0 ")),
                        ],
                        "mut-iteration-by-index",
                    );
                    self.edit(b.0 + 1, b.0 + 1, vec![Part::Lit(format!(" let ghost vx_s{n} = vx_v{n}@; let {} = vx_v{n}.remove(0); proof {{ vx_k{n} = vx_k{n} + 1; }}", &self.text[a.0..a.1]))], "mut-iteration-by-index");
                    self.visit_expr(&f.expr);
                    self.visit_block(&f.body);
                    return;
                }
                if self.flag(&format!("mutvec{n}")) {
                    let bind = match &*f.pat {
                        syn::Pat::Tuple(t) if t.elems.len() == 2 => {
                            let (a, b) = (br(t.elems[0].span()), br(t.elems[1].span()));
                            format!(" let {} = vx_v{n}[vx_k{n}].0; let {} = &mut *vx_v{n}[vx_k{n}].1; vx_k{n} += 1;", &self.text[a.0..a.1], &self.text[b.0..b.1])
                        }
                        p => {
                            let a = br(p.span());
                            format!(" let {} = &mut *vx_v{n}[vx_k{n}]; vx_k{n} += 1;", &self.text[a.0..a.1])
                        }
                    };
                    self.edit(
                        r.0,
                        fp.1,
                        vec![
                            Part::Lit(format!("let mut vx_v{n} = ")),
                            Part::Src(fp.0, fp.1),
                            Part::Lit(format!("; let ghost vx_c{n} = vx_v{n}@; let mut vx_k{n}: usize = 0; while vx_k{n} < vx_v{n}.len() ")),
                        ],
                        "mut-iteration-by-index",
                    );
                    self.edit(b.0 + 1, b.0 + 1, vec![Part::Lit(format!(" let ghost vx_s{n} = vx_v{n}@;{bind}"))], "mut-iteration-by-index");
                    self.visit_expr(&f.expr);
                    self.visit_block(&f.body);
                    return;
                }
                // `for x in &mut v`: walked by index
                if let syn::Expr::Reference(rf) = &*f.expr {
                    if rf.mutability.is_some() {
                        let a = br(f.pat.span());
                        self.edit(
                            r.0,
                            fp.1,
                            vec![
                                Part::Lit(format!("let mut vx_v{n} = ")),
                                Part::Src(fp.0, fp.1),
                                Part::Lit(format!("; let ghost vx_c{n} = (*vx_v{n})@; let mut vx_k{n}: usize = 0; while vx_k{n} < vx_v{n}.len() ")),
                            ],
                            "mut-iteration-by-index",
                        );
                        self.edit(b.0 + 1, b.0 + 1, vec![Part::Lit(format!(" let ghost vx_s{n} = (*vx_v{n})@; let {} = &mut vx_v{n}[vx_k{n}]; vx_k{n} += 1;", &self.text[a.0..a.1]))], "mut-iteration-by-index");
                        self.visit_expr(&f.expr);
                        self.visit_block(&f.body);
                        return;
                    }
                }
                if let syn::Expr::Path(p) = &*f.expr {
                    if p.path.get_ident().map_or(false, |i| self.maps.contains(&i.to_string())) {
                        self.edit(fp.1, fp.1, vec![Part::Lit(".vx_into_vec()".into())], "hashmap-model");
                    }
                }
                self.edit(fp.0, fp.0, vec![Part::Lit(format!("vx_it{n}: "))], "iter-name");
            }
            syn::Expr::While(w) => {
                let b = br(w.body.span());
                self.loops.push((r.0, b.0, b.1, r.1));
            }
            syn::Expr::Loop(l) => {
                let b = br(l.body.span());
                self.loops.push((r.0, b.0, b.1, r.1));
            }
            syn::Expr::Match(m) => {
                let mut arms: Vec<(Option<Vec<String>>, (usize, usize))> = vec![];
                let mut ok = true;
                let mut any = false;
                let mut bind: Option<String> = None;
                for a in &m.arms {
                    if a.guard.is_some() {
                        ok = false;
                        break;
                    }
                    if let Some(l) = pat_strs(&a.pat) {
                        any = true;
                        arms.push((Some(l), br(a.body.span())));
                    } else if matches!(&a.pat, syn::Pat::Wild(_)) {
                        arms.push((None, br(a.body.span())));
                    } else if let (syn::Pat::Ident(i), true) = (&a.pat, any) {
                        bind = Some(i.ident.to_string());
                        arms.push((None, br(a.body.span())));
                    } else {
                        ok = false;
                        break;
                    }
                }
                // leading arms `Some("a") =>` become tests, the others stay a match
                let lead = m.arms.iter().take_while(|a| a.guard.is_none() && pat_some_strs(&a.pat).is_some()).count();
                if lead > 0 && lead < m.arms.len() && m.arms.iter().skip(lead).all(|a| pat_some_strs(&a.pat).is_none()) {
                    let s = br(m.expr.span());
                    let mut parts = vec![Part::Lit("{ let vx_m = ".into()), Part::Src(s.0, s.1), Part::Lit("; ".into())];
                    for a in m.arms.iter().take(lead) {
                        let b = br(a.body.span());
                        let c = pat_some_strs(&a.pat).unwrap().iter().map(|x| format!("vx_some_is(vx_m, {x})")).collect::<Vec<_>>().join(" || ");
                        parts.push(Part::Lit(format!("if {c} {{ ")));
                        parts.push(Part::Src(b.0, b.1));
                        parts.push(Part::Lit(" } else ".into()));
                    }
                    let (x, y) = (br(m.arms[lead].span()).0, br(m.arms.last().unwrap().span()).1);
                    parts.push(Part::Lit("{ match vx_m { ".into()));
                    parts.push(Part::Src(x, y));
                    parts.push(Part::Lit(" } } }".into()));
                    self.edit(r.0, r.1, parts, "str-match");
                }
                if ok && any && arms.last().map_or(false, |a| a.0.is_none()) {
                    let s = br(m.expr.span());
                    let mut parts = vec![Part::Lit("{ let vx_m = ".into()), Part::Src(s.0, s.1), Part::Lit("; ".into())];
                    for (l, b) in &arms {
                        match l {
                            Some(l) => {
                                let c = l.iter().map(|x| format!("vx_streq(vx_m, {x})")).collect::<Vec<_>>().join(" || ");
                                parts.push(Part::Lit(format!("if {c} {{ ")));
                                parts.push(Part::Src(b.0, b.1));
                                parts.push(Part::Lit(" } else ".into()));
                            }
                            None => {
                                parts.push(Part::Lit(match &bind { Some(n) => format!("{{ let {n} = vx_m; "), None => "{ ".into() }));
                                parts.push(Part::Src(b.0, b.1));
                                parts.push(Part::Lit(" } }".into()));
                                break;
                            }
                        }
                    }
                    self.edit(r.0, r.1, parts, "str-match");
                }
            }
            syn::Expr::Let(l) if pat_some_strs(&l.pat).is_some() => {
                let a = br(l.expr.span());
                let mut parts = vec![Part::Lit("({ let vx_m = ".into()), Part::Src(a.0, a.1), Part::Lit("; ".into())];
                parts.push(Part::Lit(pat_some_strs(&l.pat).unwrap().iter().map(|x| format!("vx_some_is(vx_m, {x})")).collect::<Vec<_>>().join(" || ")));
                parts.push(Part::Lit(" })".into()));
                self.edit(r.0, r.1, parts, "str-match");
            }
            syn::Expr::Binary(b) if matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) && (some_str(&b.right).is_some() || some_str(&b.left).is_some()) => {
                let (e, t) = match some_str(&b.right) { Some(t) => (&b.left, t), None => (&b.right, some_str(&b.left).unwrap()) };
                let a = br(e.span());
                let not = if matches!(b.op, syn::BinOp::Ne(_)) { "!" } else { "" };
                self.edit(r.0, r.1, vec![Part::Lit(format!("({not}vx_some_is(")), Part::Src(a.0, a.1), Part::Lit(format!(", {t}))"))], "str-match");
            }
            syn::Expr::Path(p) if p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>() == ["Value", "Null"] => {
                self.edit(r.0, r.1, vec![Part::Lit("Value::vx_null()".into())], "json-null");
            }
            syn::Expr::Binary(b) if is_text_add(b) => {
                let (x, y) = (br(b.left.span()), br(b.right.span()));
                self.edit(r.0, r.1, vec![Part::Lit("vx_add(".into()), Part::Src(x.0, x.1), Part::Lit(", ".into()), Part::Src(y.0, y.1), Part::Lit(")".into())], "text-add");
            }
            syn::Expr::Binary(b) if matches!(b.op, syn::BinOp::AddAssign(_)) && (matches!(&*b.right, syn::Expr::Reference(_)) || matches!(&*b.right, syn::Expr::Lit(l) if matches!(l.lit, syn::Lit::Str(_)))) => {
                let (x, y) = (br(b.left.span()), br(b.right.span()));
                self.edit(r.0, r.1, vec![Part::Lit("vx_push_str(&mut ".into()), Part::Src(x.0, x.1), Part::Lit(", ".into()), Part::Src(y.0, y.1), Part::Lit(")".into())], "push-str");
            }
            syn::Expr::MethodCall(mc) => {
                self.calls.push((mc.method.to_string(), r.0));
                let name = mc.method.to_string();
                let rc = br(mc.receiver.span());
                let iterish = {
                    let mut it = false;
                    let mut cur: &syn::Expr = &mc.receiver;
                    while let syn::Expr::MethodCall(m) = cur {
                        if ["iter", "iter_mut", "into_iter", "chars", "bytes", "lines", "split", "split_whitespace", "keys", "values"]
                            .contains(&m.method.to_string().as_str())
                        {
                            it = true;
                        }
                        cur = &m.receiver;
                    }
                    it
                };
                // the order a sort gives is dropped, the elements are kept
                // sortfn: the comparison of a sort is kept, and comparing texts becomes a call of the model
                if self.flag("sortfn") && mc.args.len() == 1 && ["sort_by", "sort_unstable_by"].contains(&name.as_str()) {
                    let ar = br(mc.args[0].span());
                    self.edit(r.0, r.1, vec![Part::Src(rc.0, rc.1), Part::Lit(".vx_sort_cmp(".into()), Part::Src(ar.0, ar.1), Part::Lit(")".into())], "sort-compares");
                    self.visit_expr(&mc.receiver);
                    self.visit_expr(&mc.args[0]);
                    return;
                }
                if self.flag("sortfn") && mc.args.len() == 1 && name == "cmp" {
                    let ar = br(mc.args[0].span());
                    self.edit(r.0, r.1, vec![Part::Lit("vx_scmp(&".into()), Part::Src(rc.0, rc.1), Part::Lit(", ".into()), Part::Src(ar.0, ar.1), Part::Lit(")".into())], "text-order");
                    self.visit_expr(&mc.receiver);
                    self.visit_expr(&mc.args[0]);
                    return;
                }
                if ["sort", "sort_unstable", "sort_by", "sort_unstable_by"].contains(&name.as_str()) {
                    self.edit(r.0, r.1, vec![Part::Src(rc.0, rc.1), Part::Lit(if name.contains("_by") { ".vx_sort_by()" } else { ".vx_sort()" }.into())], "sort-permutes");
                    return;
                }
                // X.iter().filter_map(|p| B).collect() and X.iter().map(|p| B).collect() become loops that push
                if name == "collect" && mc.args.is_empty() {
                    let mut stages: Vec<&syn::ExprMethodCall> = vec![];
                    let mut cur: &syn::Expr = &mc.receiver;
                    while let syn::Expr::MethodCall(m) = cur {
                        if !["filter", "map", "filter_map"].contains(&m.method.to_string().as_str()) || m.args.len() != 1 || Self::closure1(&m.args[0]).map_or(true, |c| c.0.len() != 1) {
                            break;
                        }
                        stages.insert(0, m);
                        cur = &m.receiver;
                    }
                    let base_ok = matches!(cur, syn::Expr::MethodCall(m) if m.method == "iter" || m.method == "into_iter");
                    if base_ok && (stages.len() > 1 || stages.len() == 1 && stages[0].method == "filter") {
                        let n = self.loops.len();
                        self.loops.push((r.0, usize::MAX, usize::MAX, r.1));
                        let ir = br(cur.span());
                        let mut parts = vec![
                            Part::Lit(format!("{{ let mut vx_o{n} = Vec::new(); for vx_x{n} in vx_it{n}: ")),
                            Part::Src(ir.0, ir.1),
                            Part::Lit(format!(" /*@loop {n}*/ {{ /*@loopstart {n}*/ ")),
                        ];
                        let mut close = 0;
                        for m in &stages {
                            let (ps, b, _) = Self::closure1(&m.args[0]).unwrap();
                            match m.method.to_string().as_str() {
                                "filter" => {
                                    parts.push(Part::Lit("if { let ".into()));
                                    parts.push(Part::Src(ps[0].0, ps[0].1));
                                    parts.push(Part::Lit(format!(" = &vx_x{n}; ")));
                                    parts.push(Part::Src(b.0, b.1));
                                    parts.push(Part::Lit(" } { ".into()));
                                    close += 1;
                                }
                                "map" => {
                                    parts.push(Part::Lit("let ".into()));
                                    parts.push(Part::Lit(format!("vx_x{n} = {{ let ")));
                                    parts.push(Part::Src(ps[0].0, ps[0].1));
                                    parts.push(Part::Lit(format!(" = vx_x{n}; ")));
                                    parts.push(Part::Src(b.0, b.1));
                                    parts.push(Part::Lit(" }; ".into()));
                                }
                                _ => {
                                    parts.push(Part::Lit(format!("if let Some(vx_x{n}) = {{ let ")));
                                    parts.push(Part::Src(ps[0].0, ps[0].1));
                                    parts.push(Part::Lit(format!(" = vx_x{n}; ")));
                                    parts.push(Part::Src(b.0, b.1));
                                    parts.push(Part::Lit(" } { ".into()));
                                    close += 1;
                                }
                            }
                        }
                        parts.push(Part::Lit(format!("vx_o{n}.push(vx_x{n}); {}/*@loopend {n}*/ }} vx_o{n} }}", "} ".repeat(close))));
                        self.edit(r.0, r.1, parts, "collect-loop");
                    } else if let syn::Expr::MethodCall(fm) = &*mc.receiver {
                        let kind = fm.method.to_string();
                        if (kind == "filter_map" || kind == "map") && fm.args.len() == 1 {
                            if let (Some((ps, b, _)), syn::Expr::MethodCall(it)) = (Self::closure1(&fm.args[0]), &*fm.receiver) {
                                if it.method == "iter" && ps.len() == 1 {
                                    let n = self.loops.len();
                                    self.loops.push((r.0, usize::MAX, usize::MAX, r.1));
                                    let ir = br(it.span());
                                    let (x, y) = if kind == "map" {
                                        (format!("let vx_x{n} = "), format!("; vx_o{n}.push(vx_x{n}); "))
                                    } else {
                                        (format!("if let Some(vx_x{n}) = "), format!(" {{ vx_o{n}.push(vx_x{n}); }} "))
                                    };
                                    self.edit(
                                        r.0,
                                        r.1,
                                        vec![
                                            Part::Lit(format!("{{ let mut vx_o{n} = Vec::new(); for ")),
                                            Part::Src(ps[0].0, ps[0].1),
                                            Part::Lit(format!(" in vx_it{n}: ")),
                                            Part::Src(ir.0, ir.1),
                                            Part::Lit(format!(" /*@loop {n}*/ {{ /*@loopstart {n}*/ {x}")),
                                            Part::Src(b.0, b.1),
                                            Part::Lit(format!("{y} /*@loopend {n}*/ }} vx_o{n} }}")),
                                        ],
                                        "collect-loop",
                                    );
                                }
                            }
                        }
                    }
                }
                if !self.flag("noopt") && !iterish {
                    if name == "map" && mc.args.len() == 1 {
                        if let syn::Expr::Path(_) = &mc.args[0] {
                            let a = br(mc.args[0].span());
                            let mut f = self.text[a.0..a.1].to_string();
                            if f == "String::from" {
                                f = "vx_string".into();
                            }
                            self.edit(
                                r.0,
                                r.1,
                                vec![Part::Lit("(match ".into()), Part::Src(rc.0, rc.1), Part::Lit(format!(" {{ Some(vx_v) => Some({f}(vx_v)), None => None }})"))],
                                "option-map",
                            );
                        }
                        if let Some((ps, b, _)) = Self::closure1(&mc.args[0]) {
                            self.edit(
                                r.0,
                                r.1,
                                vec![
                                    Part::Lit("(match ".into()),
                                    Part::Src(rc.0, rc.1),
                                    Part::Lit(" { Some(".into()),
                                    Part::Src(ps[0].0, ps[0].1),
                                    Part::Lit(") => Some(".into()),
                                    Part::Src(b.0, b.1),
                                    Part::Lit("), None => None })".into()),
                                ],
                                "option-map",
                            );
                        }
                    }
                    if name == "map_or_else" && mc.args.len() == 2 {
                        if let (Some((_, b0, _)), Some((ps, b, _))) = (Self::closure1(&mc.args[0]), Self::closure1(&mc.args[1])) {
                            self.edit(
                                r.0,
                                r.1,
                                vec![
                                    Part::Lit("(match ".into()),
                                    Part::Src(rc.0, rc.1),
                                    Part::Lit(" { None => ".into()),
                                    Part::Src(b0.0, b0.1),
                                    Part::Lit(", Some(".into()),
                                    Part::Src(ps[0].0, ps[0].1),
                                    Part::Lit(") => ".into()),
                                    Part::Src(b.0, b.1),
                                    Part::Lit(" })".into()),
                                ],
                                "option-map-or-else",
                            );
                        }
                    }
                    if (name == "map_or" || name == "is_some_and" || name == "and_then" || name == "unwrap_or_else" || name == "or_else" || name == "filter") && !mc.args.is_empty() {
                        let ci = mc.args.len() - 1;
                        if let Some((ps, b, _)) = Self::closure1(&mc.args[ci]) {
                            let mut parts = vec![Part::Lit("(match ".into()), Part::Src(rc.0, rc.1), Part::Lit(" { ".into())];
                            match name.as_str() {
                                "map_or" => {
                                    let d = br(mc.args[0].span());
                                    parts.extend([Part::Lit("Some(".into()), Part::Src(ps[0].0, ps[0].1), Part::Lit(") => ".into()), Part::Src(b.0, b.1), Part::Lit(", None => ".into()), Part::Src(d.0, d.1)]);
                                }
                                "is_some_and" => parts.extend([Part::Lit("Some(".into()), Part::Src(ps[0].0, ps[0].1), Part::Lit(") => ".into()), Part::Src(b.0, b.1), Part::Lit(", None => false".into())]),
                                "and_then" => parts.extend([Part::Lit("Some(".into()), Part::Src(ps[0].0, ps[0].1), Part::Lit(") => ".into()), Part::Src(b.0, b.1), Part::Lit(", None => None".into())]),
                                "unwrap_or_else" => parts.extend([Part::Lit("Some(vx_v) => vx_v, None => ".into()), Part::Src(b.0, b.1)]),
                                "or_else" if ps.is_empty() => parts.extend([Part::Lit("Some(vx_v) => Some(vx_v), None => ".into()), Part::Src(b.0, b.1)]),
                                _ => parts.clear(),
                            }
                            if !parts.is_empty() {
                                parts.push(Part::Lit(" })".into()));
                                self.edit(r.0, r.1, parts, "option-combinator");
                            }
                        }
                    }
                }
                if self.flag("boxref") && (name == "as_ref" || name == "as_mut") && mc.args.is_empty() {
                    let l = if name == "as_ref" { "(&*" } else { "(&mut *" };
                    self.edit(r.0, r.1, vec![Part::Lit(l.into()), Part::Src(rc.0, rc.1), Part::Lit(")".into())], "box-as-ref");
                }
                let mspan = br(mc.method.span());
                if name == "to_string" && mc.args.is_empty() {
                    self.edit(mspan.0, mspan.1, vec![Part::Lit("vx_to_string".into())], "to-string");
                }
                if name == "push_str" && mc.args.len() == 1 {
                    let a = br(mc.args[0].span());
                    self.edit(r.0, r.1, vec![Part::Lit("vx_push_str(&mut ".into()), Part::Src(rc.0, rc.1), Part::Lit(", ".into()), Part::Src(a.0, a.1), Part::Lit(")".into())], "push-str");
                }
                if name == "get" && mc.args.len() == 1 {
                    if let syn::Expr::Range(rg) = &mc.args[0] {
                        if let (None, Some(e)) = (&rg.start, &rg.end) {
                            let e = br(e.span());
                            self.edit(r.0, r.1, vec![Part::Lit("vx_str_prefix(".into()), Part::Src(rc.0, rc.1), Part::Lit(", ".into()), Part::Src(e.0, e.1), Part::Lit(")".into())], "str-get");
                        }
                    }
                }
                if name == "swap" && mc.args.len() == 2 {
                    self.edit(mspan.0, mspan.1, vec![Part::Lit("vx_swap".into())], "swap");
                }
                if name == "to_ne_bytes" && mc.args.is_empty() {
                    self.edit(mspan.0, mspan.1, vec![Part::Lit("vx_bytes".into())], "to-bytes");
                }
                if name == "parse" && mc.args.is_empty() {
                    if let Some(tf) = &mc.turbofish {
                        let t = tf.args.iter().map(|a| { let r = br(a.span()); self.text[r.0..r.1].to_string() }).collect::<String>();
                        let te = br(tf.span());
                        self.edit(mspan.0, te.1, vec![Part::Lit(format!("vx_parse_{t}"))], "parse");
                    }
                }
                if self.flag("strfn") {
                    if let Some(n) = [("len", 0, "vx_blen"), ("find", 1, "vx_find"), ("replace", 2, "vx_replace"), ("remove", 1, "vx_remove"), ("as_bytes", 0, "vx_as_bytes"), ("starts_with", 1, "vx_starts"), ("is_empty", 0, "vx_is_empty")]
                        .iter()
                        .find(|x| x.0 == name && x.1 == mc.args.len())
                    {
                        self.edit(mspan.0, mspan.1, vec![Part::Lit(n.2.into())], "text-method");
                    }
                } else if name == "find" && mc.args.len() == 1 {
                    if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Char(_), .. }) = &mc.args[0] {
                        self.edit(mspan.0, mspan.1, vec![Part::Lit("vx_find_char".into())], "find-char");
                    }
                }
                if name == "pow" && mc.args.len() == 1 {
                    if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(i), .. }) = &*mc.receiver {
                        if i.base10_digits() == "2" && !i.suffix().is_empty() {
                            let a = br(mc.args[0].span());
                            let sfx = i.suffix().to_string();
                            self.edit(r.0, r.1, vec![Part::Lit(format!("vx_pow2_{sfx}(")), Part::Src(a.0, a.1), Part::Lit(")".into())], "pow2");
                        }
                    }
                }
            }
            syn::Expr::Call(c) => {
                if let syn::Expr::Path(p) = &*c.func {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    self.calls.push((n.clone(), r.0));
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if segs == ["HashMap", "new"] {
                        let fr = br(c.func.span());
                        self.edit(fr.0, fr.1, vec![Part::Lit("StrMap::new".into())], "hashmap-model");
                    }
                    if segs.len() == 2 && segs[1] == "try_from" {
                        let fr = br(c.func.span());
                        self.edit(fr.0, fr.1, vec![Part::Lit(format!("{}::vx_try_from", segs[0]))], "try-from");
                    }
                    if segs == ["usize", "from"] && self.flag("strfn") {
                        let fr = br(c.func.span());
                        self.edit(fr.0, fr.1, vec![Part::Lit("vx_usize_from".into())], "usize-from");
                    }
                    if segs == ["String", "from"] {
                        let fr = br(c.func.span());
                        self.edit(fr.0, fr.1, vec![Part::Lit("vx_string".into())], "string-from");
                    }
                    if (n == "new_json_node" || n == "from_str") && c.args.len() == 1 && !self.flag("nojsonlit") {
                        let a = strip_ref(&c.args[0]);
                        let lit = if let Some(s) = lit_str(a) {
                            Some((s, false))
                        } else if let syn::Expr::Path(p) = a {
                            p.path.get_ident().and_then(|i| self.bindings.get(&i.to_string()).cloned())
                        } else {
                            None
                        };
                        if let Some((s, f)) = lit {
                            let mut args = vec![];
                            let spec = json_to_jv(&s, f, &mut args);
                            let k = self.litfns.len();
                            let fname = format!("vx_jsonlit_{}_{k}", self.prefix.replace(|c: char| !c.is_alphanumeric(), "_"));
                            let gens = if args.is_empty() {
                                String::new()
                            } else {
                                format!("<{}>", args.iter().map(|a| format!("T{}: VxDisp", a.replace('_', "").to_uppercase())).collect::<Vec<_>>().join(", "))
                            };
                            let params = args.iter().map(|a| format!("vx_arg_{a}: &T{}", a.replace('_', "").to_uppercase())).collect::<Vec<_>>().join(", ");
                            let ens = match spec {
                                Some(sp) => format!("r is Ok, r->Ok_0@ == ({sp}),"),
                                None => {
                                    args.clear();
                                    "r is Err,".to_string()
                                }
                            };
                            self.litfns.push(format!(
                                "#[verifier::external_body]\nfn {fname}{gens}({params}) -> (r: Result<Value, MutagenyxError>)\n    ensures {ens}\n{{ unimplemented!() }}\n"
                            ));
                            let call = format!("{fname}({})", args.iter().map(|a| format!("&{a}")).collect::<Vec<_>>().join(", "));
                            self.edit(r.0, r.1, vec![Part::Lit(call)], "json-literal");
                            return;
                        }
                    }
                }
            }
            syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Float(_), .. }) => {
                self.edit(r.0, r.1, vec![Part::Lit("vx_f64()".into())], "float-literal");
                return;
            }
            syn::Expr::Unary(syn::ExprUnary { op: syn::UnOp::Neg(_), expr, .. }) => {
                if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Float(_), .. }) = &**expr {
                    self.edit(r.0, r.1, vec![Part::Lit("vx_f64()".into())], "float-literal");
                    return;
                }
                if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(i), .. }) = &**expr {
                    if i.suffix() == "i128" && i.base10_digits() == "170141183460469231731687303715884105728" {
                        self.edit(r.0, r.1, vec![Part::Lit("i128::MIN".into())], "i128-min");
                        return;
                    }
                }
            }
            syn::Expr::Assign(a) => {
                if let syn::Expr::Index(ix) = &*a.left {
                    if lit_str(&ix.index).is_some() {
                        let b = br(ix.expr.span());
                        let k = br(ix.index.span());
                        let v = br(a.right.span());
                        self.edit(
                            r.0,
                            r.1,
                            vec![
                                Part::Lit("vx_index_set(&mut ".into()),
                                Part::Src(b.0, b.1),
                                Part::Lit(", ".into()),
                                Part::Src(k.0, k.1),
                                Part::Lit(", ".into()),
                                Part::Src(v.0, v.1),
                                Part::Lit(")".into()),
                            ],
                            "index-assign",
                        );
                    }
                }
            }
            syn::Expr::Index(ix) if self.flag("strfn") && matches!(&*ix.index, syn::Expr::Range(_)) => {
                if let syn::Expr::Range(rg) = &*ix.index {
                    let b = br(ix.expr.span());
                    let mut parts = vec![Part::Lit("vx_slice(".into()), Part::Src(b.0, b.1), Part::Lit(", ".into())];
                    match &rg.start {
                        Some(s) => {
                            let s = br(s.span());
                            parts.push(Part::Src(s.0, s.1));
                        }
                        None => parts.push(Part::Lit("0".into())),
                    }
                    parts.push(Part::Lit(", ".into()));
                    match &rg.end {
                        Some(s) => {
                            let s = br(s.span());
                            parts.push(Part::Lit("Some(".into()));
                            parts.push(Part::Src(s.0, s.1));
                            parts.push(Part::Lit(")".into()));
                        }
                        None => parts.push(Part::Lit("None".into())),
                    }
                    parts.push(Part::Lit(")".into()));
                    self.edit(r.0, r.1, parts, "str-slice");
                }
            }
            syn::Expr::Reference(rf) => {
                if let syn::Expr::Index(ix) = &*rf.expr {
                    if let syn::Expr::Range(rg) = &*ix.index {
                        if self.flag("strslice") || self.flag("strfn") {
                            let b = br(ix.expr.span());
                            let mut parts = vec![Part::Lit(if self.flag("strfn") { "vx_slice(".into() } else { "vx_str_slice(".into() }), Part::Src(b.0, b.1), Part::Lit(", ".into())];
                            match &rg.start {
                                Some(s) => {
                                    let s = br(s.span());
                                    parts.push(Part::Src(s.0, s.1));
                                }
                                None => parts.push(Part::Lit("0".into())),
                            }
                            parts.push(Part::Lit(", ".into()));
                            match &rg.end {
                                Some(s) => {
                                    let s = br(s.span());
                                    parts.push(Part::Lit("Some(".into()));
                                    parts.push(Part::Src(s.0, s.1));
                                    parts.push(Part::Lit(")".into()));
                                }
                                None => parts.push(Part::Lit("None".into())),
                            }
                            parts.push(Part::Lit(")".into()));
                            self.edit(r.0, r.1, parts, "str-slice");
                        }
                    }
                }
            }
            _ => {}
        }
        syn::visit::visit_expr(self, e);
    }
}

struct FnRef<'a> {
    sig: &'a syn::Signature,
    vis: Option<&'a syn::Visibility>,
    block: Option<&'a syn::Block>,
    whole: (usize, usize),
    start: usize,
}

fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => type_name(&r.elem),
        _ => String::new(),
    }
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") || a.path().is_ident("test"))
}

fn find_fns<'a>(items: &'a [syn::Item], tr: Option<&str>, ty: Option<&str>, name: &str, out: &mut Vec<FnRef<'a>>) {
    for it in items {
        match it {
            syn::Item::Fn(f) if ty.is_none() && f.sig.ident == name && !is_test(&f.attrs) => {
                let s = match &f.vis {
                    syn::Visibility::Inherited => br(f.sig.span()).0,
                    v => br(v.span()).0,
                };
                out.push(FnRef { sig: &f.sig, vis: Some(&f.vis), block: Some(&f.block), whole: br(f.span()), start: s });
            }
            syn::Item::Impl(im) => {
                if let Some(ty) = ty {
                    if type_name(&im.self_ty) == ty {
                        let tn = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                        if let Some(tr) = tr {
                            let full = im.trait_.as_ref().map(|t| { let l = t.1.segments.last().unwrap(); quote::quote!(#l).to_string().replace(' ', "") });
                            if tn.as_deref() != Some(tr) && full.as_deref() != Some(tr) {
                                continue;
                            }
                        }
                        for ii in &im.items {
                            if let syn::ImplItem::Fn(f) = ii {
                                if f.sig.ident == name {
                                    let s = match &f.vis {
                                        syn::Visibility::Inherited => br(f.sig.span()).0,
                                        v => br(v.span()).0,
                                    };
                                    out.push(FnRef { sig: &f.sig, vis: Some(&f.vis), block: Some(&f.block), whole: br(f.span()), start: s });
                                }
                            }
                        }
                    }
                }
            }
            syn::Item::Trait(t) => {
                if ty == Some(&t.ident.to_string()) {
                    for ti in &t.items {
                        if let syn::TraitItem::Fn(f) = ti {
                            if f.sig.ident == name {
                                out.push(FnRef { sig: &f.sig, vis: None, block: f.default.as_ref(), whole: br(f.span()), start: br(f.sig.span()).0 });
                            }
                        }
                    }
                }
            }
            syn::Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, items)) = &m.content {
                    find_fns(items, tr, ty, name, out);
                }
            }
            _ => {}
        }
    }
}

fn find_item<'a>(items: &'a [syn::Item], name: &str) -> Option<&'a syn::Item> {
    for it in items {
        let id = match it {
            syn::Item::Struct(s) => s.ident.to_string(),
            syn::Item::Enum(s) => s.ident.to_string(),
            syn::Item::Trait(s) => s.ident.to_string(),
            syn::Item::Type(s) => s.ident.to_string(),
            syn::Item::Const(s) => s.ident.to_string(),
            syn::Item::Static(s) => s.ident.to_string(),
            syn::Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, items)) = &m.content {
                    if let Some(i) = find_item(items, name) {
                        return Some(i);
                    }
                }
                continue;
            }
            _ => continue,
        };
        if id == name {
            return Some(it);
        }
    }
    None
}

struct AttrDrop {
    edits: Vec<Edit>,
}
impl<'ast> Visit<'ast> for AttrDrop {
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        let r = br(a.span());
        let seq = self.edits.len();
        self.edits.push(Edit { start: r.0, end: r.1, parts: vec![], seq });
    }
}

struct World {
    repo: PathBuf,
    files: BTreeMap<String, SrcFile>,
    trust: Vec<String>,
    assumed: bool,
}

impl World {
    fn load(&mut self, rel: &str) -> Result<(), String> {
        if self.files.contains_key(rel) {
            return Ok(());
        }
        let p = self.repo.join(rel);
        let text = std::fs::read_to_string(&p).map_err(|e| format!("{rel}: {e}"))?;
        let ast = syn::parse_file(&text).map_err(|e| format!("{rel}: {e}"))?;
        // proc-macro2 keeps a global source map: byte_range() is relative to each parsed file
        self.files.insert(rel.to_string(), SrcFile { rel: rel.to_string(), text, ast });
        Ok(())
    }
    fn all_rs(&self) -> Vec<String> {
        fn walk(d: &Path, out: &mut Vec<PathBuf>) {
            if let Ok(rd) = std::fs::read_dir(d) {
                let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
                es.sort();
                for p in es {
                    if p.is_dir() {
                        if p.file_name().map_or(false, |n| n == "target" || n == ".git") {
                            continue;
                        }
                        walk(&p, out);
                    } else if p.extension().map_or(false, |x| x == "rs") {
                        out.push(p);
                    }
                }
            }
        }
        let mut v = vec![];
        walk(&self.repo, &mut v);
        v.into_iter().map(|p| p.strip_prefix(&self.repo).unwrap().to_string_lossy().to_string()).collect()
    }
}

fn parse_path(p: &str) -> (Option<String>, Option<String>, String) {
    // Trait@Type::name | Type::name | name
    let (tr, rest) = match p.split_once('@') {
        Some((a, b)) => (Some(a.to_string()), b),
        None => (None, p),
    };
    match rest.split_once("::") {
        Some((t, n)) => (tr, Some(t.to_string()), n.to_string()),
        None => (tr, None, rest.to_string()),
    }
}

#[derive(Default)]
struct FnDir {
    file: String,
    path: String,
    opts: Vec<String>,
    ret: Option<String>,
    spec: String,
    inserts: Vec<(String, String)>, // (position directive, text)
    substs: Vec<(String, String)>,
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut w = World { repo: PathBuf::from(&a[1]), files: BTreeMap::new(), assumed: false, trust: a.get(5).map_or(vec![], |s| s.split(',').map(|x| x.to_string()).collect()) };
    let tpl_path = PathBuf::from(&a[2]);
    let mut out = String::new();
    let mut funcs: Vec<Value> = vec![];
    let mut items: Vec<Value> = vec![];
    let mut problems: Vec<Value> = vec![];
    let mut litfns: Vec<String> = vec![];
    process(&mut w, &tpl_path, &mut out, &mut funcs, &mut items, &mut problems, &mut litfns);
    let out = out.replace("/*@LITFNS@*/", &litfns.join("\n"));
    let out = if out.contains("/*@LITS@*/") { let l = gen_lits(&out); out.replace("/*@LITS@*/", &l) } else { out };
    std::fs::write(&a[3], &out).unwrap();
    let rep = json!({"functions": funcs, "items": items, "problems": problems});
    std::fs::write(&a[4], serde_json::to_string_pretty(&rep).unwrap()).unwrap();
}

fn process(
    w: &mut World,
    tpl: &Path,
    out: &mut String,
    funcs: &mut Vec<Value>,
    items: &mut Vec<Value>,
    problems: &mut Vec<Value>,
    litfns: &mut Vec<String>,
) {
    let text = std::fs::read_to_string(tpl).unwrap_or_else(|e| panic!("{}: {e}", tpl.display()));
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i].trim();
        if let Some(rest) = l.strip_prefix("//@include ") {
            // `assumed`: the functions of the file are used by their contracts, which another unit proves
            let was = w.assumed;
            let rest = match rest.trim().strip_suffix(" assumed") {
                Some(r) => {
                    w.assumed = true;
                    r
                }
                None => rest.trim(),
            };
            let p = tpl.parent().unwrap().join(rest.trim());
            process(w, &p, out, funcs, items, problems, litfns);
            w.assumed = was;
        } else if let Some(rest) = l.strip_prefix("//@item ") {
            // FILE NAME [keep text prefix after |]
            let mut pieces = rest.split("%%");
            let rest = pieces.next().unwrap();
            let subs: Vec<(String, String)> = pieces.map(|p| { let (a, b) = p.split_once("==>").unwrap(); (a.trim().to_string(), b.trim().to_string()) }).collect();
            let (head, attr) = match rest.split_once('|') {
                Some((h, a)) => (h.trim(), a.trim()),
                None => (rest.trim(), ""),
            };
            let mut it = head.split_whitespace();
            let file = it.next().unwrap().to_string();
            let name = it.next().unwrap().to_string();
            let mut done = false;
            let mut cands = vec![file.clone()];
            if w.load(&file).is_err() || find_item(&w.files[&file].ast.items, &name).is_none() {
                cands = w.all_rs();
            }
            for f in cands {
                if w.load(&f).is_err() {
                    continue;
                }
                let sf = &w.files[&f];
                if let Some(item) = find_item(&sf.ast.items, &name) {
                    let r = br(item.span());
                    let mut ad = AttrDrop { edits: vec![] };
                    ad.visit_item(item);
                    if !attr.is_empty() {
                        out.push_str(attr);
                        out.push('\n');
                    }
                    let mut body = render(&sf.text, &ad.edits, r.0, r.1, None);
                    for (a, b) in &subs {
                        body = body.replace(a.as_str(), b);
                    }
                    out.push_str(&body);
                    out.push('\n');
                    items.push(json!({"file": sf.rel, "name": name, "range": [r.0, r.1], "substs": subs}));
                    done = true;
                    break;
                }
            }
            if !done {
                problems.push(json!({"lost": name, "file": file}));
            }
        } else if let Some(rest) = l.strip_prefix("//@fn ") {
            let mut it = rest.split_whitespace();
            let mut d = FnDir { file: it.next().unwrap().into(), path: it.next().unwrap().into(), opts: it.map(|s| s.to_string()).collect(), ..Default::default() };
            let mut cur: Option<String> = Some("spec".into());
            i += 1;
            while i < lines.len() {
                let raw = lines[i];
                let t = raw.trim();
                if t == "//@end" {
                    break;
                }
                if let Some(x) = t.strip_prefix("//@ret ") {
                    d.ret = Some(x.trim().into());
                } else if t == "//@spec" {
                    cur = Some("spec".into());
                } else if let Some(x) = t.strip_prefix("//@subst ") {
                    let (a, b) = x.split_once("==>").unwrap();
                    d.substs.push((a.trim().into(), b.trim().into()));
                } else if let Some(x) = t.strip_prefix("//@") {
                    cur = Some(x.trim().to_string());
                    d.inserts.push((x.trim().to_string(), String::new()));
                } else if cur.as_deref() == Some("spec") {
                    d.spec.push_str(raw);
                    d.spec.push('\n');
                } else if let Some(last) = d.inserts.last_mut() {
                    last.1.push_str(raw);
                    last.1.push('\n');
                }
                i += 1;
            }
            emit_fn(w, &d, out, funcs, problems, litfns);
        } else {
            out.push_str(lines[i]);
            out.push('\n');
        }
        i += 1;
    }
}

fn emit_fn(w: &mut World, d: &FnDir, out: &mut String, funcs: &mut Vec<Value>, problems: &mut Vec<Value>, litfns: &mut Vec<String>) {
    let (mut tr, mut ty, mut name) = parse_path(&d.path);
    let mut cands = vec![d.file.clone()];
    let ok = w.load(&d.file).is_ok() && {
        let mut v = vec![];
        find_fns(&w.files[&d.file].ast.items, tr.as_deref(), ty.as_deref(), &name, &mut v);
        v.len() == 1
    };
    if !ok {
        cands = w.all_rs();
        for c in &cands {
            let _ = w.load(c);
        }
        // only unique matches elsewhere in the same crate are accepted
        let root = d.file.split('/').next().unwrap_or("").to_string();
        cands.retain(|c| {
            c.starts_with(&root)
                && w.files.get(c).map_or(false, |sf| {
                    let mut v = vec![];
                    find_fns(&sf.ast.items, tr.as_deref(), ty.as_deref(), &name, &mut v);
                    v.len() == 1
                })
        });
        if cands.is_empty() {
            // the implementation does not override the method: the trait's default body is what runs
            if let Some((file, path)) = d.opts.iter().find_map(|o| o.strip_prefix("default=")).and_then(|x| x.split_once(':')) {
                (tr, ty, name) = parse_path(path);
                cands = vec![file.to_string()];
                let mut v = vec![];
                if let Some(sf) = w.files.get(file) {
                    find_fns(&sf.ast.items, tr.as_deref(), ty.as_deref(), &name, &mut v);
                }
                if v.len() != 1 {
                    cands.clear();
                }
            }
        }
        if cands.len() != 1 {
            problems.push(json!({"lost": d.path, "file": d.file}));
            return;
        }
    }
    let sf = &w.files[&cands[0]];
    let mut v = vec![];
    find_fns(&sf.ast.items, tr.as_deref(), ty.as_deref(), &name, &mut v);
    let f = &v[0];
    let mut cx = Ctx {
        text: &sf.text,
        edits: vec![],
        rules: HashMap::new(),
        loops: vec![],
        stmts: vec![],
        calls: vec![],
        closures: vec![],
        flags: d.opts.clone(),
        bindings: HashMap::new(),
        maps: vec![],
        litfns: vec![],
        prefix: d.path.replace("::", "_").replace('@', "_"),
    };
    let assumed = w.assumed && !d.opts.iter().any(|o| o == "trusted");
    let mut external = w.assumed || d.opts.iter().any(|o| o == "trusted");
    let forced = w.trust.iter().any(|t| *t == d.path);
    let mut degraded = forced && !external;
    external |= forced;
    let sigr = br(f.sig.span());
    let mut sig_edits: Vec<Edit> = vec![];
    for (n, a) in f.sig.inputs.iter().enumerate() {
        if let syn::FnArg::Typed(t) = a {
            if let syn::Pat::Wild(_) = &*t.pat {
                let r = br(t.pat.span());
                sig_edits.push(Edit { start: r.0, end: r.1, parts: vec![Part::Lit(format!("_vx_p{n}"))], seq: n + 1 });
            }
        }
    }
    // return naming
    if let Some(rn) = &d.ret {
        match &f.sig.output {
            syn::ReturnType::Type(_, t) => {
                let r = br(t.span());
                sig_edits.push(Edit { start: r.0, end: r.1, parts: vec![Part::Lit(format!("({rn}: ")), Part::Src(r.0, r.1), Part::Lit(")".into())], seq: 0 });
            }
            syn::ReturnType::Default => {}
        }
    }
    let vis = match f.vis {
        Some(syn::Visibility::Inherited) | None => String::new(),
        Some(v) => {
            let r = br(v.span());
            format!("{} ", &sf.text[r.0..r.1])
        }
    };
    let vis = if d.opts.iter().any(|o| o == "vis") { vis } else { String::new() };
    let mut head = format!("{vis}{}", render(&sf.text, &sig_edits, sigr.0, sigr.1, None));
    // the where clause stays inside the signature span
    if let Some(n) = d.opts.iter().find_map(|o| o.strip_prefix("name=")) {
        head = head.replacen(&format!("fn {name}"), &format!("fn {n}"), 1);
    }
    let mut body = String::new();
    if let Some(b) = f.block {
        let r = br(b.span());
        if external {
            body = "{ unimplemented!() }".into();
        } else {
            cx.visit_block(b);
            let loops = cx.loops.clone();
            let stmts = cx.stmts.clone();
            let calls = cx.calls.clone();
            let closures = cx.closures.clone();
            let mut marks: Vec<(String, String)> = vec![];
            for (pos, text) in &d.inserts {
                let ws: Vec<&str> = pos.split_whitespace().collect();
                let mut at: Option<usize> = None;
                if ws[0] == "closure" {
                    // a contract on the n-th closure; $0, $1 are its parameters
                    match closures.get(ws[1].parse::<usize>().unwrap()) {
                        Some((pe, b, block, ps)) => {
                            let mut t = text.trim_end().to_string();
                            for (k, q) in ps.iter().enumerate() {
                                t = t.replace(&format!("${k}"), q);
                            }
                            cx.edit(*pe, *pe, vec![Part::Lit(format!(" {t} "))], "annotation");
                            if !*block {
                                cx.edit(b.0, b.1, vec![Part::Lit("{ ".into()), Part::Src(b.0, b.1), Part::Lit(" }".into())], "closure-block");
                            }
                        }
                        None => {
                            degraded = true;
                            problems.push(json!({"misfit": d.path, "position": pos}))
                        }
                    }
                    continue;
                }
                if ["loop", "loopstart", "loopend"].contains(&ws[0]) && loops.get(ws[1].parse::<usize>().unwrap()).map_or(false, |l| l.1 == usize::MAX) {
                    marks.push((format!("/*@{} {}*/", ws[0], ws[1]), text.clone()));
                    continue;
                }
                match ws[0] {
                    "entry" => at = Some(r.0 + 1),
                    "exit" => at = Some(r.1 - 1),
                    "loop" | "loopstart" | "loopend" | "afterloop" | "beforeloop" => {
                        let n: usize = ws[1].parse().unwrap();
                        if let Some(lp) = loops.get(n) {
                            at = Some(match ws[0] {
                                "loop" => lp.1,
                                "loopstart" => lp.1 + 1,
                                "loopend" => lp.2 - 1,
                                "beforeloop" => stmts.iter().filter(|s| s.0 <= lp.0 && s.1 >= lp.3).max_by_key(|s| s.0).map(|s| s.0).unwrap_or(lp.0),
                                _ => stmts.iter().filter(|s| s.0 <= lp.0 && s.1 >= lp.3).max_by_key(|s| s.0).map(|s| s.1).unwrap_or(lp.3),
                            });
                        }
                    }
                    "before" | "after" => {
                        let n: usize = ws.get(2).map_or(0, |x| x.parse().unwrap());
                        if let Some(c) = calls.iter().filter(|c| c.0 == ws[1]).nth(n) {
                            if let Some(s) = stmts.iter().filter(|s| s.0 <= c.1 && s.1 > c.1).max_by_key(|s| (s.0, std::cmp::Reverse(s.1))) {
                                at = Some(if ws[0] == "before" { s.0 } else { s.1 });
                            }
                        }
                    }
                    other => panic!("unknown directive //@{other} in {}", d.path),
                }
                match at {
                    Some(p) => cx.edit(p, p, vec![Part::Lit(format!("\n{text}"))], "annotation"),
                    None => {
                        // an optional hint ("?") that finds no anchor is left out silently
                        if !pos.ends_with('?') {
                            degraded = true;
                            problems.push(json!({"misfit": d.path, "position": pos}))
                        }
                    }
                }
            }
            if let Some(n) = d.opts.iter().find_map(|o| o.strip_prefix("loops=")) {
                let n: usize = n.parse().unwrap();
                if n != loops.len() {
                    degraded = true;
                    problems.push(json!({"misfit": d.path, "position": format!("expected {n} loops, found {}", loops.len())}));
                }
            }
            if std::env::var("VX_CANARY").is_ok() {
                // vacuity probe: this must not be provable
                cx.edit(r.0 + 1, r.0 + 1, vec![Part::Lit("\nproof { assert(false); }\n".into())], "annotation");
            }
            body = render(&sf.text, &cx.edits, r.0, r.1, None);
            for (m, text) in &marks {
                body = body.replace(m.as_str(), &format!("\n{text}"));
            }
            if degraded {
                body = "{ unimplemented!() }".into();
                external = true;
                cx.litfns.clear();
            }
        }
    } else {
        body.push(';');
    }
    let mut subst_done = vec![];
    for (a, b) in &d.substs {
        let n = body.matches(a.as_str()).count() + head.matches(a.as_str()).count();
        body = body.replace(a.as_str(), b);
        head = head.replace(a.as_str(), b);
        subst_done.push(json!({"from": a, "to": b, "count": n}));
    }
    litfns.extend(cx.litfns.iter().cloned());
    let attrs: Vec<String> = d
        .opts
        .iter()
        .filter_map(|o| o.strip_prefix("attr="))
        .map(|s| format!("#[verifier::{s}]\n"))
        .collect();
    let mut full = String::new();
    for a in attrs {
        full.push_str(&a);
    }
    if external {
        full.push_str("#[verifier::external_body]\n");
    }
    full.push_str(&head);
    full.push('\n');
    full.push_str(&d.spec);
    full.push_str(&body);
    full.push('\n');
    let start_line = out.matches('\n').count() + 1;
    out.push_str(&full);
    let end_line = out.matches('\n').count();
    let line = sf.text[..f.start].matches('\n').count() + 1;
    let props: Vec<&str> = d.opts.iter().find_map(|o| o.strip_prefix("props=")).map(|s| s.split(',').collect()).unwrap_or_default();
    funcs.push(json!({
        "path": d.path, "file": sf.rel, "line": line, "range": [f.whole.0, f.whole.1],
        "out_lines": [start_line, end_line], "trusted": external, "assumed": assumed, "degraded": degraded, "props": props,
        "rules": cx.rules, "substs": subst_done, "loops": cx.loops.len(), "has_body": f.block.is_some(),
    }));
    let _ = cx.text;
}

/// Every string literal of the generated file gets a numeric code, proved by Verus from the literal's
/// characters; different codes give the solver distinctness of the literals.
fn gen_lits(out: &str) -> String {
    fn walk(ts: proc_macro2::TokenStream, set: &mut std::collections::BTreeSet<String>) {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Group(g) => walk(g.stream(), set),
                proc_macro2::TokenTree::Literal(l) => {
                    let s = l.to_string();
                    if s.starts_with('"') {
                        if let Ok(syn::Lit::Str(s)) = syn::parse_str::<syn::Lit>(&s) {
                            set.insert(s.value());
                        }
                    }
                }
                _ => {}
            }
        }
    }
    let mut set = std::collections::BTreeSet::new();
    if let Ok(ts) = out.parse::<proc_macro2::TokenStream>() {
        walk(ts, &mut set);
    }
    let lits: Vec<String> = set.into_iter().filter(|s| s.len() <= 48 && s.is_ascii()).collect();
    let n = lits.iter().map(|s| s.len()).max().unwrap_or(0);
    let mut salt: u64 = 31;
    loop {
        let mult: Vec<u64> = (0..n as u64).map(|i| (i * i * 7919 + 104729 * i + salt) % 1000003).collect();
        let code = |s: &str| s.len() as u64 + s.bytes().enumerate().map(|(i, c)| mult[i] * c as u64).sum::<u64>();
        let mut seen = std::collections::BTreeSet::new();
        if !lits.iter().all(|l| seen.insert(code(l))) {
            salt += 17;
            continue;
        }
        let mut s = String::from("#[verifier::opaque]\npub open spec fn vx_code(s: Seq<char>) -> int { s.len()");
        for i in 0..n {
            s.push_str(&format!(" + (if s.len() > {i} {{ {} * (s[{i}] as int) }} else {{ 0int }})", mult[i]));
        }
        s.push_str(" }\n");
        let ok = |l: &str| !l.contains('/') && !l.contains('~');
        let mut ens = String::new();
        let mut calls = String::new();
        for (k, l) in lits.iter().enumerate() {
            let q = rust_str(l);
            let num = !l.is_empty() && l.bytes().all(|c| c.is_ascii_digit()) || l.is_empty();
            let mut f = format!("vx_code({q}@) == {}, {q}@.len() == {},", code(l), l.len());
            let mut pf = String::new();
            if ok(l) {
                f.push_str(&format!(" plain({q}@),"));
            }
            if !num {
                let p = l.bytes().position(|c| !c.is_ascii_digit()).unwrap();
                f.push_str(&format!(" !numeric({q}@),"));
                pf = format!("assert(!('0' <= {q}@[{p}] <= '9'));");
            }
            s.push_str(&format!("proof fn vx_lit_{k}() ensures {f} {{ reveal(vx_code); reveal(plain); reveal(numeric); reveal_strlit({q}); {pf} }}\n"));
            ens.push_str(&f);
            ens.push(' ');
            calls.push_str(&format!("vx_lit_{k}(); "));
        }
        s.push_str(&format!("pub proof fn lits() ensures {ens} true {{ {calls} }}\n"));
        return s;
    }
}
