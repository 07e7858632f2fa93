//! The command line program, run on generated syntax trees in scratch directories: which files it writes, what is in
//! them, which settings it used (compare verus/gen_mut.vrs, gen_all.vrs, gen_fns.vrs).
use crate::conf::scratch;
use crate::spec::*;
use crate::util::*;
use rand::{RngCore, SeedableRng};
use rand_pcg::Pcg64;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

const PROPS: &[&str] = &["C01", "C03", "C11", "C12", "C13", "C17", "C18", "C19", "C20"];
const ALGS: &[&str] = &["ArithmeticBinaryOp", "LogicalBinaryOp", "BitwiseBinaryOp", "ComparisonBinaryOp"];

#[derive(Clone, Debug)]
struct Src { lang: Lang, name: String, fns: Vec<(String, Vec<&'static str>)>, source: bool }

fn vyname(o: &str) -> &'static str {
    VYOPS.iter().find(|(_, b)| *b == o).unwrap().0
}
fn word(l: Lang, o: &'static str) -> &'static str {
    match (l, o) { (Lang::Vy, "&&") => "and", (Lang::Vy, "||") => "or", _ => o }
}
fn tree_of(f: &Src) -> Value {
    let id = std::cell::Cell::new(0u64);
    let nid = || { id.set(id.get() + 1); id.get() };
    match f.lang {
        Lang::Sol => {
            let td = json!({"typeIdentifier": "t_uint256", "typeString": "uint256"});
            let ident = |n: &str| json!({"id": nid(), "nodeType": "Identifier", "name": n, "typeDescriptions": td, "src": "0:0:0", "overloadedDeclarations": []});
            let st = |o: &str| {
                let e = json!({"id": nid(), "nodeType": "BinaryOperation", "operator": o, "leftExpression": ident("b"), "rightExpression": ident("c"), "typeDescriptions": td, "src": "0:0:0"});
                json!({"id": nid(), "nodeType": "ExpressionStatement", "src": "0:0:0", "expression": {"id": nid(), "nodeType": "Assignment", "operator": "=", "leftHandSide": ident("a"), "rightHandSide": e, "typeDescriptions": td, "src": "0:0:0"}})
            };
            let pl = || json!({"id": nid(), "nodeType": "ParameterList", "parameters": []});
            let fns: Vec<Value> = f.fns.iter().map(|(n, ops)| {
                let b: Vec<Value> = ops.iter().map(|o| st(o)).collect();
                json!({"id": nid(), "nodeType": "FunctionDefinition", "name": n, "kind": "function", "implemented": true, "visibility": "public", "stateMutability": "nonpayable", "virtual": false, "modifiers": [],
                    "parameters": pl(), "returnParameters": pl(), "body": {"id": nid(), "nodeType": "Block", "statements": b, "src": "0:0:0"}, "src": "0:0:0"})
            }).collect();
            let mut nodes: Vec<Value> = ["a", "b", "c"].iter().map(|n| json!({"id": nid(), "nodeType": "VariableDeclaration", "name": n, "constant": false, "stateVariable": true, "mutability": "mutable", "storageLocation": "default",
                "visibility": "internal", "typeDescriptions": td, "typeName": {"id": nid(), "nodeType": "ElementaryTypeName", "name": "uint256", "typeDescriptions": td}, "src": "0:0:0"})).collect();
            nodes.extend(fns);
            json!({"absolutePath": "x.sol", "exportedSymbols": {}, "id": nid(), "nodeType": "SourceUnit", "src": "0:0:0", "license": "MIT", "nodes": [
                {"id": nid(), "nodeType": "PragmaDirective", "literals": ["solidity", "^", "0.8", ".13"], "src": "0:0:0"},
                {"id": nid(), "nodeType": "ContractDefinition", "name": "C", "contractKind": "contract", "abstract": false, "baseContracts": [], "nodes": nodes, "src": "0:0:0", "fullyImplemented": true, "linearizedBaseContracts": [1]}]})
        }
        Lang::Vy => {
            let n = |t: &str, extra: Value| {
                let mut m = json!({"node_id": nid(), "ast_type": t, "lineno": 1, "col_offset": 0, "end_lineno": 1, "end_col_offset": 0, "src": "0:0:0"});
                for (k, v) in extra.as_object().unwrap() { m.as_object_mut().unwrap().insert(k.clone(), v.clone()); }
                m
            };
            let nm = |x: &str| n("Name", json!({"id": x}));
            let sf = |x: &str| n("Attribute", json!({"attr": x, "value": nm("self")}));
            let st = |o: &str| {
                let op = n(vyname(o), json!({}));
                let e = if LOGIC.contains(&o) { n("BoolOp", json!({"op": op, "values": [sf("b"), sf("c")]})) } else if CMP.contains(&o) { n("Compare", json!({"op": op, "left": sf("b"), "right": sf("c")})) } else { n("BinOp", json!({"op": op, "left": sf("b"), "right": sf("c")})) };
                n("Assign", json!({"target": sf("a"), "value": e}))
            };
            let mut body: Vec<Value> = ["a", "b", "c"].iter().map(|x| n("VariableDecl", json!({"target": nm(x), "annotation": nm("uint256"), "value": null, "is_constant": false, "is_public": false, "is_immutable": false}))).collect();
            for (name, ops) in &f.fns {
                let b: Vec<Value> = ops.iter().map(|o| st(o)).collect();
                body.push(n("FunctionDef", json!({"name": name, "args": n("arguments", json!({"args": [], "defaults": [], "default": null})), "body": b, "decorator_list": [nm("external")], "returns": null, "doc_string": null, "pos": null})));
            }
            json!({"contract_name": "x.vy", "ast": n("Module", json!({"name": "x.vy", "doc_string": null, "body": body}))})
        }
    }
}
fn lines(t: &str) -> Vec<String> {
    t.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect()
}
fn ext(l: Lang) -> &'static str {
    match l { Lang::Sol => ".sol", Lang::Vy => ".vy" }
}
fn with_ext(l: Lang, n: &str) -> String {
    if n.ends_with(ext(l)) { n.to_string() } else { format!("{}{}", n, ext(l)) }
}
fn base(p: &str) -> String {
    Path::new(p).file_name().unwrap().to_str().unwrap().to_string()
}
fn snapshot(d: &Path) -> BTreeMap<String, Vec<u8>> {
    fn go(d: &Path, p: &str, m: &mut BTreeMap<String, Vec<u8>>) {
        for e in std::fs::read_dir(d).unwrap() {
            let e = e.unwrap();
            let n = format!("{}{}", p, e.file_name().to_str().unwrap());
            if p.is_empty() && (n == "tmp" || n == "bin") { continue; }
            if e.path().is_dir() { go(&e.path(), &format!("{}/", n), m) } else { m.insert(n, std::fs::read(e.path()).unwrap()); }
        }
    }
    let mut m = BTreeMap::new();
    go(d, "", &mut m);
    m
}
fn file(r: &mut Pcg64, k: usize) -> Src {
    let lang = if coin(r, 0.5) { Lang::Sol } else { Lang::Vy };
    let source = coin(r, 0.35);
    let stem = format!("{}{}", pick(r, &["f", "my file", "a.b", "x_1", "tok.sol", "v.vy", ".hid", "UP"]), k);
    let name = format!("{}in/{}{}{}", pick(r, &["", "", "./"]), pick(r, &["", "sub/", ".dot/"]), stem, if source { ext(lang) } else { *pick(r, &[".json", ".ast", "", ".sol.json", ".vy.json", ".SOL", ".Vy", ".sol ", ".vy.", "-sol", "vy"]) });
    // often only operators of one small family, so that the same mutation is drawn again and again
    let ops: Vec<&'static str> = match below(r, 5) { 0 | 1 => LOGIC.to_vec(), 2 => BITW.to_vec(), _ => [ARITH, LOGIC, BITW, CMP].concat() };
    let fns = pick(r, &[vec!["alpha", "beta"], vec!["alpha"], vec!["beta", "alpha", "alphabet"], vec!["alph", "alpha"]]).iter()
        .map(|n| (n.to_string(), (0..below(r, 4)).map(|_| *pick(r, &ops)).collect())).collect();
    Src { lang, name, fns, source }
}
#[derive(Clone, Debug, Default)]
struct Want { number: usize, seed: u64, algs: Vec<String>, all: bool, functions: Vec<String>, validate: bool, original: bool, out: String, stdout: bool, save: bool, compiler: Option<Value>, conf: bool }

fn allowed(w: &Want, f: &str) -> bool {
    w.functions.is_empty() || w.functions.iter().any(|x| x == f)
}
fn cands(f: &Src, w: &Want, alg: &str) -> usize {
    let fam = family(alg).unwrap();
    f.fns.iter().filter(|(n, _)| allowed(w, n)).map(|(_, ops)| ops.iter().filter(|o| fam.contains(o)).count()).sum()
}
/// The stand-in compiler (this program under another name): records its arguments, accepts source files and mutants
/// except those with the denied text, and makes the syntax tree that is kept for a source file.
pub fn standin(dir: &str) -> i32 {
    use std::io::Write;
    let dir = Path::new(dir);
    let a: Vec<String> = std::env::args().collect();
    let mut t = String::new();
    t.push_str(&base_or(&a[0]));
    for x in &a[1..] { t.push('\0'); t.push_str(x); }
    t.push_str("\0\u{1}\0");
    std::fs::OpenOptions::new().append(true).open(dir.join("log")).unwrap().write_all(t.as_bytes()).unwrap();
    if a.get(1).map(|x| x.as_str()) == Some("--version") { println!("0.3.7+commit.6020b8b"); return 0; }
    let after = |f: &str| a.iter().position(|x| x == f).and_then(|i| a.get(i + 1)).cloned();
    let sol = a[0].contains("solc");
    let Some(src) = a[1..].iter().rev().find(|x| Path::new(x).is_file()) else { return 1 };
    let Ok(text) = std::fs::read_to_string(src) else { return 1 };
    let mine = text.starts_with("SOURCE-TEXT") && src.ends_with(if sol { ".sol" } else { ".vy" }) || text.lines().any(|l| l.trim().starts_with(if sol { "//" } else { "#" }) && l.contains("Mutator:"));
    if !mine { return 1; }
    let deny = std::fs::read_to_string(dir.join("deny")).unwrap();
    if !deny.is_empty() && text.lines().map(|l| l.trim()).filter(|l| !l.starts_with("//") && !l.starts_with('#') && !l.contains("SOURCE-TEXT")).any(|l| l.contains(&deny)) { return 1; }
    let tree = || std::fs::read(dir.join(format!("{}.tree", base_or(src)))).unwrap();
    if a.iter().any(|x| x == "--ast-compact-json") {
        std::fs::write(format!("{}/{}_json.ast", after("-o").unwrap(), base_or(src)), tree()).unwrap();
    } else if after("-f").as_deref() == Some("ast") {
        match after("-o") { Some(o) => std::fs::write(o, tree()).unwrap(), None => std::io::stdout().write_all(&tree()).unwrap() }
    }
    0
}
/// What the cases of one thread found.
#[derive(Default)]
struct Out { cases: Vec<(&'static str, Value)>, fails: Vec<(String, &'static str, String, Value)> }
impl Out {
    fn case(&mut self, kind: &'static str, input: &Value) { self.cases.push((kind, input.clone())); }
    fn fail(&mut self, p: &str, check: &'static str, why: &str, input: Value) { self.fails.push((p.into(), check, why.into(), input)); }
}
struct Bed { dir: PathBuf, cli: String }
impl Bed {
    fn new(k: usize) -> Bed {
        let dir = scratch().join(format!("cli{}", k));
        let _ = std::fs::remove_dir_all(&dir);
        for d in ["in/sub", "in/.dot", "tmp", "bin"] { std::fs::create_dir_all(dir.join(d)).unwrap(); }
        for p in ["solc", "vyper", "docker", "other-solc", "other-vyper", "my-solc", "my-vyper"] {
            let f = dir.join("bin").join(p);
            std::os::unix::fs::symlink(std::env::current_exe().unwrap(), &f).unwrap();
        }
        for (n, t) in [("log", ""), ("deny", "")] { std::fs::write(dir.join("bin").join(n), t).unwrap(); }
        Bed { dir, cli: std::env::var("VERIF_CLI").unwrap() }
    }
    fn put(&self, f: &Src) {
        let p = self.dir.join(&f.name);
        let t = tree_of(f).to_string();
        if f.source {
            // the stand-in compiler gives the tree that lies beside a source file
            std::fs::write(p, format!("SOURCE-TEXT {}", f.name)).unwrap();
            let n = self.dir.join("bin").join(format!("{}.tree", base(&f.name)));
            std::fs::write(n, t).unwrap();
        } else {
            std::fs::write(p, t).unwrap();
        }
    }
    fn run(&self, args: &[String]) -> (String, bool) {
        use std::io::Read;
        let mut c = std::process::Command::new(&self.cli).args(args).current_dir(&self.dir).env("VERIF_STANDIN", self.dir.join("bin")).env("TMPDIR", self.dir.join("tmp"))
            .env("PATH", format!("{}:/usr/bin:/bin", self.dir.join("bin").to_str().unwrap())).stdin(std::process::Stdio::null()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().unwrap();
        let mut o = c.stdout.take().unwrap();
        let rd = std::thread::spawn(move || { let mut b = vec![]; let _ = o.read_to_end(&mut b); b });
        let t0 = std::time::Instant::now();
        let st = loop {
            if let Some(s) = c.try_wait().unwrap() { break Some(s); }
            if t0.elapsed().as_secs() > 60 { let _ = c.kill(); let _ = c.wait(); break None; }
            std::thread::sleep(std::time::Duration::from_millis(2));
        };
        match st {
            Some(s) => (String::from_utf8_lossy(&rd.join().unwrap()).to_string(), s.success()),
            None => ("no result after 60 s".into(), false),
        }
    }
    fn log(&self) -> Vec<Vec<String>> {
        let t = String::from_utf8(std::fs::read(self.dir.join("bin/log")).unwrap()).unwrap();
        t.split("\u{1}\0").filter(|s| !s.is_empty()).map(|s| s.trim_end_matches('\0').split('\0').map(String::from).collect()).collect()
    }
}
impl Drop for Bed {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
/// Is `m` the text `o` with one operator exchanged within a requested family, inside an allowed function, and one comment
/// line directly before the changed line? Gives the property that is broken.
fn one_change(f: &Src, w: &Want, o: &[String], m: &[String]) -> Result<(), (&'static str, String)> {
    let mark = |l: &String| l.contains("Mutator:");
    let at: Vec<usize> = (0..m.len()).filter(|i| mark(&m[*i])).collect();
    if at.len() != 1 { return Err(("C17", format!("{} mutation comments", at.len()))); }
    let lead = match f.lang { Lang::Sol => "//", Lang::Vy => "#" };
    if !m[at[0]].starts_with(lead) { return Err(("C17", format!("the comment is {:?}", m[at[0]]))); }
    let mut t = m.to_vec();
    t.remove(at[0]);
    if t.len() != o.len() { return Err(("C03", format!("{} lines instead of {}", t.len(), o.len()))); }
    let diff: Vec<usize> = (0..t.len()).filter(|i| t[*i] != o[*i]).collect();
    if diff.len() != 1 { return Err(("C03", format!("{} lines changed", diff.len()))); }
    let i = diff[0];
    if i != at[0] { return Err(("C17", format!("the comment stands before line {}, the change is in line {}", at[0], i))); }
    let a: Vec<&str> = o[i].split_whitespace().collect();
    let b: Vec<&str> = t[i].split_whitespace().collect();
    let d: Vec<usize> = if a.len() == b.len() { (0..a.len()).filter(|k| a[*k] != b[*k]).collect() } else { vec![] };
    if d.len() != 1 { return Err(("C03", format!("{:?} became {:?}", o[i], t[i]))); }
    let (x, y) = (a[d[0]], b[d[0]]);
    let alg = w.algs.iter().find(|g| family(g).map_or(false, |fam| { let ws: Vec<&str> = fam.iter().map(|q| word(f.lang, q)).collect(); ws.contains(&x) && ws.contains(&y) }));
    let Some(alg) = alg else { return Err(("C11", format!("{:?} became {:?}: no requested algorithm does that", x, y))) };
    if !m[at[0]].contains(alg.as_str()) { return Err(("C17", format!("the comment {:?} does not name {}", m[at[0]], alg))); }
    let head = o[..i].iter().rev().find_map(|l| l.strip_prefix("function ").or(l.strip_prefix("def ")).and_then(|q| q.split('(').next()).map(|q| q.trim().to_string()));
    match head {
        Some(h) if allowed(w, &h) => Ok(()),
        h => Err(("C01", format!("changed in {:?}, allowed are {:?}", h, w.functions))),
    }
}
fn settings(r: &mut Pcg64) -> Want {
    let all = coin(r, 0.1);
    let mut algs: Vec<String> = ALGS.iter().filter(|_| coin(r, 0.5)).map(|s| s.to_string()).collect();
    if coin(r, 0.3) { algs = vec!["LogicalBinaryOp".into()]; }
    if algs.is_empty() { algs.push(ALGS[0].to_string()); }
    let functions = match below(r, 7) { 0 => vec!["alpha"], 1 => vec!["beta", "alpha"], 2 => vec!["nosuch", "alph"], 3 => vec!["beta", pick(r, &[" alpha", "alpha ", "ALPHA", "Alpha", "", "alpha()", "lph"])], _ => vec![] }.into_iter().map(String::from).collect();
    Want { number: *pick(r, &[0, 1, 2, 3, 5, 9, 256, 65536, 1 << 32]), seed: *pick(r, &[0, 1, 7, 12345, 4294967297, i64::MAX as u64]), algs, all, functions, validate: coin(r, 0.3), original: coin(r, 0.4), out: "out".into(), stdout: false, save: false, compiler: None, conf: false }
}
fn cl_args(w: &Want) -> Vec<String> {
    let mut a: Vec<String> = vec![];
    let mut p = |s: &str| a.push(s.to_string());
    p("--num-mutants"); p(&w.number.to_string());
    p("--rng-seed"); p(&w.seed.to_string());
    for x in &w.algs { p("--mutation"); p(x); }
    if w.all { p("--all-mutations"); }
    for x in &w.functions { p("--function"); p(x); }
    if w.validate { p("--validate-mutants"); }
    if w.original { p("--print-original"); }
    if w.stdout { p("--stdout"); }
    if w.save { p("--save-config-files"); }
    p("-o"); p(&w.out);
    a
}
/// compiler settings given on the command line: the arguments and, per language, what the compiler has to be run with
struct Flags { args: Vec<String>, sol: (String, Vec<Vec<String>>), vy: (String, Vec<Vec<String>>) }
fn flags(r: &mut Pcg64, bed: &Bed) -> Flags {
    let mut f = Flags { args: vec![], sol: ("solc".into(), vec![]), vy: ("vyper".into(), vec![]) };
    if coin(r, 0.4) { return f; }
    let st = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<String>>();
    let bin = |n: &str| bed.dir.join("bin").join(n).to_str().unwrap().to_string();
    if coin(r, 0.5) { f.args.extend(st(&["--solidity-compiler", &bin("my-solc")])); f.sol.0 = "my-solc".into(); }
    if coin(r, 0.5) { f.args.extend(st(&["--vyper-compiler", &bin("my-vyper")])); f.vy.0 = "my-vyper".into(); }
    if coin(r, 0.5) { let b = *pick(r, &["my root", "root/", "/a/../b", " r ", "./R"]); f.args.extend(st(&["--vyper-root-path", b])); f.vy.1.push(st(&["-p", b])); }
    if coin(r, 0.6) {
        let b = *pick(r, &["my base", "base/", "/a/../b", " b ", "./B"]);
        f.args.extend(st(&["--solidity-base-path", b]));
        f.sol.1.push(st(&["--base-path", b]));
        for i in 0..below(r, 3) { let x = format!("{}lib {}{}", pick(r, &["", " ", "./"]), i, pick(r, &["", "/", " "])); f.args.extend(st(&["--solidity-include-path", &x])); f.sol.1.push(st(&["--include-path", &x])); }
    }
    let allow: Vec<String> = (0..below(r, 3)).map(|i| format!("{}allow{}{}", pick(r, &["", "/", "./", " "]), i, pick(r, &["", "/", "//", "/."]))).collect();
    for x in &allow { f.args.extend(st(&["--solidity-allow-paths", x])); }
    if !allow.is_empty() { f.sol.1.push(st(&["--allow-paths", &allow.join(",")])); }
    for i in 0..below(r, 3) { let x = format!("{}@m{}=over there/{}{}", pick(r, &["", " ", "c:"]), i, i, pick(r, &["", "/", " "])); f.args.extend(st(&["--solidity-remapping", &x])); f.sol.1.push(vec![x]); }
    if coin(r, 0.2) { f.args.extend(st(&["--solidity-stop-after", "parsing"])); f.sol.1.push(st(&["--stop-after", "parsing"])); }
    f
}
/// was the compiler run for the file, and each time with all of the settings?
fn obeyed(log: &[Vec<String>], name: &str, want: &(String, Vec<Vec<String>>)) -> Option<String> {
    let on: Vec<&Vec<String>> = log.iter().filter(|l| l[1..].iter().any(|a| base_or(a).starts_with(&base(name)))).filter(|l| l[0] == want.0).collect();
    if on.is_empty() { return Some(format!("{} was never run for {}", want.0, name)); }
    for l in on {
        for g in &want.1 {
            if !l.windows(g.len()).any(|x| x == &g[..]) { return Some(format!("{} was run for {} without {:?}: {:?}", want.0, name, g, l)); }
        }
    }
    None
}
/// the effective algorithms
fn eff(mut w: Want) -> Want {
    if w.all { w.algs = GENERIC.iter().chain(SOLONLY).map(|s| s.to_string()).collect(); }
    w
}
fn mutate(cx: &mut Out, seed: u64, k: usize) {
    let mut r = Pcg64::seed_from_u64(seed);
    let bed = Bed::new(k);
    let mut cl = settings(&mut r);
    cl.out = pick(&mut r, &["out", "deep/er/out", "o ut"]).to_string();
    cl.stdout = coin(&mut r, 0.25);
    cl.save = coin(&mut r, 0.4);
    let deny = if cl.validate || coin(&mut r, 0.5) { pick(&mut r, &["-", "*", "|", "=="]).to_string() } else { String::new() };
    // the runs: file, settings
    let mut runs: Vec<(Src, Want)> = vec![];
    let mut files: Vec<String> = vec![];
    let mut cfgs: Vec<(String, Value)> = vec![];
    let mut id = 0;
    for g in 0..1 + below(&mut r, 3) as usize {
        let want_file = |r: &mut Pcg64, id: &mut usize, w: &Want, lang: Option<Lang>| {
            for _ in 0..60 {
                let f = file(r, *id);
                if lang.map_or(false, |l| l != f.lang) { continue; }
                let n: usize = ALGS.iter().filter(|a| w.algs.iter().any(|x| x == *a)).map(|a| cands(&f, w, a)).sum();
                if n > 0 { *id += 1; return Some(f); }
            }
            None
        };
        if coin(&mut r, 0.35) {
            // a configuration file: what it leaves out comes from the command line
            let mut w = cl.clone();
            let lang = if coin(&mut r, 0.5) { Lang::Sol } else { Lang::Vy };
            let mut j = json!({"language": match lang { Lang::Sol => "Solidity", Lang::Vy => "Vyper" }});
            let m = j.as_object_mut().unwrap();
            let c = settings(&mut r);
            w.conf = true; w.number = 5; w.validate = false; w.original = false;
            if coin(&mut r, 0.6) { w.number = c.number; m.insert("num-mutants".into(), json!(c.number)); }
            if coin(&mut r, 0.6) { w.seed = if coin(&mut r, 0.25) { c.seed | 1 << 63 } else { c.seed }; m.insert("seed".into(), json!(w.seed)); }
            if coin(&mut r, 0.5) { w.algs = c.algs.clone(); w.all = false; m.insert("mutations".into(), json!(c.algs)); }
            if coin(&mut r, 0.15) { w.all = true; m.insert("all-mutations".into(), json!(true)); }
            if coin(&mut r, 0.4) { if !c.functions.is_empty() { w.functions = c.functions.clone(); } m.insert("functions".into(), json!(c.functions)); }
            if coin(&mut r, 0.5) { w.validate = c.validate; m.insert("validate-mutants".into(), json!(c.validate)); }
            if coin(&mut r, 0.5) { w.original = c.original; m.insert("print-original".into(), json!(c.original)); }
            match below(&mut r, 4) { 0 => { w.stdout = true; m.insert("output-directory".into(), json!("stdout")); } 1 => { w.out = format!("cfg-out{}", g); m.insert("output-directory".into(), json!(w.out)); } _ => {} }
            if coin(&mut r, 0.3) {
                let d = match lang { Lang::Sol => json!({"path": bed.dir.join("bin/other-solc").to_str().unwrap(), "base-path": format!("base{}", g)}), Lang::Vy => json!({"path": bed.dir.join("bin/other-vyper").to_str().unwrap(), "root-path": format!("root{}", g)}) };
                m.insert("compiler-details".into(), d.clone());
                w.compiler = Some(d);
            }
            let w = eff(w);
            let mut names = vec![];
            // a file listed before, again with these settings
            if w.out.starts_with("cfg-out") && !w.stdout {
                let again = runs.last().map(|(f, _)| f.clone());
                if let Some(f) = again { if f.lang == lang && ALGS.iter().filter(|a| w.algs.iter().any(|x| x == *a)).map(|a| cands(&f, &w, a)).sum::<usize>() > 0 { names.push(f.name.clone()); runs.push((f, w.clone())); } }
            }
            for _ in 0..1 + below(&mut r, 2) {
                if let Some(f) = want_file(&mut r, &mut id, &w, Some(lang)) { names.push(f.name.clone()); runs.push((f, w.clone())); }
            }
            j.as_object_mut().unwrap().insert("filenames".into(), json!(names));
            let n = format!("in/run{}.mgnx", g);
            cfgs.push((n.clone(), j));
            files.push(n);
        } else {
            let w = eff(cl.clone());
            if let Some(f) = want_file(&mut r, &mut id, &w, None) { files.push(f.name.clone()); runs.push((f, w)); }
        }
    }
    if runs.is_empty() { return; }
    for (f, _) in &runs { bed.put(f); }
    for (n, j) in &cfgs { std::fs::write(bed.dir.join(n), j.to_string()).unwrap(); }
    if !deny.is_empty() { std::fs::write(bed.dir.join("bin/deny"), &deny).unwrap(); }
    let mut args: Vec<String> = vec!["mutate".into()];
    for f in &files { args.extend(["-f".to_string(), f.clone()]); }
    args.extend(cl_args(&cl));
    let fl = flags(&mut r, &bed);
    args.extend(fl.args.clone());
    let input = json!({"arguments": args, "files": runs.iter().map(|(f, w)| json!({"file": f.name, "language": format!("{:?}", f.lang), "source": f.source, "operators per function": f.fns, "settings": format!("{:?}", w)})).collect::<Vec<_>>(), "configuration files": cfgs, "the compiler rejects": deny});
    cx.case("mutate", &input);
    let before = snapshot(&bed.dir);
    let (out, ok) = bed.run(&args);
    let log = bed.log();
    let after = snapshot(&bed.dir);
    let mut bad = |p: &str, why: String| cx.fail(p, "mutate", &why, input.clone());
    if !ok || out.contains("Unable to generate") {
        for p in ["C20", "C11", "C19"] { bad(p, format!("the run failed: {}", out.lines().rev().take(3).collect::<Vec<_>>().join(" / "))); }
        return;
    }
    for (n, t) in &before {
        if after.get(n) != Some(t) { bad("C19", format!("the input file {} was changed", n)); }
    }
    // what may be written, and by which run
    let mut expected: BTreeSet<String> = BTreeSet::new();
    for (f, w) in &runs {
        if w.stdout { continue; }
        let b = base(&f.name);
        let total: usize = if w.all { usize::MAX } else { w.algs.iter().map(|a| cands(f, w, a)).sum() };
        let small = !w.all && w.algs.iter().all(|a| cands(f, w, a) <= 3);
        let most = w.number.min(total);
        let mut made = vec![];
        while let Some(t) = after.get(&format!("{}/{}", w.out, with_ext(f.lang, &format!("{}_{}", b, made.len())))) {
            expected.insert(format!("{}/{}", w.out, with_ext(f.lang, &format!("{}_{}", b, made.len()))));
            made.push(lines(std::str::from_utf8(t).unwrap()));
        }
        if made.len() > most { bad("C11", format!("{} mutants of {}, at most {} were to be made", made.len(), f.name, most)); if w.conf { for p in ["C12", "C20"] { bad(p, format!("{} mutants of {}, its configuration asks for {}", made.len(), f.name, most)); } } }
        if small && (!w.validate || deny.is_empty()) && made.len() < most {
            bad("C11", format!("{} mutants of {}, {} were to be made", made.len(), f.name, most));
            if w.conf { for p in ["C12", "C20"] { bad(p, format!("{} mutants of {}, its configuration asks for {}", made.len(), f.name, most)); } }
            if made.is_empty() { bad("C20", format!("no mutant of {}", f.name)); }
        }
        for i in 0..made.len() {
            for q in 0..i { if made[i] == made[q] && !w.all { bad("C11", format!("mutants {} and {} of {} are the same", q, i, f.name)); } }
        }
        let orig = format!("{}/{}", w.out, with_ext(f.lang, &b));
        if w.original {
            expected.insert(orig.clone());
            if !after.contains_key(&orig) { bad("C19", format!("{} was not written", orig)); }
        }
        // compare with the original as pretty-printed on its own
        let (o, _) = bed.run(&["pretty-print".into(), "--stdout".into(), "-f".into(), f.name.clone()]);
        let o: Vec<String> = lines(&o).into_iter().filter(|l| !l.starts_with("Elapsed time")).collect();
        if let (true, Some(t)) = (w.original, after.get(&orig)) {
            if lines(std::str::from_utf8(t).unwrap()) != o { bad("C19", format!("{} is not the original", orig)); }
        }
        for (i, m) in made.iter().enumerate() {
            if w.all {
                if m.iter().filter(|l| l.contains("Mutator:")).count() != 1 { bad("C17", format!("mutant {} of {} has not exactly one comment", i, f.name)); }
                if m == &o { bad("C11", format!("mutant {} of {} is the original", i, f.name)); }
            } else if let Err((p, why)) = one_change(f, w, &o, m) {
                bad(p, format!("mutant {} of {}: {}", i, f.name, why));
                if p != "C11" { bad("C11", format!("mutant {} of {}: {}", i, f.name, why)); }
            }
            if w.validate && !deny.is_empty() {
                let hit = m.iter().filter(|l| !l.starts_with("//") && !l.starts_with('#')).any(|l| l.contains(&deny));
                if hit { for p in ["C11", "C18"] { bad(p, format!("mutant {} of {} does not compile", i, f.name)); } }
            }
        }
        if cl.save {
            let n = format!("{}/{}.mgnx", w.out, match b.rfind('.') { Some(i) if i > 0 => &b[..i], _ => &b });
            expected.insert(n.clone());
            let j: Option<Value> = after.get(&n).and_then(|t| serde_json::from_slice(t).ok());
            match j {
                None => for p in ["C12", "C19"] { bad(p, format!("{} was not written", n)); },
                Some(j) => {
                    let tr = |v: &Value, k: &str| v.get(k).cloned().unwrap_or(Value::Null);
                    let sorted = |v: Value| { let mut a: Vec<String> = v.as_array().map(|a| a.iter().map(|x| x.to_string()).collect()).unwrap_or_default(); a.sort(); a };
                    let okc = s(&j, "language") == Some(match f.lang { Lang::Sol => "Solidity", Lang::Vy => "Vyper" }) && tr(&j, "filenames") == json!([f.name]) && tr(&j, "num-mutants") == json!(w.number) && tr(&j, "seed") == json!(w.seed)
                        && (sorted(tr(&j, "mutations")) == sorted(json!(w.algs)) || (w.all && tr(&j, "all-mutations") == json!(true)))
                        && sorted(tr(&j, "functions")) == sorted(json!(w.functions)) && tr(&j, "validate-mutants").as_bool().unwrap_or(false) == w.validate && tr(&j, "print-original").as_bool().unwrap_or(false) == w.original && s(&j, "output-directory") == Some(w.out.as_str());
                    if !okc { bad("C12", format!("saved settings of {}: {}", f.name, j)); }
                    if let Some(d) = &w.compiler { for (k, v) in d.as_object().unwrap() { if tr(&j, "compiler-details").get(k) != Some(v) { bad("C12", format!("saved compiler details of {}: {}", f.name, j)); } } }
                }
            }
        }
    }
    for n in after.keys() {
        if !before.contains_key(n) && !expected.contains(n) { bad("C19", format!("unexpected file {}", n)); bad("C11", format!("unexpected file {}", n)); }
    }
    // standard output
    let shown = out.lines().filter(|l| { let l = l.trim(); (l.starts_with("//") || l.starts_with('#')) && l.contains("Mutator:") }).count();
    let most: usize = runs.iter().filter(|(_, w)| w.stdout).map(|(f, w)| if w.all { 1000 } else { w.number.min(w.algs.iter().map(|a| cands(f, w, a)).sum()) }).sum();
    let exact = runs.iter().all(|(f, w)| !w.stdout || (!w.all && (!w.validate || deny.is_empty()) && w.algs.iter().all(|a| cands(f, w, a) <= 3)));
    if shown > most || (exact && shown != most) { bad("C11", format!("{} mutants shown, {} were to be made", shown, most)); }
    // the mutants that were shown, one after the other
    if let ([(f, w)], false) = (&runs[..], cl.save) {
        if w.stdout && !w.all {
            let (o, _) = bed.run(&["pretty-print".into(), "--stdout".into(), "-f".into(), f.name.clone()]);
            let keep = |t: &str| lines(t).into_iter().filter(|l| !l.starts_with("Elapsed time")).collect::<Vec<String>>();
            let (o, all) = (keep(&o), keep(&out));
            let mut made: Vec<Vec<String>> = vec![];
            for l in all {
                if Some(&l) == o.first() { made.push(vec![]); }
                if let Some(m) = made.last_mut() { m.push(l); }
            }
            made.retain(|m| m.iter().any(|l| l.contains("Mutator:")));
            for i in 0..made.len() {
                for q in 0..i { if made[i] == made[q] { bad("C11", format!("the shown mutants {} and {} of {} are the same", q, i, f.name)); } }
            }
        }
    }
    // compilers: each run uses its own settings
    for (f, w) in &runs {
        if !w.validate && !f.source { continue; }
        if w.number == 0 && !f.source { continue; }
        let Some(c) = &w.compiler else {
            let want = match f.lang { Lang::Sol => &fl.sol, Lang::Vy => &fl.vy };
            if let Some(why) = obeyed(&log, &f.name, want) { bad("C18", why); }
            continue;
        };
        let prog = base(s(c, "path").unwrap());
        let flag = match f.lang { Lang::Sol => ["--base-path", s(c, "base-path").unwrap()], Lang::Vy => ["-p", s(c, "root-path").unwrap()] };
        let used = log.iter().any(|l| l[0] == prog && l.windows(2).any(|x| x[0] == flag[0] && x[1] == flag[1]) && l.iter().any(|a| base_or(a) == base(&f.name) || base_or(a).starts_with(&base(&f.name))));
        if !used { bad("C18", format!("{} with {:?} was never run for {}", prog, flag, f.name)); bad("C12", format!("{} with {:?} was never run for {}", prog, flag, f.name)); }
    }
    // the same command again, elsewhere, gives the same files
    for (n, _) in after.iter().filter(|(n, _)| !before.contains_key(*n)) { std::fs::remove_file(bed.dir.join(n)).unwrap(); }
    let again = bed.run(&args);
    let snd = snapshot(&bed.dir);
    let strip = |o: &str| o.lines().filter(|l| !l.starts_with("Elapsed time")).map(String::from).collect::<Vec<_>>();
    if snd != after || strip(&again.0) != strip(&out) {
        let n = after.keys().chain(snd.keys()).find(|n| after.get(*n) != snd.get(*n));
        cx.fail("C13", "mutate twice", &format!("the second run differs: {:?}", n), input.clone());
    }
    // a saved configuration repeats the run
    for (f, w) in &runs {
        if !cl.save || w.stdout { continue; }
        let b = base(&f.name);
        let n = format!("{}/{}.mgnx", w.out, match b.rfind('.') { Some(i) if i > 0 => &b[..i], _ => &b });
        if !snd.contains_key(&n) { continue; }
        let mine = |x: &String| *x == format!("{}/{}", w.out, with_ext(f.lang, &b)) || x.starts_with(&format!("{}/{}_", w.out, b));
        for x in snd.keys().filter(|x| mine(x)) { std::fs::remove_file(bed.dir.join(x)).unwrap(); }
        let res = bed.run(&["mutate".into(), "-f".into(), n.clone(), "-o".into(), "elsewhere".into()]);
        let third = snapshot(&bed.dir);
        let pick = |m: &BTreeMap<String, Vec<u8>>| m.iter().filter(|(x, _)| mine(x)).map(|(x, t)| (x.clone(), t.clone())).collect::<BTreeMap<_, _>>();
        if pick(&third) != pick(&snd) {
            for p in ["C12", "C13"] { cx.fail(p, "repeat from the saved configuration", &format!("{} gave {:?} instead of {:?}: {}", n, pick(&third).keys(), pick(&snd).keys(), res.0), input.clone()); }
        }
    }
}
/// The only mutant of one algorithm never compiles: the other algorithm still makes its own.
fn given_up(cx: &mut Out, seed: u64, k: usize) {
    let bed = Bed::new(k);
    let lang = if k % 2 == 0 { Lang::Sol } else { Lang::Vy };
    let f = Src { lang, name: "in/f.json".into(), fns: vec![("alpha".into(), vec!["&&", "<"])], source: false };
    let deny = word(lang, "||");
    bed.put(&f);
    std::fs::write(bed.dir.join("bin/deny"), format!(" {} ", deny)).unwrap();
    let args: Vec<String> = ["mutate", "-f", "in/f.json", "--num-mutants", "2", "--rng-seed", &(seed % 1000).to_string(), "--mutation", "LogicalBinaryOp", "--mutation", "ComparisonBinaryOp", "--validate-mutants", "-o", "out"].iter().map(|x| x.to_string()).collect();
    let input = json!({"arguments": args, "language": format!("{:?}", lang), "operators": ["&&", "<"], "the compiler rejects": deny});
    cx.case("an algorithm gives up", &input);
    let (out, _) = bed.run(&args);
    let made = snapshot(&bed.dir).keys().filter(|n| n.starts_with("out/")).count();
    if made != 1 { cx.fail("C11", "mutate", &format!("{} mutants, 1 was to be made: {}", made, out), input); }
}
/// Many mutants of few kinds: the same one is drawn again long after it was made.
fn many(cx: &mut Out, seed: u64, k: usize) {
    let bed = Bed::new(k);
    let lang = if k % 2 == 0 { Lang::Sol } else { Lang::Vy };
    let f = Src { lang, name: "in/f.json".into(), fns: vec![("alpha".into(), vec!["&&"; 14]), ("beta".into(), vec!["||"; 10])], source: false };
    bed.put(&f);
    let args: Vec<String> = ["mutate", "-f", "in/f.json", "--num-mutants", "24", "--rng-seed", &(seed % 1000).to_string(), "--mutation", "LogicalBinaryOp", "-o", "out"].iter().map(|s| s.to_string()).collect();
    let input = json!({"arguments": args, "language": format!("{:?}", lang), "operators": f.fns});
    cx.case("many mutants", &input);
    let (out, _) = bed.run(&args);
    let s: Vec<Vec<u8>> = snapshot(&bed.dir).into_iter().filter(|(n, _)| n.starts_with("out/")).map(|x| x.1).collect();
    let mut d = s.clone();
    d.sort();
    d.dedup();
    if s.len() < 12 || d.len() != s.len() { cx.fail("C11", "mutate", &format!("{} mutants, {} different ones: {}", s.len(), d.len(), out.lines().last().unwrap_or("")), input); }
}
fn base_or(a: &str) -> String {
    Path::new(a).file_name().map(|x| x.to_str().unwrap().to_string()).unwrap_or_default()
}
fn pretty(cx: &mut Out, seed: u64, k: usize) {
    let mut r = Pcg64::seed_from_u64(seed);
    let bed = Bed::new(k);
    let stdout = coin(&mut r, 0.3);
    let n = 1 + below(&mut r, 5) as usize;
    let mut fs: Vec<(String, Option<Src>)> = vec![];
    for i in 0..n {
        if coin(&mut r, 0.35) {
            let name = format!("in/{}{}", pick(&mut r, &["bad", "broken.json", "x.sol", "y.vy"]), i);
            match below(&mut r, 3) { 0 => {} 1 => std::fs::write(bed.dir.join(&name), "{ no tree").unwrap(), _ => std::fs::write(bed.dir.join(&name), "{\"nodeType\": 5}").unwrap() }
            fs.push((name, None));
        } else {
            let f = file(&mut r, i);
            bed.put(&f);
            fs.push((f.name.clone(), Some(f)));
        }
    }
    let outd = pick(&mut r, &["out", "deep/er", "o ut"]).to_string();
    let mut args: Vec<String> = vec!["pretty-print".into(), "-o".into(), outd.clone()];
    if stdout { args.push("--stdout".into()); }
    for (f, _) in &fs { args.extend(["-f".to_string(), f.clone()]); }
    let fl = flags(&mut r, &bed);
    args.extend(fl.args.clone());
    let input = json!({"arguments": args, "files": fs.iter().map(|(n, f)| json!([n, f.as_ref().map(|f| format!("{:?}", f))])).collect::<Vec<_>>()});
    cx.case("pretty-print", &input);
    let before = snapshot(&bed.dir);
    let (out, ok) = bed.run(&args);
    let after = snapshot(&bed.dir);
    let mut bad = |p: &str, why: String| cx.fail(p, "pretty-print", &why, input.clone());
    if !ok { bad("C20", "the run failed".into()); }
    let log = bed.log();
    for (n, f) in &fs {
        let Some(f) = f else { continue };
        if !f.source { continue; }
        if let Some(why) = obeyed(&log, n, match f.lang { Lang::Sol => &fl.sol, Lang::Vy => &fl.vy }) { bad("C18", why); }
    }
    for (n, t) in &before { if after.get(n) != Some(t) { bad("C19", format!("the input file {} was changed", n)); } }
    let mut expected = BTreeSet::new();
    for (n, f) in &fs {
        match f {
            None => if !out.contains(&base(n)) { bad("C20", format!("nothing is said about {}, which cannot be printed", n)); },
            Some(f) => {
                let want = format!("{}/{}", outd, with_ext(f.lang, &base(n)));
                let text = if stdout { Some(out.clone()) } else { expected.insert(want.clone()); after.get(&want).map(|t| String::from_utf8_lossy(t).to_string()) };
                match text {
                    None => for p in ["C19", "C20"] { bad(p, format!("{} was not written", want)); },
                    Some(t) => {
                        for (g, ops) in &f.fns {
                            let head = match f.lang { Lang::Sol => format!("function {}(", g), Lang::Vy => format!("def {}(", g) };
                            let c = t.matches(&head).count();
                            if c == 0 || (!stdout && c != 1) { bad("C20", format!("{}: function {} is printed {} times", want, g, c)); }
                            for o in ops { if !t.contains(&format!("b {} ", word(f.lang, o))) { bad("C20", format!("{}: operator {} is missing", want, o)); } }
                        }
                    }
                }
            }
        }
    }
    for n in after.keys() { if !before.contains_key(n) && !expected.contains(n) { bad("C19", format!("unexpected file {}", n)); } }
}
/// a seed is taken from the clock only when none is given; a run without files fails
pub fn run(cx: &mut Cx) {
    if !cx.wants(PROPS) || std::env::var("VERIF_CLI").map_or(true, |c| c.is_empty() || !Path::new(&c).exists()) { return; }
    let main = cx.wants(&["C11", "C12", "C13", "C19", "C20"]);
    let n = match (cx.thorough, main) { (true, true) => 1200, (true, false) => 300, (false, true) => 140, (false, false) => 50 };
    let pp = cx.wants(&["C18", "C19", "C20"]);
    let given = cx.wants(&["C11"]);
    let jobs: Vec<(u64, usize)> = (0..n).map(|k| (cx.rng.next_u64(), k)).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let outs: Vec<Out> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..6).map(|_| sc.spawn(|| {
            let mut o = Out::default();
            loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= jobs.len() { return o; }
                mutate(&mut o, jobs[i].0, jobs[i].1);
                if given && i < 6 { given_up(&mut o, jobs[i].0 ^ 2, 8000 + i); many(&mut o, jobs[i].0 ^ 3, 9000 + i); }
                if pp && i % 2 == 0 { pretty(&mut o, jobs[i].0 ^ 1, 5000 + jobs[i].1); }
            }
        })).collect();
        hs.into_iter().map(|h| h.join().expect("a thread of the harness failed")).collect()
    });
    for o in outs {
        for (k, i) in o.cases { cx.case(k, &i); }
        for (p, c, w, i) in o.fails { cx.fail(&p, c, &w, i); }
    }
}
