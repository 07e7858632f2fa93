//! Contracts of names, preferences, configuration files, compiler invocation and file recognition.
use crate::gen::*;
use crate::spec::*;
use crate::util::*;
use mutagenyx_lib::config_file::ConfigurationFileDetails;
use mutagenyx_lib::preferences::{PreferenceValue, Preferences};
use mutagenyx_lib::recognizer::{FileType, Recognizer};
use mutagenyx_lib::{Language, LanguageInterface, MutationType, SuperAST};
use rand::{RngCore, SeedableRng};
use rand_pcg::Pcg64;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use std::str::FromStr;

pub const NAMES: &[&str] = &[
    "ArithmeticBinaryOp", "LogicalBinaryOp", "BitwiseBinaryOp", "BitshiftBinaryOp", "ComparisonBinaryOp", "Assignment", "DeleteStatement", "FunctionCall",
    "IfStatement", "Integer", "SwapFunctionArguments", "SwapOperatorArguments", "SwapLines", "UnaryOp", "Require", "UncheckedBlock", "ElimDelegateCall",
];

pub fn scratch() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_SCRATCH").expect("VERIF_SCRATCH"))
}

pub fn run(cx: &mut Cx) {
    if cx.wants(&["C09"]) { names(cx); }
    if cx.wants(&["C12"]) { preferences(cx); config(cx); }
    if cx.wants(&["C18"]) { compilers(cx); }
    if cx.wants(&["C23"]) { recognition(cx); }
}

// ------------------------------------------------------------------ names
fn names(cx: &mut Cx) {
    let all = mutagenyx_lib::mutation::get_all_mutation_algorithms();
    let desc = mutagenyx_lib::mutation::all_algorithm_descriptions();
    let mut seen = HashSet::new();
    for n in NAMES {
        let input = json!({"name": n});
        cx.case("algorithm name", &input);
        match MutationType::from_str(n) {
            Ok(t) => {
                if t.to_string() != *n { cx.fail("C09", "algorithm name", &format!("reads back as {}", t), input.clone()); }
                if !seen.insert(t) { cx.fail("C09", "algorithm name", "two names for one algorithm", input.clone()); }
                if !all.contains(&t) { cx.fail("C09", "algorithm list", "the list of all algorithms misses it", input.clone()); }
                if !desc.contains_key(&t) { cx.fail("C09", "algorithm list", "no description", input.clone()); }
            }
            Err(_) => cx.fail("C09", "algorithm name", "not recognized", input.clone()),
        }
        let w = n.trim_end_matches("Op").trim_end_matches("Statement").to_string();
        for bad in [n.to_lowercase(), n.to_uppercase(), format!(" {}", n), format!("{} ", n), format!("{}\n", n), format!("{}x", n), n[..n.len() - 1].to_string(), n[1..].to_string(), format!("{}Mutator", n), format!("{}Mutation", n), format!("{}Op", n),
            format!("{}s", n), format!("Generic({})", n), format!("Solidity({})", n), format!("Vyper({})", n), format!("\"{}\"", n), format!("{0}{0}", n), format!("{}-{}", &n[..1], &n[1..]), format!("{}_{}", &n[..1], &n[1..]), w, String::new()] {
            if NAMES.contains(&bad.as_str()) { continue; }
            let input = json!({"name": bad});
            cx.case("no algorithm name", &input);
            if MutationType::from_str(&bad).is_ok() { cx.fail("C09", "no algorithm name", "accepted", input); }
        }
    }
    let mut uniq: Vec<MutationType> = all.clone();
    uniq.sort();
    uniq.dedup();
    if uniq.len() != all.len() || all.len() != NAMES.len() || desc.len() != NAMES.len() {
        cx.fail("C09", "algorithm list", &format!("{} listed, {} described, {} distinct", all.len(), desc.len(), uniq.len()), json!({"list": all.iter().map(|t| t.to_string()).collect::<Vec<_>>()}));
    }
    for (l, n) in [(Language::Solidity, "Solidity"), (Language::Vyper, "Vyper")] {
        let input = json!({"language": n});
        cx.case("language name", &input);
        if l.to_string() != n || Language::from_str(n).ok() != Some(l) { cx.fail("C09", "language name", "does not read back", input.clone()); }
        for bad in [n.to_lowercase(), n.to_uppercase(), format!("{}x", n), format!(" {}", n), format!("{} ", n), format!("{}.", n), n[1..].to_string(), String::new()] {
            if Language::from_str(&bad).is_ok() { cx.fail("C09", "language name", "accepts another text", json!({"language": bad})); }
        }
    }
}

// ------------------------------------------------------------------ preferences
fn word(r: &mut Pcg64) -> String {
    pick(r, &["path", "a", "base-path", "compiler", "Solidity", "x y", "0", "key", "", "é", "include-paths", "x.y", "\"q\"", "1"]).to_string()
}
fn pv(r: &mut Pcg64, d: u32) -> PreferenceValue {
    match below(r, if d == 0 { 6 } else { 8 }) {
        0 => PreferenceValue::Int(pick(r, &[0, 1, -1, i64::MAX, i64::MIN, 42]).clone()),
        1 => PreferenceValue::Float(*pick(r, &[0.5, -2.25, 1e100, 3.125, 2.0, -1.0, 0.0, 1e15, 9.007199254740992e15, 1e-9])),
        2 | 3 => PreferenceValue::String(word(r)),
        4 => PreferenceValue::Boolean(coin(r, 0.5)),
        5 => PreferenceValue::Null,
        6 => PreferenceValue::Array((0..below(r, 4)).map(|_| pv(r, d - 1)).collect()),
        _ => PreferenceValue::Map((0..below(r, 4)).map(|_| (word(r), pv(r, d - 1))).collect()),
    }
}
pub fn as_json(v: &PreferenceValue) -> Value {
    match v {
        PreferenceValue::Int(i) => json!(i),
        PreferenceValue::Float(f) => json!(f),
        PreferenceValue::String(s) => json!(s),
        PreferenceValue::Boolean(b) => json!(b),
        PreferenceValue::Null => Value::Null,
        PreferenceValue::Array(a) => Value::Array(a.iter().map(as_json).collect()),
        PreferenceValue::Map(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), as_json(v))).collect()),
    }
}
fn preferences(cx: &mut Cx) {
    let n = if cx.thorough { 20000 } else { 2000 };
    for _ in 0..n {
        let mut r = Pcg64::seed_from_u64(cx.rng.next_u64());
        let v = pv(&mut r, 3);
        let j = as_json(&v);
        cx.case("preference value", &j);
        match cx.guarded("C12", "preference value", &j, || (Value::try_from(v.clone()), PreferenceValue::try_from(j.clone()))) {
            Ok((Ok(a), Ok(b))) => {
                if a != j { cx.fail("C12", "preference value to JSON", &format!("gave {}", a), j.clone()); }
                if b != v { cx.fail("C12", "preference value from JSON", &format!("gave {:?}", b), j.clone()); }
            }
            Ok(_) => cx.fail("C12", "preference value", "conversion failed", j.clone()),
            Err(e) => cx.fail("C12", "preference value", &e, j.clone()),
        }
        // a store against a model
        let mut p = Preferences::new();
        let mut m: HashMap<String, PreferenceValue> = HashMap::new();
        for _ in 0..below(&mut r, 8) {
            let k = word(&mut r);
            let v = pv(&mut r, 2);
            match &v {
                PreferenceValue::Int(i) => p.set_int_for_key(&k, *i),
                PreferenceValue::Float(f) => p.set_float_for_key(&k, *f),
                PreferenceValue::String(s) => p.set_string_for_key(&k, s),
                PreferenceValue::Boolean(b) => p.set_bool_for_key(&k, *b),
                PreferenceValue::Array(a) => p.set_array_for_key(&k, a.clone()),
                PreferenceValue::Map(x) => if coin(&mut r, 0.5) { p.set_map_for_key(&k, x.clone()) } else { p.set_preferences_for_key(&k, Preferences::new_from_map(x.clone())) },
                PreferenceValue::Null => p.set_value_for_key(&k, v.clone()),
            }
            m.insert(k, v);
        }
        let j = as_json(&PreferenceValue::Map(m.clone()));
        cx.case("preferences", &j);
        let bad = |p: &Preferences| -> Option<String> {
            for k in ["path", "a", "base-path", "compiler", "Solidity", "x y", "0", "key", "", "é", "include-paths", "x.y", "\"q\"", "1", "absent"] {
                let w = m.get(k);
                let ok = p.contains_key(k) == w.is_some()
                    && p.get_value_for_key(k).as_ref() == w
                    && p.get_int_for_key(k) == match w { Some(PreferenceValue::Int(i)) => Some(*i), _ => None }
                    && p.get_float_for_key(k) == match w { Some(PreferenceValue::Float(i)) => Some(*i), _ => None }
                    && p.get_string_for_key(k) == match w { Some(PreferenceValue::String(i)) => Some(i.clone()), _ => None }
                    && p.get_bool_for_key(k) == match w { Some(PreferenceValue::Boolean(i)) => Some(*i), _ => None }
                    && p.get_array_for_key(k) == match w { Some(PreferenceValue::Array(i)) => Some(i.clone()), _ => None }
                    && p.get_map_for_key(k) == match w { Some(PreferenceValue::Map(i)) => Some(i.clone()), _ => None }
                    && match (p.get_preferences_for_key(k), w) {
                        (Some(q), Some(PreferenceValue::Map(i))) => q.len() == i.len() && i.iter().all(|(k, v)| q.get_value_for_key(k).as_ref() == Some(v)),
                        (None, Some(PreferenceValue::Map(_))) => false,
                        (x, _) => x.is_none(),
                    };
                if !ok { return Some(format!("key {:?}", k)); }
            }
            if p.len() != m.len() || p.is_empty() != m.is_empty() { return Some("size".into()); }
            None
        };
        if let Some(why) = bad(&p) { cx.fail("C12", "preferences store", &why, j.clone()); }
        match Value::try_from(p.clone()) {
            Ok(a) => if a != j { cx.fail("C12", "preferences to JSON", &format!("gave {}", a), j.clone()); },
            Err(_) => cx.fail("C12", "preferences to JSON", "failed", j.clone()),
        }
        match Preferences::try_from(j.clone()) {
            Ok(q) => if let Some(why) = bad(&q) { cx.fail("C12", "preferences from JSON", &why, j.clone()); },
            Err(_) => cx.fail("C12", "preferences from JSON", "failed", j.clone()),
        }
        for bad in [json!([1]), json!("x"), json!(3), Value::Null] {
            if Preferences::try_from(bad.clone()).is_ok() { cx.fail("C12", "preferences from JSON", "accepted a value that is no object", bad); }
        }
    }
}

// ------------------------------------------------------------------ configuration files
fn text(r: &mut Pcg64) -> String {
    pick(r, &["a.sol", "dir/b.vy", "out", "x y", "stdout", "/abs/path.sol", "q\"uote", "tab\tand\\slash", "é", "balanceOf", "f"]).to_string()
}
fn config_json(r: &mut Pcg64) -> Value {
    let mut m = Map::new();
    let list = |r: &mut Pcg64, f: &dyn Fn(&mut Pcg64) -> Value| -> Value { Value::Array((0..below(r, 5)).map(|_| f(r)).collect()) };
    let junk = |r: &mut Pcg64| pick(r, &[json!(null), json!(1), json!(true), json!([]), json!({})]).clone();
    if coin(r, 0.95) { m.insert("language".into(), json!(pick(r, &["Solidity", "Vyper", "Solidity", "Vyper", "Solidity", "solidity", "C"]))); }
    if coin(r, 0.95) { m.insert("filenames".into(), list(r, &|r| if coin(r, 0.9) { json!(text(r)) } else { junk(r) })); }
    if coin(r, 0.6) { m.insert("num-mutants".into(), pick(r, &[json!(0), json!(1), json!(7), json!(1000), json!(-1), json!("7"), json!(2.5), json!(null)]).clone()); }
    if coin(r, 0.6) { m.insert("seed".into(), pick(r, &[json!(0), json!(1), json!(123456789), json!(i64::MAX), json!(1u64 << 63), json!(u64::MAX), json!("7"), json!(null)]).clone()); }
    if coin(r, 0.6) { m.insert("mutations".into(), list(r, &|r| if coin(r, 0.8) { json!(pick(r, NAMES)) } else if coin(r, 0.5) { json!("Nope") } else { junk(r) })); }
    if coin(r, 0.4) { m.insert("all-mutations".into(), pick(r, &[json!(true), json!(false), json!("true"), json!(1)]).clone()); }
    if coin(r, 0.6) { m.insert("functions".into(), list(r, &|r| if coin(r, 0.9) { json!(text(r)) } else { junk(r) })); }
    if coin(r, 0.6) { m.insert("validate-mutants".into(), pick(r, &[json!(true), json!(false), json!("true"), json!(null)]).clone()); }
    if coin(r, 0.6) { m.insert("print-original".into(), pick(r, &[json!(true), json!(false), json!(0)]).clone()); }
    if coin(r, 0.6) { m.insert("output-directory".into(), if coin(r, 0.9) { json!(text(r)) } else { junk(r) }); }
    if coin(r, 0.5) { m.insert("compiler-details".into(), if coin(r, 0.9) { as_json(&PreferenceValue::Map((0..below(r, 4)).map(|_| (word(r), pv(r, 2))).collect())) } else { pick(r, &[json!(null), json!("x"), json!([])]).clone() }); }
    if coin(r, 0.1) { m.insert("other".into(), json!(1)); }
    Value::Object(m)
}
/// the settings of a configuration, as JSON
fn shown(d: &ConfigurationFileDetails) -> Value {
    json!({
        "language": d.language.map(|l| l.to_string()), "filenames": d.filenames.iter().map(|p| p.to_str().unwrap().to_string()).collect::<Vec<_>>(),
        "num-mutants": d.number_of_mutants, "seed": d.seed, "mutations": d.mutations.iter().map(|m| m.to_string()).collect::<Vec<_>>(), "all-mutations": d.all_mutations,
        "functions": d.functions, "validate-mutants": d.verify_mutants, "output-directory": d.output_directory.as_ref().map(|p| p.to_str().unwrap().to_string()),
        "print-original": d.print_original,
        "compiler-details": d.compiler_details.as_ref().map(|p| Value::try_from(p.clone()).unwrap_or(json!("unconvertible"))),
    })
}
/// what reading a configuration of this content must give; None: rejected
fn expected(j: &Value) -> Option<Value> {
    let lang = j.get("language")?.as_str()?;
    if lang != "Solidity" && lang != "Vyper" { return None; }
    let files = j.get("filenames")?;
    let strs = |v: Option<&Value>| -> Vec<String> { v.and_then(|v| v.as_array()).map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default() };
    if let Some(c) = j.get("compiler-details") { if !c.is_object() { return None; } }
    let flag = |k: &str| j.get(k).and_then(|b| b.as_bool()).unwrap_or(false);
    Some(json!({
        "language": lang, "filenames": strs(Some(files)), "num-mutants": j.get("num-mutants").and_then(|n| n.as_i64()).unwrap_or(5), "seed": j.get("seed").and_then(|n| n.as_u64().or(n.as_i64().map(|x| x as u64))),
        "mutations": strs(j.get("mutations")).into_iter().filter(|n| NAMES.contains(&n.as_str())).collect::<Vec<_>>(), "all-mutations": flag("all-mutations"),
        "functions": strs(j.get("functions")), "validate-mutants": flag("validate-mutants"), "output-directory": j.get("output-directory").and_then(|s| s.as_str()),
        "print-original": flag("print-original"), "compiler-details": j.get("compiler-details"),
    }))
}
fn config(cx: &mut Cx) {
    let dir = scratch().join("conf");
    std::fs::create_dir_all(&dir).unwrap();
    let n = if cx.thorough { 6000 } else { 600 };
    for k in 0..n {
        let mut r = Pcg64::seed_from_u64(cx.rng.next_u64());
        let j = config_json(&mut r);
        let f = dir.join("c.mgnx");
        std::fs::write(&f, j.to_string()).unwrap();
        cx.case("configuration file", &j);
        let want = expected(&j);
        let got = match cx.guarded("C12", "configuration file", &j, || ConfigurationFileDetails::new_from_file(f.to_str().unwrap())) {
            Ok(g) => g,
            Err(e) => { cx.fail("C12", "reading a configuration file", &e, j); continue; }
        };
        let d = match (got, want) {
            (Ok(d), Some(w)) => { if shown(&d) != w { cx.fail("C12", "reading a configuration file", &format!("gave {}, expected {}", shown(&d), w), j); continue; } d }
            (Err(_), None) => continue,
            (Ok(d), None) => { cx.fail("C12", "reading a configuration file", &format!("accepted: {}", shown(&d)), j); continue; }
            (Err(_), Some(_)) => { cx.fail("C12", "reading a configuration file", "rejected", j); continue; }
        };
        // written out (into a directory that does not exist) and read back, by file and by stream
        let f2 = dir.join(format!("sub{}", k % 2)).join("d.mgnx");
        let _ = std::fs::remove_dir_all(f2.parent().unwrap());
        let w = cx.guarded("C12", "writing a configuration file", &j, || {
            let mut buf: Vec<u8> = vec![];
            let a = d.write_to_file_as_json(f2.to_str().unwrap()).is_ok();
            let b = d.write_to_stream_as_json(&mut buf).is_ok();
            (a && b, buf)
        });
        match w {
            Ok((true, buf)) => {
                let f3 = dir.join("e.mgnx");
                std::fs::write(&f3, &buf).unwrap();
                for (n, f) in [("file", &f2), ("stream", &f3)] {
                    match ConfigurationFileDetails::new_from_file(f.to_str().unwrap()) {
                        Ok(e) => if shown(&e) != shown(&d) { cx.fail("C12", "writing and reading back", &format!("by {}: gave {}, expected {}", n, shown(&e), shown(&d)), j.clone()); },
                        Err(e) => cx.fail("C12", "writing and reading back", &format!("by {}: {}", n, e), j.clone()),
                    }
                }
            }
            Ok(_) => cx.fail("C12", "writing a configuration file", "failed", j.clone()),
            Err(e) => cx.fail("C12", "writing a configuration file", &e, j.clone()),
        }
        if k % 20 == 0 {
            for bad in ["c.json", "c", "c.mgnx.txt", ".mgnx", "c.MGNX"] {
                let f = dir.join(bad);
                std::fs::write(&f, j.to_string()).unwrap();
                if ConfigurationFileDetails::new_from_file(f.to_str().unwrap()).is_ok() { cx.fail("C12", "configuration file extension", &format!("{} accepted", bad), j.clone()); }
            }
            let f = dir.join("broken.mgnx");
            std::fs::write(&f, "{\"language\": \"Solidity\",").unwrap();
            if ConfigurationFileDetails::new_from_file(f.to_str().unwrap()).is_ok() { cx.fail("C12", "configuration file", "text that is no JSON accepted", json!("{\"language\": \"Solidity\",")); }
            if ConfigurationFileDetails::new_from_file(dir.join("absent.mgnx").to_str().unwrap()).is_ok() { cx.fail("C12", "configuration file", "a file that does not exist accepted", json!(null)); }
        }
    }
}

// ------------------------------------------------------------------ compilers
/// A stand-in compiler: records its arguments, answers as told, and makes a syntax tree where it is asked for one.
pub const STANDIN: &str = r#"#!/bin/sh
d=$(dirname "$0")
printf '%s\0' "$(basename "$0")" >> "$d/log"
for a in "$@"; do printf '%s\0' "$a" >> "$d/log"; done
printf '\001\0' >> "$d/log"
if [ "$1" = "--version" ]; then cat "$d/version"; exit 0; fi
n=$(wc -l < "$d/count"); echo x >> "$d/count"
out=""; src=""; ast=0; prev=""
for a in "$@"; do
  [ "$a" = "--ast-compact-json" ] && ast=1
  [ "$prev" = "-f" ] && [ "$a" = "ast" ] && ast=2
  [ "$prev" = "-o" ] && out=$a
  case "$a" in *.sol|*.vy|*.src) src=$a;; esac
  prev=$a
done
if [ -f "$d/need" ]; then grep -q "$(cat "$d/need")" "$src" || exit 1; fi
if [ -f "$d/deny" ]; then grep -v SOURCE-TEXT "$src" | grep -v '^ *//\|^ *#' | grep -q "$(cat "$d/deny")" && exit 1; fi
tree="$d/ast.json"; [ -f "$d/$(basename "$src").tree" ] && tree="$d/$(basename "$src").tree"
v=$(sed -n "$((n+1))p" "$d/verdicts"); [ -z "$v" ] && v=$(tail -1 "$d/verdicts")
[ "$v" = "0" ] || exit 1
if [ $ast = 1 ]; then cp "$tree" "$out/$(basename "$src")_json.ast"; fi
if [ $ast = 2 ]; then if [ -n "$out" ]; then cp "$tree" "$out"; else cat "$tree"; fi; fi
exit 0
"#;
pub struct Standin { pub dir: PathBuf }
impl Standin {
    pub fn new(name: &str) -> Standin {
        let dir = scratch().join(name);
        std::fs::create_dir_all(dir.join("tmp")).unwrap();
        for p in ["solc", "vyper", "docker", "my solc", "my-vyper"] {
            let f = dir.join(p);
            std::fs::write(&f, STANDIN).unwrap();
            std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755)).unwrap();
        }
        Standin { dir }
    }
    pub fn reset(&self, verdicts: &[bool], version: &str, ast: &Value) {
        let w = |n: &str, t: String| std::fs::write(self.dir.join(n), t).unwrap();
        w("log", String::new());
        w("count", String::new());
        w("verdicts", verdicts.iter().map(|v| if *v { "0\n" } else { "1\n" }).collect());
        w("version", format!("{}\n", version));
        w("ast.json", ast.to_string());
        let _ = std::fs::remove_file(self.dir.join("need"));
    }
    /// the recorded invocations: program and arguments
    pub fn log(&self) -> Vec<Vec<String>> {
        let t = String::from_utf8(std::fs::read(self.dir.join("log")).unwrap()).unwrap();
        t.split("\u{1}\0").filter(|s| !s.is_empty()).map(|s| s.trim_end_matches('\0').split('\0').map(String::from).collect()).collect()
    }
}
/// Arguments as option groups: the order of the groups does not matter, the order inside one does.
fn groups(args: &[String]) -> BTreeMap<String, Vec<String>> {
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut i = 0;
    while i < args.len() {
        let a = &args[i];
        if ["--base-path", "--include-path", "--allow-paths", "--stop-after", "-o", "-p", "-f", "-v"].contains(&a.as_str()) && i + 1 < args.len() {
            m.entry(a.clone()).or_default().push(args[i + 1].clone());
            i += 2;
        } else {
            m.entry(if a.starts_with('-') { a.clone() } else { String::new() }).or_default().push(a.clone());
            i += 1;
        }
    }
    m
}
fn paths_of(r: &mut Pcg64) -> Vec<String> {
    (0..below(r, 4)).map(|_| pick(r, &["lib", "/usr/x", "a b", "@oz=node_modules/oz", "..", "c,d", " lead", "trail ", "t/", "./l", "LIB"]).to_string()).collect()
}
fn compilers(cx: &mut Cx) {
    let st = Standin::new("comp");
    std::env::set_var("TMPDIR", st.dir.join("tmp"));
    std::env::set_var("PATH", format!("{}:/usr/bin:/bin", st.dir.to_str().unwrap()));
    let tmp = st.dir.join("tmp").to_str().unwrap().to_string();
    let n = if cx.thorough { 800 } else { 90 };
    let mut g = G::new();
    for k in 0..n {
        let mut r = Pcg64::seed_from_u64(cx.rng.next_u64());
        let l = if k % 2 == 0 { Lang::Sol } else { Lang::Vy };
        // settings
        let mut c = HashMap::new();
        let mut want: Vec<String> = vec![];
        let mut put = |k: &str, v: PreferenceValue| { c.insert(k.to_string(), v); };
        let sv = |a: &[String]| PreferenceValue::Array(a.iter().map(|s| PreferenceValue::String(s.clone())).collect());
        let mut prog = match l { Lang::Sol => "solc", Lang::Vy => "vyper" };
        if coin(&mut r, 0.5) {
            prog = match l { Lang::Sol => "my solc", Lang::Vy => "my-vyper" };
            put("path", PreferenceValue::String(st.dir.join(prog).to_str().unwrap().into()));
        }
        if l == Lang::Sol {
            if coin(&mut r, 0.5) { let b = *pick(&mut r, &["base", " my base/", "./B", "/"]); put("base-path", PreferenceValue::String(b.into())); want.extend(["--base-path".into(), b.into()]); }
            if coin(&mut r, 0.6) { let a = paths_of(&mut r); put("include-paths", sv(&a)); for x in a { want.extend(["--include-path".into(), x]); } }
            if coin(&mut r, 0.6) { let a = paths_of(&mut r); put("allow-paths", sv(&a)); if !a.is_empty() { want.extend(["--allow-paths".into(), a.join(",")]); } }
            if coin(&mut r, 0.6) { let a = paths_of(&mut r); put("remappings", sv(&a)); want.extend(a); }
            if coin(&mut r, 0.4) { put("stop-after", PreferenceValue::String("parsing".into())); want.extend(["--stop-after".into(), "parsing".into()]); }
        } else if coin(&mut r, 0.5) {
            let b = *pick(&mut r, &["root dir", " R/", ".", "/x "]);
            put("root-path", PreferenceValue::String(b.into()));
            want.extend(["-p".into(), b.into()]);
        }
        let mut lp = Preferences::new();
        lp.set_map_for_key("compiler", c.clone());
        let mut p = Preferences::new();
        p.set_preferences_for_key(match l { Lang::Sol => "Solidity", Lang::Vy => "Vyper" }, lp);
        // the other language's settings must not leak in
        if coin(&mut r, 0.3) {
            let mut o = Preferences::new();
            let mut oc = Preferences::new();
            oc.set_string_for_key("path", "/nonexistent");
            oc.set_string_for_key("base-path", "other");
            oc.set_string_for_key("root-path", "other");
            o.set_preferences_for_key("compiler", oc);
            p.set_preferences_for_key(match l { Lang::Sol => "Vyper", Lang::Vy => "Solidity" }, o);
        }
        let ast = match l { Lang::Sol => g.sol_tree(&mut r, 1), Lang::Vy => g.vy_tree(&mut r, 1) };
        let verdicts: Vec<bool> = (0..3).map(|_| coin(&mut r, 0.6)).collect();
        let version = pick(&mut r, &["0.3.7+commit.6020b8b", "3.1.0", "0.2.11+commit.5db35ef", "3.0.0", "3.0.1+commit.5db35ef", "0.1.0b17", "0.10.0+commit.1", "", "?"]).to_string();
        let src = st.dir.join(match l { Lang::Sol => "in.sol", Lang::Vy => "in.vy" });
        std::fs::write(&src, "source").unwrap();
        let src = src.to_str().unwrap().to_string();
        let base = match l { Lang::Sol => "in.sol", Lang::Vy => "in.vy" };
        let lang = match l { Lang::Sol => Language::Solidity, Lang::Vy => Language::Vyper };
        let mut o = LanguageInterface::get_language_object_for_language(&lang).unwrap();
        let what = ["recognize source", "convert source", "mutant compiles"][(k / 2) % 3];
        let input = json!({"language": format!("{:?}", l), "settings": as_json(&PreferenceValue::Map(c)), "compiler exits with success": verdicts, "compiler version": version, "operation": what});
        cx.case(what, &input);
        st.reset(&verdicts, &version, &ast);
        let mut mf = String::new();
        let res = cx.guarded("C18", what, &input, || match what {
            "recognize source" => (o.file_is_language_source_file(&src, &p), None),
            "convert source" => match o.convert_source_file_to_ast(&src, &p) { Ok(a) => (true, Some(a)), Err(_) => (false, None) },
            _ => (o.mutant_compiles(&src, &match l { Lang::Sol => SuperAST::Solidity(ast.clone()), Lang::Vy => SuperAST::Vyper(ast.clone()) }, &p), None),
        });
        let (ok, tree) = match res { Ok(x) => x, Err(e) => { cx.fail("C18", what, &e, input); continue; } };
        let log = st.log();
        if what == "mutant compiles" {
            // the mutant is written under a directory of the tool's own; take its name from the log
            mf = log.iter().flatten().filter(|a| a.ends_with(base) && !a.contains(":/code")).next().cloned().unwrap_or_default();
            if Path::new(&mf).file_name().map(|x| x.to_str().unwrap()) != Some(base) || mf == src { cx.fail("C18", what, &format!("the mutant was compiled as {:?}", mf), input.clone()); continue; }
        }
        // the invocations that must happen, in order, and the answer
        let mut exp: Vec<Vec<String>> = vec![];
        let full = |own: &[&str]| -> Vec<String> { let mut v = vec![prog.to_string()]; v.extend(want.clone()); v.extend(own.iter().map(|s| s.to_string())); v };
        let vjson = format!("{}/{}.json", tmp, base);
        let sdir = |f: &str| Path::new(f).parent().unwrap().to_str().unwrap().to_string();
        let exp_ok = match (l, what) {
            (Lang::Sol, "mutant compiles") => {
                exp.push(full(&["--overwrite", "-o", &tmp, &mf]));
                if !verdicts[0] { exp.push(full(&["--overwrite", "-o", &tmp, &mf, "--stop-after", "parsing"])); }
                verdicts[0] || verdicts[1]
            }
            (Lang::Sol, _) => { exp.push(full(&["--ast-compact-json", "--overwrite", "-o", &tmp, &src])); verdicts[0] }
            (Lang::Vy, "mutant compiles") => {
                exp.push(full(&[&mf]));
                if !verdicts[0] {
                    let mut d: Vec<String> = vec!["docker".into(), "run".into(), "-v".into(), format!("{}:/code", sdir(&mf)), "vyperlang/vyper".into()];
                    d.extend(want.clone());
                    d.push(mf.clone());
                    exp.push(d);
                }
                verdicts[0] || verdicts[1]
            }
            (Lang::Vy, _) => {
                exp.push(vec![prog.into(), "--version".into()]);
                let known = version.len() > 1;
                if !known {} else if version.starts_with('3') { exp.push(full(&["-f", "ast", "-o", &vjson, &src])); } else { exp.push(full(&["-f", "ast", &src])); }
                if !verdicts[0] || !known {
                    let mut d: Vec<String> = ["docker", "run", "-v", &format!("{}:/code", sdir(&src)), "vyperlang/vyper", "-f", "ast"].iter().map(|s| s.to_string()).collect();
                    d.extend(want.clone());
                    d.extend([src.clone(), "-o".into(), vjson.clone()]);
                    exp.push(d);
                }
                verdicts[0] || (known && verdicts[1])
            }
        };
        if ok != exp_ok { cx.fail("C18", what, &format!("answered {}, the compiler said {}", ok, exp_ok), input.clone()); }
        let same = log.len() == exp.len() && log.iter().zip(&exp).all(|(a, b)| a[0] == b[0] && groups(&a[1..]) == groups(&b[1..]));
        if !same { cx.fail("C18", what, &format!("ran {:?}, expected {:?}", log, exp), input.clone()); }
        if let Some(t) = tree {
            let t = match (l, t) { (Lang::Sol, SuperAST::Solidity(v)) => Some(v), (Lang::Vy, SuperAST::Vyper(v)) => Some(v), _ => None };
            if t.as_ref() != Some(&ast) { cx.fail("C18", what, "the tree is not the one the compiler made", input.clone()); }
        }
        if std::fs::read_to_string(&src).unwrap() != "source" { cx.fail("C18", what, "the source file was changed", input.clone()); }
    }
}

// ------------------------------------------------------------------ recognition
fn recognition(cx: &mut Cx) {
    let st = Standin::new("rec");
    std::env::set_var("TMPDIR", st.dir.join("tmp"));
    std::env::set_var("PATH", format!("{}:/usr/bin:/bin", st.dir.to_str().unwrap()));
    let n = if cx.thorough { 1500 } else { 150 };
    let mut g = G::new();
    const NAMES: &[&str] = &["a.json", "a.mgnx", "a.mgnx", "a.sol", "a.vy", "plain", "a.MGNX", "a.Mgnx", ".mgnx", "a.mgnx.bak", "amgnx", "a.b.mgnx", "A.mgnx", "a.mgnx ", "a.mgnxx", "a.gnx"];
    for k in 0..n {
        let mut r = Pcg64::seed_from_u64(cx.rng.next_u64());
        let sol = g.sol_tree(&mut r, 1);
        let vy = g.vy_tree(&mut r, 1);
        // every name first holds a configuration
        let named = k < 2 * NAMES.len();
        let tree = match if named { 20 + (k % 2) as u64 } else { below(&mut r, 10) as u64 } {
            20 => json!({"language": "Solidity", "filenames": []}),
            21 => json!({"language": "Vyper", "filenames": []}),
            0 | 1 => sol.clone(),
            2 | 3 => vy.clone(),
            4 => with(&sol, "nodeType", json!("ContractDefinition")),
            5 => { let mut m = vy.clone(); m.as_object_mut().unwrap().remove(*pick(&mut r, &["ast", "contract_name"])); m }
            6 => json!({"contract_name": null, "ast": null}),
            7 => json!({"nodeType": "SourceUnit", "contract_name": "x", "ast": {}}),
            8 => json!([{"nodeType": "SourceUnit"}]),
            _ => pick(&mut r, &[json!(null), json!("SourceUnit"), json!({}), json!({"nodeType": ["SourceUnit"]}), json!({"language": "Solidity", "filenames": []}), json!({"language": "Vyper", "filenames": []}), json!({"language": "Perl", "filenames": []})]).clone(),
        };
        let is_sol = s(&tree, "nodeType") == Some("SourceUnit");
        let is_vy = tree.is_object() && tree.get("contract_name").is_some() && tree.get("ast").is_some();
        let name = if named { NAMES[k / 2] } else { *pick(&mut r, NAMES) };
        let solc = coin(&mut r, 0.3);
        let vyc = coin(&mut r, 0.3);
        let f = st.dir.join(name);
        let broken = coin(&mut r, 0.1);
        std::fs::write(&f, if broken { "{ not json".to_string() } else { tree.to_string() }).unwrap();
        let f = f.to_str().unwrap().to_string();
        let mut p = Preferences::new();
        for (l, c) in [("Solidity", solc), ("Vyper", vyc)] {
            let mut lp = Preferences::new();
            let mut cp = Preferences::new();
            cp.set_string_for_key("path", if c { "/bin/true" } else { "/nonexistent/compiler" });
            lp.set_preferences_for_key("compiler", cp);
            p.set_preferences_for_key(l, lp);
        }
        // a Vyper compiler has to tell its version
        st.reset(&[vyc], "3.1.0", &vy);
        if vyc {
            let mut lp = Preferences::new();
            let mut cp = Preferences::new();
            cp.set_string_for_key("path", st.dir.join("vyper").to_str().unwrap());
            lp.set_preferences_for_key("compiler", cp);
            p.set_preferences_for_key("Vyper", lp);
        }
        let input = json!({"file": name, "content": if broken { json!("not JSON") } else { tree.clone() }, "Solidity compiler accepts": solc, "Vyper compiler accepts": vyc});
        cx.case("file", &input);
        let cfg = if !broken && name.ends_with(".mgnx") && name != ".mgnx" { match s(&tree, "language") { Some("Solidity") => Some(Language::Solidity), Some("Vyper") => Some(Language::Vyper), _ => None } } else { None };
        let src = if solc { Some(Language::Solidity) } else if vyc { Some(Language::Vyper) } else { None };
        let ast = if broken { None } else if is_sol { Some(Language::Solidity) } else if is_vy { Some(Language::Vyper) } else { None };
        let want = cfg.map(|l| (l, "config")).or(src.map(|l| (l, "source"))).or(ast.map(|l| (l, "ast")));
        let got = cx.guarded("C23", "recognize", &input, || {
            let rec = Recognizer::new(&mut p);
            rec.recognize_file(&f).ok().map(|x| (x.language, match x.file_type { FileType::Config => "config", FileType::Source => "source", FileType::AST => "ast" }))
        });
        match got {
            Ok(g) => if g != want { cx.fail("C23", "recognize", &format!("as {:?}, expected {:?}", g, want), input.clone()); },
            Err(e) => cx.fail("C23", "recognize", &e, input.clone()),
        }
        // loading a syntax tree file keeps the tree
        for (l, mine) in [(Language::Solidity, is_sol), (Language::Vyper, is_vy)] {
            let mut o = LanguageInterface::get_language_object_for_language(&l).unwrap();
            let got = cx.guarded("C23", "load", &input, || {
                let a = o.load_ast_from_file(&f, &FileType::AST, &p).ok().map(|a| match a { SuperAST::Solidity(v) => (Language::Solidity, v), SuperAST::Vyper(v) => (Language::Vyper, v) });
                (a, o.file_is_language_ast_file(&f), o.load_ast_from_file(&f, &FileType::Config, &p).is_ok(), o.implements(), o.get_extension_for_output_file().to_string())
            });
            let want = if mine && !broken { Some((l, tree.clone())) } else { None };
            match got {
                Ok((a, b, c, i, x)) => {
                    if a != want || b != want.is_some() { cx.fail("C23", "load", &format!("{}: loaded {}, recognized {}, expected {}", l, a.is_some(), b, want.is_some()), input.clone()); }
                    if c { cx.fail("C23", "load", "a configuration file was loaded as a syntax tree", input.clone()); }
                    if i != l || x != (if l == Language::Solidity { "sol" } else { "vy" }) { cx.fail("C23", "language object", &format!("{} got the object for {}, extension {}", l, i, x), input.clone()); }
                }
                Err(e) => cx.fail("C23", "load", &e, input.clone()),
            }
        }
    }
}
