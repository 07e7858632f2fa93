//! Node-level contracts of the mutators.
use crate::gen::*;
use crate::spec::*;
use crate::util::*;
use mutagenyx_lib::verif_hook::mutator::Mutator;
use mutagenyx_lib::{solidity, vyper, MutationType};
use rand::{RngCore, SeedableRng};
use rand_pcg::Pcg64;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::str::FromStr;

pub fn types(l: Lang) -> Vec<&'static str> {
    let mut v: Vec<&str> = GENERIC.to_vec();
    if l == Lang::Sol { v.extend(SOLONLY); }
    v
}
pub fn factory(l: Lang, t: &str) -> Option<Box<dyn Mutator<Value>>> {
    let d = match l { Lang::Sol => solidity::delegate::get_solidity_delegate(), Lang::Vy => vyper::delegate::get_vyper_delegate() };
    d.get_mutator_factory().mutator_for(&MutationType::from_str(t).ok()?)
}
const MINE: &[&str] = &["C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C17"];

fn state(r: &Pcg64) -> String {
    format!("{:?}", r)
}

pub fn run(cx: &mut Cx) {
    if cx.wants(&["C11"]) {
        same_change(cx);
    }
    if !cx.wants(MINE) {
        return;
    }
    let per = if cx.thorough { 4000 } else { 350 };
    for l in [Lang::Sol, Lang::Vy] {
        let ts = types(l);
        for t in &ts {
            let mut g = G::new();
            for k in 0..per {
                let mut rng = cx.rng.clone();
                cx.rng.next_u64();
                let d = (k % 3) as u32;
                let base = if k % 8 == 7 { g.node(l, pick(&mut rng, &ts), &mut rng, d) } else { g.node(l, t, &mut rng, d) };
                let base = if l == Lang::Vy && *t == "DeleteStatement" && k % 5 == 0 {
                    json!({"node_id": 3, "ast_type": "Module", "name": "m", "body": g.vy_body(&mut rng, 1, 0)})
                } else { base };
                let node = if k % 4 == 3 { perturb(&base, &mut rng) } else { base };
                one(cx, l, t, &node, rng.next_u64());
            }
        }
        choices(cx, l);
    }
    if cx.wants(&["C07"]) {
        edges(cx);
    }
}

/// the first and the last value of every small type are the bounds of what is put in its place
fn edges(cx: &mut Cx) {
    let per = if cx.thorough { 60000 } else { 3000 };
    for ty in ["int8", "uint8", "int16", "uint16", "int24", "uint24", "int120", "uint120", "int128", "uint128", "int256", "uint256"] {
        let node = json!({"id": 7, "nodeType": "Assignment", "operator": "=", "leftHandSide": {"id": 8, "nodeType": "Identifier", "name": "a", "typeDescriptions": {"typeString": ty}},
            "rightHandSide": {"id": 9, "nodeType": "Identifier", "name": "b", "typeDescriptions": {"typeString": ty}}, "typeDescriptions": {"typeString": ty}});
        if !mutable(Lang::Sol, "Assignment", &node) { continue; }
        let what = format!("Assignment of {}", ty);
        cx.case(&what, &node);
        for seed in 0..per {
            let Some(mut m) = factory(Lang::Sol, "Assignment") else { return };
            let (mut n, mut rng) = (node.clone(), Pcg64::seed_from_u64(seed));
            let input = json!({"language": "Sol", "algorithm": "Assignment", "node": node, "rng_seed": seed});
            let Ok(Ok(res)) = cx.guarded("C07", &what, &input, || m.mutate(&mut n, &mut rng)) else { continue };
            if let Err((p, why)) = rel(Lang::Sol, "Assignment", &node, &n, res.mutated_node_id) {
                let mut i2 = input.clone();
                i2["mutated"] = n.clone();
                cx.fail(p, &what, &why, i2);
                break;
            }
        }
    }
}

/// the same change of the same node is described alike, however it came about
fn same_change(cx: &mut Cx) {
    let per = if cx.thorough { 400 } else { 40 };
    for l in [Lang::Sol, Lang::Vy] {
        for t in types(l) {
            let mut g = G::new();
            let what = format!("{:?} {} described", l, t);
            for k in 0..per {
                let mut r = Pcg64::seed_from_u64(cx.rng.next_u64());
                let node = g.node(l, t, &mut r, (k % 2) as u32);
                let Some(mut m) = factory(l, t) else { continue };
                if !mutable(l, t, &node) || !sane(l, t, &node) { continue; }
                cx.case(&what, &node);
                let mut seen: Vec<(Value, (Option<String>, Option<u64>), u64)> = vec![];
                for seed in 0..40u64 {
                    let mut n = node.clone();
                    let mut rng = Pcg64::seed_from_u64(seed);
                    let input = json!({"language": format!("{:?}", l), "algorithm": t, "node": node, "rng_seed": seed});
                    let Ok(Ok(res)) = cx.guarded("C11", &what, &input, || m.mutate(&mut n, &mut rng)) else { continue };
                    let d = (res.random_behavior_hash.clone(), res.mutated_node_id);
                    match seen.iter().find(|x| x.0 == n) {
                        Some(x) if x.1 != d => {
                            cx.fail("C11", &what, &format!("the same change is described as {:?} and as {:?}", x.1, d), json!({"language": format!("{:?}", l), "algorithm": t, "node": node, "rng_seeds": [x.2, seed]}));
                            break;
                        }
                        Some(_) => {}
                        None => seen.push((n, d, seed)),
                    }
                }
            }
        }
    }
}

fn one(cx: &mut Cx, l: Lang, t: &str, node: &Value, seed: u64) {
    let what = format!("{:?} {}", l, t);
    let input = json!({"language": format!("{:?}", l), "algorithm": t, "node": node, "rng_seed": seed});
    cx.case(&what, &input["node"]);
    let Some(mut m) = factory(l, t) else {
        cx.fail("C09", &what, "no mutator for the algorithm", input);
        return;
    };
    if m.implements() != MutationType::from_str(t).unwrap() {
        cx.fail("C09", &what, "the mutator implements another algorithm", input.clone());
    }
    let mut rng = Pcg64::seed_from_u64(seed);
    let before = state(&rng);
    let got = match cx.guarded("C08,C10", &format!("{} is_mutable_node", what), &input, || m.is_mutable_node(node, &mut rng)) {
        Ok(b) => b,
        Err(e) => {
            cx.fail("C08", &what, &format!("candidate test panicked: {}", e), input.clone());
            cx.fail("C10", &what, &format!("candidate test panicked: {}", e), input);
            return;
        }
    };
    if state(&rng) != before {
        cx.fail("C02", &what, "the candidate test consumed randomness", input.clone());
    }
    let want = mutable(l, t, node);
    if got != want {
        cx.fail("C10", &what, &format!("candidate test says {}, expected {}", got, want), input.clone());
        if got { cx.fail("C08", &what, "a node the algorithm cannot mutate was accepted", input.clone()); }
        return;
    }
    if !got {
        return;
    }
    for i in 0..3u64 {
        let mut rng = Pcg64::seed_from_u64(seed.wrapping_add(i));
        let mut n = node.clone();
        let input = json!({"language": format!("{:?}", l), "algorithm": t, "node": node, "rng_seed": seed.wrapping_add(i)});
        let r = cx.guarded("C08", &format!("{} mutate", what), &input, || m.mutate(&mut n, &mut rng));
        match r {
            Err(e) => cx.fail("C08", &what, &format!("mutation panicked: {}", e), input),
            Ok(Err(e)) => {
                if sane(l, t, node) { cx.fail("C08", &what, &format!("mutation failed: {}", e), input) }
            }
            Ok(Ok(res)) => {
                if sane(l, t, node) {
                    if let Err((p, why)) = rel(l, t, node, &n, res.mutated_node_id) {
                        let mut i2 = input.clone();
                        i2["mutated"] = n.clone();
                        if p != "C17" && p != "C03" { cx.fail("C03", &what, &why, i2.clone()); }
                        cx.fail(p, &what, &why, i2.clone());
                        if p == "C03" { for q in ["C04", "C05", "C06", "C07"] { if q == cat(t, l) { cx.fail(q, &what, &why, i2.clone()); } } }
                    }
                }
                if res.mutation_type != Some(MutationType::from_str(t).unwrap()) {
                    cx.fail("C09", &what, "the result names another algorithm", input.clone());
                }
                match m.get_comment_node() {
                    Some(c) if s(&c, key_of(l).0) == Some("Comment") => {
                        let text = s(&c, if l == Lang::Sol { "text" } else { "value" }).unwrap_or("");
                        if !text.starts_with(&format!("{} Mutator", t)) {
                            cx.fail("C17", &what, &format!("comment does not name the algorithm: {:?}", text), input);
                        }
                    }
                    c => cx.fail("C17", &what, &format!("no comment node: {:?}", c), input),
                }
            }
        }
    }
}
/// the property that states the shape of what the algorithm produces
fn cat(t: &str, l: Lang) -> &'static str {
    match t {
        "SwapFunctionArguments" | "SwapOperatorArguments" | "SwapLines" => "C05",
        "Assignment" | "Integer" => "C07",
        "DeleteStatement" | "FunctionCall" | "IfStatement" | "Require" | "UncheckedBlock" | "ElimDelegateCall" => "C06",
        "UnaryOp" if l == Lang::Vy => "C06",
        _ => "C04",
    }
}
/// every documented choice of an algorithm can be made
fn choices(cx: &mut Cx, l: Lang) {
    let n = 240;
    let mut g = G::new();
    let mut r = Pcg64::seed_from_u64(5);
    let (ks, val, cond) = match l { Lang::Sol => ("nodeType", "value", "condition"), Lang::Vy => ("ast_type", "value", "test") };
    let _ = ks;
    let int = match l {
        Lang::Sol => json!({"id": 7, "nodeType": "Literal", "kind": "number", "value": "41"}),
        Lang::Vy => json!({"node_id": 7, "ast_type": "Int", "value": 41}),
    };
    let mut runs: Vec<(&str, &str, Value, &str, Vec<&str>)> = vec![];
    runs.push(("C07", "Integer", int, val, vec!["40", "42", "other"]));
    runs.push(("C06", "IfStatement", match l { Lang::Sol => { let b = g.sol_block(&mut r, 0); json!({"id": 8, "nodeType": "IfStatement", "condition": {"id": 9, "nodeType": "Identifier", "name": "a"}, "trueBody": b}) } Lang::Vy => json!({"node_id": 8, "ast_type": "If", "test": {"node_id": 9, "ast_type": "Name", "id": "a"}, "body": [{"node_id": 10, "ast_type": "Pass"}], "orelse": []}) }, cond, vec!["true", "false", "other"]));
    let fams: &[(&str, &str, &[&str])] = &[("ArithmeticBinaryOp", "+", ARITH), ("ComparisonBinaryOp", "==", CMP), ("BitwiseBinaryOp", "&", BITW), ("LogicalBinaryOp", "&&", LOGIC), ("BitshiftBinaryOp", "<<", SHIFT)];
    for (p, t, node, key, want) in runs {
        let what = format!("{:?} {} choices", l, t);
        let mut seen: BTreeSet<String> = BTreeSet::new();
        for i in 0..n {
            let Some(mut m) = factory(l, t) else { return };
            let mut rng = Pcg64::seed_from_u64(1000 + i);
            let mut x = node.clone();
            let input = json!({"algorithm": t, "node": node, "rng_seed": 1000 + i});
            let _ = cx.guarded("C08", &what, &input, || m.mutate(&mut x, &mut rng));
            let v = &x[key];
            let inner = if v.is_object() { v.get("value").cloned().unwrap_or(Value::Null) } else { v.clone() };
            let txt = inner.as_str().map(|s| s.to_string()).unwrap_or(inner.to_string());
            seen.insert(if want.contains(&txt.as_str()) { txt } else { "other".into() });
        }
        cx.case(&what, &node);
        for w in want {
            if !seen.contains(w) {
                cx.fail(p, &what, &format!("choice {} never made in {} seeds", w, n), json!({"algorithm": t, "node": node, "seeds": [1000, 1000 + n - 1]}));
            }
        }
    }
    for (t, op, all) in fams {
        let node = match l {
            Lang::Sol => json!({"id": 7, "nodeType": "BinaryOperation", "operator": op, "leftExpression": {"id": 8, "nodeType": "Identifier", "name": "a"}, "rightExpression": {"id": 9, "nodeType": "Identifier", "name": "b"}}),
            Lang::Vy => {
                let name = VYOPS.iter().find(|x| x.1 == *op).unwrap().0;
                json!({"node_id": 7, "ast_type": "BinOp", "op": {"node_id": 10, "ast_type": name}, "left": {"node_id": 8, "ast_type": "Name", "id": "a"}, "right": {"node_id": 9, "ast_type": "Name", "id": "b"}})
            }
        };
        let what = format!("{:?} {} choices", l, t);
        let mut seen: BTreeSet<String> = BTreeSet::new();
        for i in 0..n {
            let Some(mut m) = factory(l, t) else { return };
            let mut rng = Pcg64::seed_from_u64(1000 + i);
            let mut x = node.clone();
            let input = json!({"algorithm": t, "node": node, "rng_seed": 1000 + i});
            let _ = cx.guarded("C08", &what, &input, || m.mutate(&mut x, &mut rng));
            let o = match l { Lang::Sol => s(&x, "operator").unwrap_or("").to_string(), Lang::Vy => x.get("op").and_then(|o| s(o, "ast_type")).and_then(vyop).unwrap_or("").to_string() };
            seen.insert(o);
        }
        cx.case(&what, &node);
        for w in all.iter() {
            if w != op && !seen.contains(*w) {
                cx.fail("C04", &what, &format!("operator {} never chosen in {} seeds", w, n), json!({"algorithm": t, "node": node}));
            }
        }
    }
}
