//! Tree-level contracts: permissions, traversal, counting, selection, frame, comment placement, node paths.
use crate::gen::*;
use crate::mutcheck::{factory, types};
use crate::spec::*;
use crate::util::*;
use mutagenyx_lib::permissions::*;
use mutagenyx_lib::verif_hook::ast::ASTTraverser;
use mutagenyx_lib::verif_hook::visitor::{Visitor, VisitorMut};
use mutagenyx_lib::{Language, LanguageInterface, MutationType, SuperAST};
use rand::{RngCore, SeedableRng};
use rand_pcg::Pcg64;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::str::FromStr;

const MINE: &[&str] = &["C01", "C02", "C03", "C16", "C17"];

pub fn run(cx: &mut Cx) {
    if !cx.wants(MINE) {
        return;
    }
    if cx.wants(&["C01"]) {
        permission_table(cx);
    }
    if cx.wants(&["C02"]) {
        big(cx, Lang::Sol);
        big(cx, Lang::Vy);
    }
    if !cx.wants(&["C16"]) {
        for l in [Lang::Sol, Lang::Vy] {
            for depth in [40, 70, 140, 300] {
                for f in [vec![], vec!["alpha".to_string()]] {
                    let mut r = Pcg64::seed_from_u64(cx.rng.next_u64());
                    whole(cx, l, &deep(l, depth), &f, &mut r);
                }
            }
        }
    }
    let n = if cx.thorough { 900 } else { 120 };
    for k in 0..n {
        for l in [Lang::Sol, Lang::Vy] {
            let mut r = Pcg64::seed_from_u64(cx.rng.next_u64());
            let mut g = G::new();
            let d = 1 + (k % 3) as u32;
            let tree = if k % 5 > 2 { wide_tree(l, &mut r, 2 + (k % 3) as u32) } else { match l { Lang::Sol => g.sol_tree(&mut r, d), Lang::Vy => g.vy_tree(&mut r, d) } };
            let funcs: Vec<String> = match k % 4 {
                0 => vec![],
                1 => vec![FUNCS[below(&mut r, 4) as usize].to_string()],
                2 => vec![FUNCS[0].to_string(), FUNCS[2].to_string()],
                _ => FUNCS.iter().filter(|_| coin(&mut r, 0.4)).map(|x| x.to_string()).collect(),
            };
            let (tree, funcs) = match below(&mut r, 12) {
                i if (i as usize) < NEAR.len() => (renamed(&tree, NEAR[i as usize]), funcs.iter().map(|f| new_name(f, NEAR[i as usize])).collect()),
                _ => (tree, funcs),
            };
            let tree = if coin(&mut r, 0.3) { padded(&tree, &mut r) } else { tree };
            if cx.wants(&["C16"]) {
                traversal(cx, &tree, r.next_u64());
            } else {
                whole(cx, l, &tree, &funcs, &mut r);
            }
        }
    }
}

/// members without content, as compilers write them
fn padded(v: &Value, r: &mut Pcg64) -> Value {
    match v {
        Value::Object(m) => {
            let mut o: serde_json::Map<String, Value> = m.iter().map(|(k, c)| (k.clone(), padded(c, r))).collect();
            for (k, e) in [("vNull", json!(null)), ("aEmpty", json!([])), ("zEmpty", json!({})), ("emptyText", json!("")), ("no", json!(false)), ("zero", json!(0))] { if coin(r, 0.15) { o.insert(k.into(), e); } }
            Value::Object(o)
        }
        Value::Array(a) => Value::Array(a.iter().map(|c| padded(c, r)).collect()),
        _ => v.clone(),
    }
}
/// names that are easily mistaken for each other
const NEAR: &[[&str; 4]] = &[["alpha", "Alpha", "alpha2", "xalpha"], ["SET", "setX", "set", "Set"], ["a", "b", "ab", "ba"], ["f$", "f", "f_", "_f"], ["", "receive", "f", "fallback"], [" f", "f", "f ", "ff"]];
fn new_name(n: &str, to: [&str; 4]) -> String {
    FUNCS.iter().position(|f| *f == n).map_or(n, |i| to[i]).to_string()
}
fn renamed(v: &Value, to: [&str; 4]) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.iter().map(|(k, c)| (k.clone(), match c { Value::String(n) if k == "name" => json!(new_name(n, to)), c => renamed(c, to) })).collect()),
        Value::Array(a) => Value::Array(a.iter().map(|c| renamed(c, to)).collect()),
        _ => v.clone(),
    }
}
/// A function whose only operator lies deep inside one statement.
fn deep(l: Lang, depth: usize) -> Value {
    match l {
        Lang::Sol => {
            let mut e = json!({"id": 20, "nodeType": "BinaryOperation", "operator": "+", "leftExpression": {"id": 21, "nodeType": "Identifier", "name": "a"}, "rightExpression": {"id": 22, "nodeType": "Identifier", "name": "b"}});
            for i in 0..depth { e = json!({"id": 100 + i, "nodeType": "TupleExpression", "components": [e]}); }
            json!({"id": 1, "nodeType": "SourceUnit", "nodes": [{"id": 2, "nodeType": "ContractDefinition", "name": "C", "contractKind": "contract", "nodes": [
                {"id": 3, "nodeType": "FunctionDefinition", "name": "alpha", "kind": "function", "body": {"id": 4, "nodeType": "Block", "statements": [
                    {"id": 5, "nodeType": "Continue"}, {"id": 6, "nodeType": "ExpressionStatement", "expression": e}]}}]}]})
        }
        Lang::Vy => {
            let mut e = json!({"node_id": 20, "ast_type": "BinOp", "op": {"node_id": 23, "ast_type": "Add"}, "left": {"node_id": 21, "ast_type": "Name", "id": "a"}, "right": {"node_id": 22, "ast_type": "Name", "id": "b"}});
            for i in 0..depth { e = json!({"node_id": 100 + i, "ast_type": "Tuple", "elements": [e]}); }
            json!({"contract_name": "a.vy", "ast": {"node_id": 1, "ast_type": "Module", "name": "a.vy", "body": [
                {"node_id": 3, "ast_type": "FunctionDef", "name": "alpha", "args": {"node_id": 8, "ast_type": "arguments", "args": [], "defaults": []}, "decorator_list": [], "returns": null, "body": [
                    {"node_id": 5, "ast_type": "Pass"}, {"node_id": 6, "ast_type": "Expr", "value": e}]}]}})
        }
    }
}
/// A tree with more nodes than a small machine integer counts.
fn big(cx: &mut Cx, l: Lang) {
    const N: usize = 70000;
    let lit = |i: usize| match l {
        Lang::Sol => json!({"id": i + 10, "nodeType": "Literal", "kind": "number", "value": "7", "typeDescriptions": {"typeString": "int_const 7"}}),
        Lang::Vy => json!({"node_id": i + 10, "ast_type": "Int", "value": 7}),
    };
    let a: Vec<Value> = (0..N).map(lit).collect();
    let tree = match l { Lang::Sol => json!({"id": 1, "nodeType": "SourceUnit", "nodes": a}), Lang::Vy => json!({"contract_name": "a.vy", "ast": {"node_id": 1, "ast_type": "Module", "body": a}}) };
    let lang = match l { Lang::Sol => Language::Solidity, Lang::Vy => Language::Vyper };
    let mut li = LanguageInterface::get_language_object_for_language(&lang).unwrap();
    let mt = MutationType::from_str("Integer").unwrap();
    let _ = li.select_mutators_for_mutation_types(&[mt]);
    let input = json!({"language": format!("{:?}", l), "tree": format!("a root with a list of {} number literals 7", N)});
    cx.case("a big tree", &input);
    let mut rng = Pcg64::seed_from_u64(3);
    let p = perms(&[]);
    let ast = wrap_ast(l, &tree);
    let got = match cx.guarded("C02", "count", &input, || li.count_mutable_nodes(&ast, &mut rng, &p)) {
        Ok(Ok(c)) => c.get(&mt).copied(),
        _ => { cx.fail("C02", "count", "counting failed", input); return; }
    };
    if got != Some(N) { cx.fail("C02", "count", &format!("{:?} candidates instead of {}", got, N), input.clone()); }
    let Ok(paths) = li.calculate_node_paths(&ast, &p) else { return };
    for i in [0, 255, 256, 65535, 65536, N - 1] {
        let res = cx.guarded("C02", "mutate", &input, || li.mutate_ast(&ast, &mt, i, &mut rng, &p, &paths));
        let Some(m) = res.ok().and_then(|x| x.ok()).and_then(|x| x.ast) else { cx.fail("C02", "mutate", &format!("candidate {} was not mutated", i), input.clone()); continue };
        let m = strip(l, &unwrap_ast(m));
        let at = |v: &Value, k: usize| match l { Lang::Sol => v["nodes"][k].clone(), Lang::Vy => v["ast"]["body"][k].clone() };
        let ch: Vec<usize> = (0..N).filter(|k| at(&m, *k) != at(&tree, *k)).collect();
        if ch != [i] { cx.fail("C02", "mutate", &format!("candidate {} was to be changed, but {:?} were", i, &ch[..ch.len().min(3)]), input.clone()); }
    }
}

// ------------------------------------------------------------------ permissions
fn obj_match(a: &PermissionObject, b: &PermissionObject) -> bool {
    use PermissionObject::*;
    match (a, b) {
        (Value(s, p), Value(t, q)) => s == t && p == q,
        (Value(_, _), Any(_)) => false,
        (Any(p), Value(_, q)) => p == q,
        (Any(p), Any(q)) => p == q,
    }
}
fn scope_match(a: &PermissionScope, b: &PermissionScope) -> bool {
    use PermissionScope::*;
    let perm = |o: &PermissionObject| match o { PermissionObject::Value(_, p) => p.clone(), PermissionObject::Any(p) => p.clone() };
    match (a, b) {
        (Type(x), Type(y)) | (Name(x), Name(y)) | (Children(x), Children(y)) => obj_match(x, y),
        (Any(p), Type(y)) | (Any(p), Name(y)) | (Any(p), Children(y)) => *p == perm(y),
        (Any(p), Any(q)) => p == q,
        _ => false,
    }
}
fn act_match(a: &PermissionAction, b: &PermissionAction) -> bool {
    use PermissionAction::*;
    match (a, b) {
        (Mutate(x), Mutate(y)) | (Visit(x), Visit(y)) => scope_match(x, y),
        _ => false,
    }
}
fn permission_table(cx: &mut Cx) {
    let mut objs = vec![];
    for p in [Permission::Allow, Permission::Deny] {
        objs.push(PermissionObject::Any(p.clone()));
        for n in ["alpha", "beta", "", "Alpha", "alpha ", "alph"] { objs.push(PermissionObject::Value(n.into(), p.clone())); }
    }
    let mut scopes = vec![PermissionScope::Any(Permission::Allow), PermissionScope::Any(Permission::Deny)];
    for o in &objs {
        scopes.push(PermissionScope::Type(o.clone()));
        scopes.push(PermissionScope::Name(o.clone()));
        scopes.push(PermissionScope::Children(o.clone()));
    }
    let mut acts = vec![];
    for s in &scopes {
        acts.push(PermissionAction::Mutate(s.clone()));
        acts.push(PermissionAction::Visit(s.clone()));
    }
    for a in &acts {
        for b in &acts {
            let input = json!({"stored": format!("{:?}", a), "asked": format!("{:?}", b)});
            cx.case("permission pair", &input);
            if a.matches(b) != act_match(a, b) {
                cx.fail("C01", "permission pair", &format!("matches = {}, expected {}", a.matches(b), act_match(a, b)), input);
            }
        }
    }
    {
        let names: Vec<String> = (0..700).map(|i| format!("f{}", i)).collect();
        let p = perms(&names);
        for i in [0, 1, 31, 63, 64, 127, 128, 255, 256, 511, 699] {
            let q = PermissionAction::Mutate(PermissionScope::Name(PermissionObject::Value(names[i].clone(), Permission::Allow)));
            let input = json!({"listed": "f0 to f699", "asked": names[i]});
            cx.case("long permission list", &input);
            if !p.have_permission(q) { cx.fail("C01", "long permission list", "not permitted", input); }
        }
    }
    let mut r = Pcg64::seed_from_u64(77);
    for _ in 0..400 {
        let mut p = Permissions::new();
        let mut model: Vec<PermissionAction> = vec![];
        for _ in 0..below(&mut r, 6) {
            let a = pick(&mut r, &acts).clone();
            if coin(&mut r, 0.8) { p.add_permission(a.clone()); model.push(a); }
            else if !model.is_empty() {
                let a = pick(&mut r, &model).clone();
                p.remove_permission(a.clone());
                let i = model.iter().position(|x| *x == a).unwrap();
                model.remove(i);
            }
        }
        let q = pick(&mut r, &acts).clone();
        let input = json!({"stored": format!("{:?}", model), "asked": format!("{:?}", q)});
        cx.case("permission list", &input);
        let want = model.iter().any(|a| act_match(a, &q));
        let got = p.have_permission(q);
        if got != want || p.len() != model.len() || p.is_empty() != model.is_empty() {
            cx.fail("C01", "permission list", &format!("have_permission = {}, expected {}", got, want), input);
        }
    }
}
pub fn perms(funcs: &[String]) -> Permissions {
    let mut p = Permissions::new();
    for f in funcs {
        p.add_permission(PermissionAction::Mutate(PermissionScope::Name(PermissionObject::Value(f.clone(), Permission::Allow))));
        p.add_permission(PermissionAction::Mutate(PermissionScope::Children(PermissionObject::Value(f.clone(), Permission::Allow))));
    }
    if funcs.is_empty() { p.add_permission(PermissionAction::Mutate(PermissionScope::Any(Permission::Allow))); }
    p.add_permission(PermissionAction::Visit(PermissionScope::Any(Permission::Allow)));
    p
}

// ------------------------------------------------------------------ traversal protocol
#[derive(Clone)]
struct Rec { seed: u64, stop_at: usize, visits: usize, log: Vec<String> }
fn key(v: &Value) -> String {
    let t = v.to_string();
    if t.len() > 60 { format!("{}..{}", t.chars().take(40).collect::<String>(), h(&t, 0)) } else { t }
}
fn h(t: &str, s: u64) -> u64 {
    let mut x = s ^ 0xcbf29ce484222325;
    for b in t.bytes() { x = (x ^ b as u64).wrapping_mul(0x100000001b3); }
    x
}
impl Rec {
    fn perm(&self, v: &Value) -> bool { self.seed == 0 || h(&key(v), self.seed) % 11 != 0 }
    fn kids(&self, v: &Value) -> bool { self.seed == 0 || h(&key(v), self.seed + 1) % 7 != 0 }
    fn vis(&mut self, v: &Value) -> bool { self.log.push(format!("visit {}", key(v))); self.visits += 1; self.visits == self.stop_at }
}
impl Visitor<Value> for Rec {
    fn on_enter(&mut self, n: &Value) { self.log.push(format!("enter {}", key(n))); }
    fn have_permission_to_visit(&self, n: &Value) -> bool { self.perm(n) }
    fn visit(&mut self, n: &Value) -> bool { self.vis(n) }
    fn visit_children(&mut self, n: &Value) -> bool { self.kids(n) }
    fn on_start_visit_children(&mut self, n: &Value) { self.log.push(format!("start {}", key(n))); }
    fn on_end_visit_children(&mut self, n: &Value) { self.log.push(format!("end {}", key(n))); }
    fn on_exit(&mut self, n: &Value) { self.log.push(format!("exit {}", key(n))); }
}
impl VisitorMut<Value> for Rec {
    fn on_enter(&mut self, n: &mut Value) { self.log.push(format!("enter {}", key(n))); }
    fn have_permission_to_visit(&self, n: &Value) -> bool { self.perm(n) }
    fn visit_mut(&mut self, n: &mut Value) -> bool { self.vis(n) }
    fn visit_children(&mut self, n: &mut Value) -> bool { self.kids(n) }
    fn on_start_visit_children(&mut self, n: &Value) { self.log.push(format!("start {}", key(n))); }
    fn on_end_visit_children(&mut self, n: &Value) { self.log.push(format!("end {}", key(n))); }
    fn on_exit(&mut self, n: &mut Value) { self.log.push(format!("exit {}", key(n))); }
}
fn model(v: &Value, x: &mut Rec) -> bool {
    x.log.push(format!("enter {}", key(v)));
    let mut stop = false;
    if x.perm(v) {
        stop = x.vis(v);
        if !stop && x.kids(v) {
            x.log.push(format!("start {}", key(v)));
            let kids: Vec<&Value> = match v { Value::Object(m) => m.values().collect(), Value::Array(a) => a.iter().collect(), _ => vec![] };
            for c in kids { if !stop { stop = model(c, x); } }
            x.log.push(format!("end {}", key(v)));
        }
    }
    x.log.push(format!("exit {}", key(v)));
    stop
}
fn traversal(cx: &mut Cx, tree: &Value, seed: u64) {
    let mut total = Rec { seed: 0, stop_at: 0, visits: 0, log: vec![] };
    model(tree, &mut total);
    for (s, stop) in [(0, 0), (seed | 1, 0), (0, 1 + (seed as usize) % total.visits.max(1)), (seed | 1, 1 + (seed as usize >> 8) % total.visits.max(1)), (0, 1), (0, total.visits)] {
        let start = Rec { seed: s, stop_at: stop, visits: 0, log: vec![] };
        let input = json!({"tree": tree, "policy_seed": s, "stop_at_visit": stop});
        cx.case("traversal", &input);
        let mut want = start.clone();
        let wr = model(tree, &mut want);
        let mut got = start.clone();
        match cx.guarded("C16", "traverse", &input, || ASTTraverser::traverse(tree, &mut got)) {
            Ok(gr) => {
                if gr != wr || got.log != want.log { cx.fail("C16", "traverse", &diff(&got.log, &want.log, gr, wr), input.clone()); }
            }
            Err(e) => cx.fail("C16", "traverse", &e, input.clone()),
        }
        let mut got = start.clone();
        let mut t = tree.clone();
        match cx.guarded("C16", "traverse_mut", &input, || ASTTraverser::traverse_mut(&mut t, &mut got)) {
            Ok(gr) => {
                if gr != wr || got.log != want.log { cx.fail("C16", "traverse_mut", &diff(&got.log, &want.log, gr, wr), input.clone()); }
                if t != *tree { cx.fail("C16", "traverse_mut", "the tree changed although the visitor changed nothing", input.clone()); }
            }
            Err(e) => cx.fail("C16", "traverse_mut", &e, input.clone()),
        }
    }
}
fn diff(a: &[String], b: &[String], ra: bool, rb: bool) -> String {
    let i = a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count();
    format!("event {}: got {:?}, expected {:?}; result {} expected {}", i, a.get(i), b.get(i), ra, rb)
}

// ------------------------------------------------------------------ whole mutation of a tree
#[derive(Clone, PartialEq, Debug)]
enum Step { K(String), I(usize) }
fn at<'a>(v: &'a Value, p: &[Step]) -> Option<&'a Value> {
    p.iter().try_fold(v, |v, s| match s { Step::K(k) => v.get(k), Step::I(i) => v.get(i) })
}
fn at_mut<'a>(v: &'a mut Value, p: &[Step]) -> Option<&'a mut Value> {
    let mut v = v;
    for s in p { v = match s { Step::K(k) => v.get_mut(k)?, Step::I(i) => v.get_mut(*i)? }; }
    Some(v)
}
/// every node in document order, with whether the function restriction lets it be mutated
fn nodes(v: &Value, funcs: &[String], inherited: bool, path: &mut Vec<Step>, out: &mut Vec<(Vec<Step>, bool)>) {
    let named = s(v, "name").map(|n| funcs.iter().any(|f| f == n)).unwrap_or(false);
    let ok = funcs.is_empty() || inherited || named;
    out.push((path.clone(), ok));
    match v {
        Value::Object(m) => for (k, c) in m { path.push(Step::K(k.clone())); nodes(c, funcs, ok, path, out); path.pop(); },
        Value::Array(a) => for (i, c) in a.iter().enumerate() { path.push(Step::I(i)); nodes(c, funcs, ok, path, out); path.pop(); },
        _ => {}
    }
}
fn id_of(l: Lang, v: &Value) -> Option<u64> {
    v.get(key_of(l).1).and_then(|x| x.as_i64()).map(|x| x as u64)
}
fn id_paths(l: Lang, v: &Value, cur: &mut Vec<u64>, out: &mut HashMap<u64, Vec<u64>>) {
    let id = id_of(l, v);
    if let Some(i) = id { cur.push(i); out.insert(i, cur.clone()); }
    match v {
        Value::Object(m) => for c in m.values() { id_paths(l, c, cur, out) },
        Value::Array(a) => for c in a { id_paths(l, c, cur, out) },
        _ => {}
    }
    if id.is_some() { cur.pop(); }
}
fn has_id(l: Lang, v: &Value, id: u64) -> bool {
    if id_of(l, v) == Some(id) { return true; }
    match v {
        Value::Object(m) => m.values().any(|c| has_id(l, c, id)),
        Value::Array(a) => a.iter().any(|c| has_id(l, c, id)),
        _ => false,
    }
}
fn find_mut<'a>(l: Lang, v: &'a mut Value, id: u64) -> Option<&'a mut Value> {
    if id_of(l, v) == Some(id) { return Some(v); }
    match v {
        Value::Object(m) => m.values_mut().find(|c| has_id(l, c, id)).and_then(|c| find_mut(l, c, id)),
        Value::Array(a) => a.iter_mut().find(|c| has_id(l, c, id)).and_then(|c| find_mut(l, c, id)),
        _ => None,
    }
}
fn ins(l: Lang, a: &mut Vec<Value>, c: &Value, id: u64) -> bool {
    match a.iter().position(|x| has_id(l, x, id)) { Some(i) => { a.insert(i, c.clone()); true } None => false }
}
/// the comment goes in front of the statement that holds the node, in the innermost enclosing statement list
fn insert(l: Lang, node: &mut Value, c: &Value, id: u64) -> bool {
    let (nt, _) = key_of(l);
    let Some(t) = s(node, nt).map(|x| x.to_string()) else { return false };
    let lists: &[&str] = match (l, t.as_str()) {
        (Lang::Vy, "For" | "FunctionDef" | "Module") => &["body"],
        (Lang::Vy, "If") => &["body", "orelse"],
        (Lang::Sol, "Block" | "UncheckedBlock") => &["statements"],
        (Lang::Sol, "ContractDefinition") => &["nodes"],
        _ => &[],
    };
    for k in lists {
        if let Some(Value::Array(a)) = node.get_mut(*k) { if ins(l, a, c, id) { return true; } }
    }
    if l == Lang::Vy { return false; }
    let bodies: &[&str] = match t.as_str() {
        "DoWhileStatement" | "ForStatement" | "FunctionDefinition" | "ModifierDefinition" | "WhileStatement" => &["body"],
        "IfStatement" => &["trueBody", "falseBody"],
        "TryCatchClause" => &["block"],
        _ => &[],
    };
    for k in bodies {
        let Some(b) = node.get_mut(*k) else { continue };
        let Some(bt) = s(b, "nodeType") else { continue };
        if bt == "Block" {
            if b.get("id").and_then(|x| x.as_i64()) == Some(id as i64) {
                if let Some(Value::Array(a)) = b.get_mut("statements") { a.insert(0, c.clone()); }
                return true;
            }
            if let Some(Value::Array(a)) = b.get_mut("statements") { if ins(l, a, c, id) { return true; } }
        } else if has_id(l, b, id) {
            let old = b.take();
            *b = json!({"id": 9999994, "nodeType": "Block", "statements": [c.clone(), old]});
            return true;
        }
    }
    false
}
fn strip(l: Lang, v: &Value) -> Value {
    match v {
        Value::Object(m) if l == Lang::Sol && m.get("id") == Some(&json!(9999994)) => {
            let st = v["statements"].as_array().cloned().unwrap_or_default();
            if st.len() == 2 { strip(l, &st[1]) } else { v.clone() }
        }
        Value::Object(m) => Value::Object(m.iter().map(|(k, c)| (k.clone(), strip(l, c))).collect()),
        Value::Array(a) => Value::Array(a.iter().filter(|c| s(c, key_of(l).0) != Some("Comment")).map(|c| strip(l, c)).collect()),
        _ => v.clone(),
    }
}
fn unwrap_ast(a: SuperAST) -> Value {
    match a { SuperAST::Solidity(v) => v, SuperAST::Vyper(v) => v }
}
fn wrap_ast(l: Lang, v: &Value) -> SuperAST {
    match l { Lang::Sol => SuperAST::Solidity(v.clone()), Lang::Vy => SuperAST::Vyper(v.clone()) }
}
fn whole(cx: &mut Cx, l: Lang, tree: &Value, funcs: &[String], r: &mut Pcg64) {
    let lang = match l { Lang::Sol => Language::Solidity, Lang::Vy => Language::Vyper };
    let mut li = LanguageInterface::get_language_object_for_language(&lang).unwrap();
    let ts = types(l);
    let mts: Vec<MutationType> = ts.iter().map(|t| MutationType::from_str(t).unwrap()).collect();
    let _ = li.select_mutators_for_mutation_types(&mts);
    let p = perms(funcs);
    let base = json!({"language": format!("{:?}", l), "functions": funcs, "tree": tree});
    cx.case(&format!("{:?} tree", l), &base);
    let ast = wrap_ast(l, tree);
    let seed = r.next_u64();
    let restricted = !funcs.is_empty();
    let sel = if restricted { "C01" } else { "C02" };
    let mut rng = Pcg64::seed_from_u64(seed);
    let before = format!("{:?}", rng);
    let counts = match cx.guarded("C02", "count", &base, || li.count_mutable_nodes(&ast, &mut rng, &p)) {
        Ok(Ok(c)) => c,
        Ok(Err(e)) => { cx.fail("C02", "count", &format!("counting failed: {}", e), base); return; }
        Err(e) => { cx.fail("C02", "count", &format!("counting panicked: {}", e), base); return; }
    };
    if format!("{:?}", rng) != before { cx.fail("C02", "count", "counting consumed randomness", base.clone()); }
    let paths = match cx.guarded("C17", "paths", &base, || li.calculate_node_paths(&ast, &p)) {
        Ok(Ok(c)) => c,
        _ => { cx.fail("C17", "paths", "node paths could not be computed", base); return; }
    };
    let mut want_paths = HashMap::new();
    id_paths(l, tree, &mut vec![], &mut want_paths);
    if paths != want_paths {
        let bad = want_paths.iter().find(|(k, v)| paths.get(k) != Some(*v)).map(|x| *x.0);
        cx.fail("C17", "paths", &format!("path of node {:?} is {:?}, expected {:?}", bad, bad.and_then(|b| paths.get(&b)), bad.and_then(|b| want_paths.get(&b))), base.clone());
    }
    let mut all = vec![];
    nodes(tree, funcs, false, &mut vec![], &mut all);
    for (t, mt) in ts.iter().zip(mts.iter()) {
        let mut m = factory(l, t).unwrap();
        let cand: Vec<&Vec<Step>> = {
            let mut probe = Pcg64::seed_from_u64(1);
            all.iter().filter(|(q, ok)| *ok && m.is_mutable_node(at(tree, q).unwrap(), &mut probe)).map(|x| &x.0).collect()
        };
        let mut input = base.clone();
        input["algorithm"] = json!(t);
        let got = counts.get(mt).copied().unwrap_or(0);
        cx.case(&format!("{:?} {} count", l, t), &input);
        if got != cand.len() {
            let why = format!("{} candidates counted, {} nodes may be mutated", got, cand.len());
            cx.fail(sel, "count", &why, input.clone());
            if sel == "C01" { cx.fail("C02", "count", &why, input.clone()); }
            continue;
        }
        let picks: Vec<usize> = if cand.is_empty() { vec![] } else { vec![0, cand.len() - 1, below(r, cand.len() as u64) as usize, below(r, cand.len() as u64) as usize] };
        for idx in picks.into_iter().chain([cand.len(), cand.len() + 3]) {
            let seed = r.next_u64();
            let mut input = input.clone();
            input["index"] = json!(idx);
            input["rng_seed"] = json!(seed);
            let copy = tree.clone();
            let mut rng = Pcg64::seed_from_u64(seed);
            let res = cx.guarded("C02,C03,C17", "mutate", &input, || li.mutate_ast(&ast, mt, idx, &mut rng, &p, &paths));
            let res = match res { Ok(x) => x, Err(e) => { cx.fail("C02", "mutate", &format!("panicked: {}", e), input); continue } };
            match &ast { SuperAST::Solidity(v) | SuperAST::Vyper(v) => if *v != copy { cx.fail("C03", "mutate", "the original tree changed", input.clone()); } }
            if idx >= cand.len() {
                match res {
                    Ok(x) => {
                        if x.ast.map(unwrap_ast).as_ref() != Some(tree) {
                            cx.fail("C02", "mutate", "a tree was mutated for an index that is not a candidate", input.clone());
                            cx.fail(sel, "mutate", "a tree was mutated for an index that is not a candidate", input);
                        }
                    }
                    Err(e) => cx.fail("C02", "mutate", &format!("failed: {}", e), input),
                }
                continue;
            }
            cx.case(&format!("{:?} {} mutate", l, t), &input);
            // what the same mutator does to the node on its own
            let mut expect = tree.clone();
            let mut rng = Pcg64::seed_from_u64(seed);
            let node = at_mut(&mut expect, cand[idx]).unwrap();
            let own = node.clone();
            let single = cx.guarded("C08", "mutate node", &input, || m.mutate(node, &mut rng));
            let (Ok(single), Ok(x)) = (match single { Ok(s) => s, Err(_) => continue }, res) else { continue };
            let target = single.mutated_node_id.or_else(|| id_of(l, at(&expect, cand[idx]).unwrap())).unwrap_or(0);
            let without = expect.clone();
            if let (Some(c), Some(path)) = (m.get_comment_node(), want_paths.get(&target)) {
                for a in path.iter().rev().skip(1) {
                    if let Some(n) = find_mut(l, &mut expect, *a) { if insert(l, n, &c, target) { break; } }
                }
            }
            if x.mutator_result.index != Some(idx) || x.mutator_result.mutation_type != Some(*mt) || x.mutator_result.mutated_node_id != single.mutated_node_id || x.mutator_result.random_behavior_hash != single.random_behavior_hash {
                cx.fail("C02", "mutate", &format!("the mutation is described as {:?}", x.mutator_result), input.clone());
            }
            let Some(out) = x.ast.map(unwrap_ast) else { cx.fail("C02", "mutate", "no tree", input); continue };
            if out != expect {
                input["got"] = out.clone();
                if strip(l, &out) == without {
                    cx.fail("C17", "mutate", "the comment is not in front of the statement holding the mutated node", input);
                    continue;
                }
                // which node did change?
                let stripped = strip(l, &out);
                let changed = first_change(tree, &stripped);
                let okp = all.iter().any(|(q, ok)| *ok && changed.len() >= q.len() && changed[..q.len()] == q[..]);
                if !okp { cx.fail("C01", "mutate", &format!("a node outside the listed functions changed: {:?}", changed), input.clone()); }
                let at_target = changed.len() >= cand[idx].len() && changed[..cand[idx].len()] == cand[idx][..];
                if !at_target || own == *at(&stripped, cand[idx]).unwrap_or(&Value::Null) {
                    cx.fail("C02", "mutate", &format!("candidate {} is at {:?}, the change is at {:?}", idx, cand[idx], changed), input.clone());
                }
                cx.fail("C03", "mutate", &format!("the mutant differs from the original in more than candidate {} and the comment; first difference at {:?}", idx, changed), input);
            }
        }
    }
}
/// the path of the first difference
fn first_change(a: &Value, b: &Value) -> Vec<Step> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) if x.keys().eq(y.keys()) => {
            for (k, v) in x { if *v != y[k] { let mut p = vec![Step::K(k.clone())]; p.extend(first_change(v, &y[k])); return p; } }
            vec![]
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => {
            for (i, v) in x.iter().enumerate() { if *v != y[i] { let mut p = vec![Step::I(i)]; p.extend(first_change(v, &y[i])); return p; } }
            vec![]
        }
        _ => vec![],
    }
}
