//! The documented behaviour of each algorithm, as executable relations (compare verus/sol_spec.vrs, verus/vy_spec.vrs).
use crate::util::*;
use serde_json::{json, Value};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Lang {
    Sol,
    Vy,
}
pub const ARITH: &[&str] = &["+", "-", "*", "/", "%", "**"];
pub const LOGIC: &[&str] = &["&&", "||"];
pub const BITW: &[&str] = &["&", "|", "^"];
pub const SHIFT: &[&str] = &["<<", ">>"];
pub const CMP: &[&str] = &["==", "!=", ">", "<", ">=", "<="];
pub const NONCOMM: &[&str] = &["-", "/", "%", "**", ">", "<", "<=", ">=", "<<", ">>"];
pub const VYOPS: &[(&str, &str)] = &[
    ("Add", "+"), ("Sub", "-"), ("Mult", "*"), ("Div", "/"), ("Mod", "%"), ("Pow", "**"), ("And", "&&"), ("Or", "||"), ("BitAnd", "&"), ("BitOr", "|"),
    ("BitXor", "^"), ("Eq", "=="), ("NotEq", "!="), ("Gt", ">"), ("GtE", ">="), ("Lt", "<"), ("LtE", "<="), ("Not", "!"), ("Invert", "~"), ("In", "in"), ("NotIn", "not in"), ("FloorDiv", "//"), ("LShift", "<<"), ("RShift", ">>"),
];
pub const GENERIC: &[&str] = &[
    "ArithmeticBinaryOp", "LogicalBinaryOp", "BitwiseBinaryOp", "BitshiftBinaryOp", "ComparisonBinaryOp", "Assignment", "DeleteStatement", "FunctionCall", "IfStatement",
    "Integer", "SwapFunctionArguments", "SwapOperatorArguments", "SwapLines", "UnaryOp",
];
pub const SOLONLY: &[&str] = &["Require", "UncheckedBlock", "ElimDelegateCall"];

pub fn family(t: &str) -> Option<&'static [&'static str]> {
    Some(match t {
        "ArithmeticBinaryOp" => ARITH,
        "LogicalBinaryOp" => LOGIC,
        "BitwiseBinaryOp" => BITW,
        "BitshiftBinaryOp" => SHIFT,
        "ComparisonBinaryOp" => CMP,
        _ => return None,
    })
}
pub fn vyop(name: &str) -> Option<&'static str> {
    VYOPS.iter().find(|(a, _)| *a == name).map(|(_, b)| *b)
}
fn nt(v: &Value, t: &str) -> bool {
    s(v, "nodeType") == Some(t)
}
fn at(v: &Value, t: &str) -> bool {
    s(v, "ast_type") == Some(t)
}
pub fn type_string(v: &Value) -> Option<&str> {
    v.get("typeDescriptions").and_then(|d| s(d, "typeString"))
}
pub fn type_bits(ts: &str, p: &str) -> Option<u32> {
    ts.strip_prefix(p).and_then(|r| r.parse::<u32>().ok()).filter(|n| (8..=256).contains(n))
}
pub fn key_of(l: Lang) -> (&'static str, &'static str) {
    match l {
        Lang::Sol => ("nodeType", "id"),
        Lang::Vy => ("ast_type", "node_id"),
    }
}
pub fn rep_id(l: Lang, v: &Value) -> Option<u64> {
    v.get(key_of(l).1).and_then(|x| x.as_i64()).map(|x| x as u64)
}
fn printed_stub(st: &Value) -> bool {
    let name = if at(st, "Expr") { st.get("value").and_then(|x| s(x, "id")) } else { s(st, "id") };
    matches!(name, Some("view") | Some("nonpayable") | Some("payable"))
}
pub fn mutable(l: Lang, t: &str, v: &Value) -> bool {
    match l {
        Lang::Sol => sol_mutable(t, v),
        Lang::Vy => vy_mutable(t, v),
    }
}
fn sol_mutable(t: &str, v: &Value) -> bool {
    let stmts = arr(v, "statements");
    let args = arr(v, "arguments");
    match t {
        "UnaryOp" => {
            let (Some(p), Some(o)) = (v.get("prefix").and_then(|x| x.as_bool()), s(v, "operator")) else { return false };
            nt(v, "UnaryOperation") && (if p { ["++", "--", "~"].contains(&o) } else { ["++", "--"].contains(&o) })
        }
        "Assignment" => nt(v, "Assignment") && type_string(v).map_or(false, |ts| ts == "bool" || type_bits(ts, "int").is_some() || type_bits(ts, "uint").is_some()),
        "DeleteStatement" => nt(v, "Block") && stmts.map_or(false, |a| a.len() > 1 && a.iter().any(|x| nt(x, "ExpressionStatement"))),
        "FunctionCall" => nt(v, "FunctionCall") && args.map_or(false, |a| a.iter().any(|x| !nt(x, "Literal"))),
        "SwapFunctionArguments" => {
            nt(v, "FunctionCall")
                && args.map_or(false, |a| {
                    (0..a.len()).any(|i| (i + 1..a.len()).any(|j| type_string(&a[i]).is_some() && type_string(&a[i]) == type_string(&a[j])))
                })
        }
        "IfStatement" => nt(v, "IfStatement") && v.get("condition").map_or(false, |c| !c.is_null()),
        "Integer" => nt(v, "Literal") && s(v, "kind") == Some("number") && s(v, "value").map_or(false, |x| !x.contains('.')),
        "SwapOperatorArguments" => nt(v, "BinaryOperation") && s(v, "operator").map_or(false, |o| NONCOMM.contains(&o)),
        "SwapLines" => nt(v, "Block") && stmts.map_or(false, |a| a.iter().filter(|x| !nt(x, "Return")).count() >= 2),
        "Require" => nt(v, "FunctionCall") && v.get("expression").map_or(false, |e| s(e, "name") == Some("require")) && args.map_or(false, |a| !a.is_empty()),
        "UncheckedBlock" => nt(v, "Block") && stmts.map_or(false, |a| a.iter().any(|x| !nt(x, "Return") && !nt(x, "UncheckedBlock"))),
        "ElimDelegateCall" => nt(v, "MemberAccess") && s(v, "memberName") == Some("delegatecall"),
        _ => nt(v, "BinaryOperation") && s(v, "operator").map_or(false, |o| family(t).unwrap().contains(&o)),
    }
}
fn vy_op(v: &Value) -> Option<&'static str> {
    v.get("op").and_then(|o| s(o, "ast_type")).and_then(vyop)
}
fn vy_mutable(t: &str, v: &Value) -> bool {
    let body = arr(v, "body");
    let binlike = at(v, "BinOp") || at(v, "BoolOp") || at(v, "Compare");
    match t {
        "UnaryOp" => at(v, "UnaryOp"),
        "Assignment" => at(v, "Assign"),
        "DeleteStatement" => {
            (at(v, "FunctionDef") || at(v, "For") || at(v, "If") || at(v, "Module")) && body.map_or(false, |b| !b.is_empty() && !(b.len() == 1 && printed_stub(&b[0])))
        }
        "FunctionCall" => at(v, "Call") && arr(v, "args").map_or(false, |a| !a.is_empty()),
        "SwapFunctionArguments" => at(v, "Call") && arr(v, "args").map_or(false, |a| a.len() >= 2),
        "IfStatement" => at(v, "If") && v.get("test").is_some(),
        "Integer" => at(v, "Int"),
        "SwapOperatorArguments" => binlike && vy_op(v).map_or(false, |o| NONCOMM.contains(&o)),
        "SwapLines" => (at(v, "FunctionDef") || at(v, "For") || at(v, "If")) && body.map_or(false, |b| b.iter().filter(|x| !at(x, "Return")).count() >= 2),
        "Require" | "UncheckedBlock" | "ElimDelegateCall" => false,
        _ => binlike && vy_op(v).map_or(false, |o| family(t).unwrap().contains(&o)),
    }
}
/// children every compiler-produced node of that kind has and that candidate selection does not look at
pub fn sane(l: Lang, t: &str, v: &Value) -> bool {
    match (l, t) {
        (Lang::Sol, "Assignment") => v.get("rightHandSide").is_some(),
        (Lang::Sol, "SwapOperatorArguments") => v.get("leftExpression").is_some() && v.get("rightExpression").is_some(),
        (Lang::Vy, "Assignment") => v.get("value").is_some(),
        (Lang::Vy, "UnaryOp") => v.get("operand").is_some(),
        (Lang::Vy, "SwapOperatorArguments") if at(v, "BoolOp") => arr(v, "values").map_or(false, |x| x.len() > 1),
        (Lang::Vy, "SwapOperatorArguments") => v.get("left").is_some() && v.get("right").is_some(),
        _ => true,
    }
}
type R = Result<(), (&'static str, String)>;
fn no<T>(p: &'static str, m: impl Into<String>) -> Result<T, (&'static str, String)> {
    Err((p, m.into()))
}
/// b is a with key k replaced
fn only(a: &Value, b: &Value, k: &str) -> R {
    match b.get(k) {
        Some(x) if *b == with(a, k, x.clone()) => Ok(()),
        _ => no("C03", format!("more than \"{}\" of the node changed", k)),
    }
}
fn swap_of(a: &[Value], b: &[Value], ok: impl Fn(usize, usize) -> bool) -> R {
    if a.len() != b.len() {
        return no("C05", "number of elements changed");
    }
    for i in 0..a.len() {
        for j in i + 1..a.len() {
            if ok(i, j) {
                let mut c = a.to_vec();
                c.swap(i, j);
                if c == b {
                    return Ok(());
                }
            }
        }
    }
    no("C05", "not an exchange of two admissible elements")
}
fn sol_bool(n: &Value) -> bool {
    nt(n, "Literal") && s(n, "kind") == Some("bool") && matches!(s(n, "value"), Some("true") | Some("false"))
}
fn sol_neg(n: &Value, c: &Value) -> bool {
    nt(n, "UnaryOperation") && s(n, "operator") == Some("!") && n.get("prefix") == Some(&json!(true))
        && n.get("subExpression").map_or(false, |e| nt(e, "TupleExpression") && arr(e, "components").map_or(false, |x| x.len() == 1 && x[0] == *c))
}
/// position of the only element that differs, if there is exactly one
fn one_diff(a: &[Value], b: &[Value]) -> Option<usize> {
    if a.len() != b.len() {
        return None;
    }
    let d: Vec<usize> = (0..a.len()).filter(|i| a[*i] != b[*i]).collect();
    if d.len() == 1 { Some(d[0]) } else { None }
}
fn id_is(l: Lang, id: Option<u64>, v: &Value) -> R {
    if id == rep_id(l, v) { Ok(()) } else { no("C17", format!("reported node id {:?}, node has {:?}", id, rep_id(l, v))) }
}
/// is the decimal text in [lo, hi) with bounds 2^bits (None: unbounded check by string length)
fn dec_in(text: &str, signed: bool, bits: u32) -> bool {
    let (neg, digits) = match text.strip_prefix('-') { Some(d) => (true, d), None => (false, text) };
    if digits.is_empty() || !digits.bytes().all(|c| c.is_ascii_digit()) || (neg && !signed) {
        return false;
    }
    if signed {
        if bits > 128 { return text.parse::<i128>().is_ok(); }
        match text.parse::<i128>() {
            Ok(x) => bits == 128 || (x >= -(1i128 << (bits - 1)) && x < (1i128 << (bits - 1))),
            Err(_) => false,
        }
    } else {
        match text.parse::<u128>() {
            Ok(x) => bits >= 128 || x < (1u128 << bits),
            Err(_) => false,
        }
    }
}
pub fn rel(l: Lang, t: &str, a: &Value, b: &Value, id: Option<u64>) -> R {
    match l {
        Lang::Sol => sol_rel(t, a, b, id),
        Lang::Vy => vy_rel(t, a, b, id),
    }
}
fn sol_rel(t: &str, a: &Value, b: &Value, id: Option<u64>) -> R {
    let l = Lang::Sol;
    match t {
        "UnaryOp" => {
            only(a, b, "operator")?;
            let set: &[&str] = if a["prefix"] == json!(true) { &["++", "--", "~"] } else { &["++", "--"] };
            match s(b, "operator") {
                Some(o) if set.contains(&o) && Some(o) != s(a, "operator") => {}
                o => return no("C04", format!("{:?} -> {:?}", s(a, "operator"), o)),
            }
            id_is(l, id, a)
        }
        "Assignment" => {
            only(a, b, "rightHandSide")?;
            let ts = type_string(a).unwrap();
            let n = &b["rightHandSide"];
            let ok = if ts == "bool" {
                sol_bool(n)
            } else {
                let num = nt(n, "Literal") && s(n, "kind") == Some("number");
                let v = s(n, "value").unwrap_or("");
                num && match (type_bits(ts, "int"), type_bits(ts, "uint")) {
                    (Some(k), _) => dec_in(v, true, k),
                    (_, Some(k)) => dec_in(v, false, k),
                    _ => true,
                }
            };
            if !ok {
                return no("C07", format!("value {} for type {}", n, ts));
            }
            id_is(l, id, a)
        }
        "DeleteStatement" => {
            only(a, b, "statements")?;
            let (x, y) = (arr(a, "statements").unwrap(), b["statements"].as_array());
            let Some(i) = y.and_then(|y| one_diff(x, y)) else { return no("C03", "not exactly one statement changed") };
            let c = &b["statements"][i];
            if !(nt(&x[i], "ExpressionStatement") && nt(c, "Comment") && c.get("value") == Some(&x[i])) {
                return no("C06", "the statement was not an expression statement turned into a comment");
            }
            id_is(l, id, &x[i])
        }
        "FunctionCall" => {
            let x = arr(a, "arguments").unwrap();
            if !x.iter().any(|e| e == b && !nt(e, "Literal")) {
                return no("C06", "the call was not replaced by one of its non-literal arguments");
            }
            id_is(l, id, b)
        }
        "SwapFunctionArguments" => {
            only(a, b, "arguments")?;
            let x = arr(a, "arguments").unwrap();
            let Some(y) = arr(b, "arguments") else { return no("C05", "arguments gone") };
            swap_of(x, y, |i, j| type_string(&x[i]).is_some() && type_string(&x[i]) == type_string(&x[j]))?;
            id_is(l, id, a)
        }
        "IfStatement" => {
            only(a, b, "condition")?;
            if !(sol_bool(&b["condition"]) || sol_neg(&b["condition"], &a["condition"])) {
                return no("C06", "condition is neither true, false nor the negation");
            }
            id_is(l, id, a)
        }
        "Integer" => {
            only(a, b, "value")?;
            let (x, y) = (s(a, "value").unwrap(), s(b, "value").unwrap_or(""));
            let near = x.parse::<i128>().map_or(false, |n| y == (n.saturating_add(1)).to_string() || y == (n.saturating_sub(1)).to_string());
            if !(near || y.parse::<u64>().is_ok()) {
                return no("C07", format!("{} -> {}", x, y));
            }
            id_is(l, id, a)
        }
        "SwapOperatorArguments" => {
            let e = with(&with(a, "leftExpression", a["rightExpression"].clone()), "rightExpression", a["leftExpression"].clone());
            if *b != e {
                return no("C05", "operands not exchanged");
            }
            id_is(l, id, a)
        }
        "SwapLines" => {
            only(a, b, "statements")?;
            let x = arr(a, "statements").unwrap();
            let Some(y) = arr(b, "statements") else { return no("C05", "statements gone") };
            swap_of(x, y, |i, j| !nt(&x[i], "Return") && !nt(&x[j], "Return"))?;
            id_is(l, id, a)
        }
        "Require" => {
            only(a, b, "arguments")?;
            let x = arr(a, "arguments").unwrap();
            let Some(y) = arr(b, "arguments") else { return no("C06", "arguments gone") };
            if x.len() != y.len() || x[1..] != y[1..] {
                return no("C03", "other arguments changed");
            }
            if !sol_neg(&y[0], &x[0]) {
                return no("C06", "not the negation of the condition");
            }
            id_is(l, id, a)
        }
        "UncheckedBlock" => {
            only(a, b, "statements")?;
            let x = arr(a, "statements").unwrap();
            let Some(i) = b["statements"].as_array().and_then(|y| one_diff(x, y)) else { return no("C03", "not exactly one statement changed") };
            let c = &b["statements"][i];
            if !(!nt(&x[i], "Return") && !nt(&x[i], "UncheckedBlock") && nt(c, "UncheckedBlock") && arr(c, "statements").map_or(false, |z| z.len() == 1 && z[0] == x[i])) {
                return no("C06", "the statement was not wrapped");
            }
            if rep_id(l, &x[i]).is_some() { id_is(l, id, &x[i]) } else { Ok(()) }
        }
        "ElimDelegateCall" => {
            if *b != with(a, "memberName", json!("call")) {
                return no("C06", "delegatecall not replaced by call");
            }
            id_is(l, id, a)
        }
        _ => {
            only(a, b, "operator")?;
            match s(b, "operator") {
                Some(o) if family(t).unwrap().contains(&o) && Some(o) != s(a, "operator") => {}
                o => return no("C04", format!("{:?} -> {:?}", s(a, "operator"), o)),
            }
            id_is(l, id, a)
        }
    }
}
fn vy_bool(n: &Value) -> bool {
    at(n, "NameConstant") && n.get("value").map_or(false, |x| x.is_boolean())
}
fn vy_rel(t: &str, a: &Value, b: &Value, id: Option<u64>) -> R {
    let l = Lang::Vy;
    match t {
        "UnaryOp" => {
            if Some(b) != a.get("operand") {
                return no("C06", "not replaced by its operand");
            }
            id_is(l, id, b)
        }
        "Assignment" => {
            only(a, b, "value")?;
            let n = &b["value"];
            let ok = vy_bool(n)
                || (at(n, "Int") && n["value"].is_number() && n["value"].as_f64().map_or(false, |x| x >= -1.7014118346046924e38 && x <= 3.4028236692093847e38))
                || (at(n, "Decimal") && s(n, "value").and_then(|x| x.parse::<f64>().ok()).map_or(false, |x| x.abs() <= 18707220957835557353007165858768422651596.0));
            if !ok {
                return no("C07", format!("replacement {}", n));
            }
            id_is(l, id, a)
        }
        "DeleteStatement" => {
            only(a, b, "body")?;
            let x = arr(a, "body").unwrap();
            let Some(y) = arr(b, "body") else { return no("C06", "body gone") };
            if y.len() < x.len() || (x.len() > 1 && y.len() != x.len()) || y.len() > x.len() + 1 {
                return no("C03", "unexpected number of statements");
            }
            let Some(i) = one_diff(x, &y[..x.len()]) else { return no("C03", "not exactly one statement changed") };
            if !(at(&y[i], "Comment") && y[i].get("value") == Some(&x[i])) {
                return no("C06", "the statement was not turned into a comment");
            }
            if x.len() == 1 {
                let ret = a.get("returns").cloned().unwrap_or(Value::Null);
                let want = vy_filler(&ret);
                let got = y.get(1);
                let good = match want {
                    "pass" => got.map_or(false, |g| at(g, "Pass")),
                    "bool" => got.map_or(false, |g| at(g, "Return") && vy_bool(&g["value"])),
                    "int" => got.map_or(false, |g| at(g, "Return") && at(&g["value"], "Int") && g["value"]["value"].as_i64().map_or(false, |n| (-10..=10).contains(&n))),
                    "uint" => got.map_or(false, |g| at(g, "Return") && at(&g["value"], "Int") && g["value"]["value"].as_i64().map_or(false, |n| (0..=10).contains(&n))),
                    "str" => got.map_or(false, |g| at(g, "Return") && at(&g["value"], "Str")),
                    "list" => got.map_or(false, |g| {
                        at(g, "Return") && g["value"]["ast_type"] == ret["ast_type"]
                            && arr(&g["value"], "elements").map_or(false, |e| Some(e.len()) == arr(&ret, "elements").map(|r| r.len()) && e.iter().all(|n| at(n, "NameConstant") && n["value"].is_null()))
                    }),
                    _ => true,
                };
                if !good {
                    return no("C06", format!("body of a {} function became {:?}", want, got));
                }
            }
            id_is(l, id, &x[i])
        }
        "FunctionCall" => {
            if !arr(a, "args").unwrap().iter().any(|e| e == b) {
                return no("C06", "the call was not replaced by one of its arguments");
            }
            id_is(l, id, b)
        }
        "SwapFunctionArguments" => {
            only(a, b, "args")?;
            let x = arr(a, "args").unwrap();
            let Some(y) = arr(b, "args") else { return no("C05", "args gone") };
            swap_of(x, y, |_, _| true)?;
            id_is(l, id, a)
        }
        "IfStatement" => {
            only(a, b, "test")?;
            let n = &b["test"];
            let neg = at(n, "UnaryOp") && n.get("op").map_or(false, |o| at(o, "Not")) && n.get("operand") == a.get("test");
            if !(vy_bool(n) || neg) {
                return no("C06", "test is neither True, False nor the negation");
            }
            id_is(l, id, a)
        }
        "Integer" => {
            only(a, b, "value")?;
            if b["value"].as_i64().is_none() {
                return no("C07", format!("{} -> {}", a["value"], b["value"]));
            }
            id_is(l, id, a)
        }
        "SwapOperatorArguments" => {
            let e = if at(a, "BoolOp") {
                let mut v = arr(a, "values").unwrap().clone();
                v.swap(0, 1);
                with(a, "values", Value::Array(v))
            } else {
                with(&with(a, "left", a["right"].clone()), "right", a["left"].clone())
            };
            if *b != e {
                return no("C05", "operands not exchanged");
            }
            id_is(l, id, a)
        }
        "SwapLines" => {
            only(a, b, "body")?;
            let x = arr(a, "body").unwrap();
            let Some(y) = arr(b, "body") else { return no("C05", "body gone") };
            swap_of(x, y, |i, j| !at(&x[i], "Return") && !at(&x[j], "Return"))?;
            id_is(l, id, a)
        }
        _ => {
            only(a, b, "op")?;
            only(&a["op"], &b["op"], "ast_type")?;
            match vy_op(b) {
                Some(o) if family(t).unwrap().contains(&o) && Some(o) != vy_op(a) => {}
                o => return no("C04", format!("{:?} -> {:?}", vy_op(a), o)),
            }
            id_is(l, id, a)
        }
    }
}
/// what a Vyper function body that lost its only statement needs
fn vy_filler(ret: &Value) -> &'static str {
    match s(ret, "ast_type") {
        None => "pass",
        Some("Name") => match s(ret, "id") {
            None => "any",
            Some(i) => match i.get(..3).unwrap_or("") {
                "boo" => "bool",
                "uin" => "uint",
                "int" => "int",
                "str" => "str",
                _ => "pass",
            },
        },
        Some("Tuple") | Some("List") => if arr(ret, "elements").is_some() { "list" } else { "any" },
        _ => "any",
    }
}
