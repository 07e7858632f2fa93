//! Generators of syntax trees in the shape the compilers produce.
use crate::spec::*;
use crate::util::*;
use rand::RngCore;
use rand_pcg::Pcg64;
use serde_json::{json, Value};

pub struct G {
    pub next_id: u64,
}
const TYPES: &[&str] = &["uint256", "uint8", "int256", "int8", "bool", "address", "string memory", "uint128", "int128", "uint64", "bytes32", "struct S memory", "struct T memory", "struct S storage pointer", "bytes memory", "bytes calldata", "int_const 1", "int_const 2"];
pub const FUNCS: &[&str] = &["alpha", "beta", "gamma", "delta"];
impl G {
    pub fn new() -> G {
        G { next_id: 1 }
    }
    pub fn id(&mut self) -> u64 {
        self.next_id += 1;
        self.next_id
    }
    fn td(&self, t: &str) -> Value {
        json!({"typeIdentifier": format!("t_{}", t.replace(' ', "_")), "typeString": t})
    }
    // ---------------- Solidity ----------------
    pub fn sol_leaf(&mut self, r: &mut Pcg64) -> Value {
        let id = self.id();
        match below(r, 4) {
            0 => {
                let v = match below(r, 6) { 0 => "0".to_string(), 1 => r.next_u64().to_string(), 2 => "0x1F".into(), 3 => "1e18".into(), 4 => "1_000".into(), _ => below(r, 300).to_string() };
                json!({"id": id, "nodeType": "Literal", "kind": "number", "value": v, "typeDescriptions": self.td(pick(r, &["int_const 1", "uint256"])), "src": "0:0:0"})
            }
            1 => json!({"id": id, "nodeType": "Literal", "kind": "bool", "value": *pick(r, &["true", "false"]), "typeDescriptions": self.td("bool"), "src": "0:0:0"}),
            _ => {
                let n = ["a", "b", "c", "count", "owner", "alpha", "gamma"];
                json!({"id": id, "nodeType": "Identifier", "name": *pick(r, &n), "typeDescriptions": self.td(pick(r, TYPES)), "src": "0:0:0", "overloadedDeclarations": []})
            }
        }
    }
    pub fn sol_expr(&mut self, r: &mut Pcg64, d: u32) -> Value {
        if d == 0 {
            return self.sol_leaf(r);
        }
        match below(r, 8) {
            0 | 1 => self.sol_node("ArithmeticBinaryOp", r, d - 1),
            2 => self.sol_node(pick(r, &["LogicalBinaryOp", "BitwiseBinaryOp", "BitshiftBinaryOp", "ComparisonBinaryOp"]), r, d - 1),
            3 => self.sol_node("UnaryOp", r, d - 1),
            4 => self.sol_node("FunctionCall", r, d - 1),
            5 => self.sol_node("ElimDelegateCall", r, d - 1),
            _ => self.sol_leaf(r),
        }
    }
    pub fn sol_stmt(&mut self, r: &mut Pcg64, d: u32) -> Value {
        let id = self.id();
        match below(r, 13) {
            9 if d > 0 => {
                let body = if coin(r, 0.5) { self.sol_block(r, d - 1) } else { self.sol_expr_stmt(r, 1) };
                let mut v = json!({"id": id, "nodeType": "ForStatement", "initializationExpression": self.sol_expr_stmt(r, 1), "condition": self.sol_expr(r, 1), "loopExpression": self.sol_expr_stmt(r, 0), "body": body});
                for k in ["initializationExpression", "condition", "loopExpression"] { if coin(r, 0.35) { v.as_object_mut().unwrap().remove(k); } }
                v
            }
            10 if d > 0 => {
                let body = if coin(r, 0.7) { self.sol_block(r, d - 1) } else { self.sol_expr_stmt(r, 1) };
                json!({"id": id, "nodeType": *pick(r, &["DoWhileStatement", "WhileStatement"]), "condition": self.sol_expr(r, 1), "body": body})
            }
            11 if d > 0 => {
                let c = json!({"id": self.id(), "nodeType": "IfStatement", "condition": self.sol_expr(r, 1), "trueBody": self.sol_expr_stmt(r, 1), "falseBody": if coin(r, 0.5) { self.sol_node("IfStatement", r, 0) } else { self.sol_expr_stmt(r, 1) }});
                c
            }
            12 if d > 0 => json!({"id": id, "nodeType": "TryStatement", "externalCall": self.sol_node("FunctionCall", r, 1), "clauses": [
                {"id": self.id(), "nodeType": "TryCatchClause", "errorName": "", "block": self.sol_block(r, d - 1)},
                {"id": self.id(), "nodeType": "TryCatchClause", "errorName": "Error", "block": self.sol_block(r, 0)}]}),
            0 => json!({"id": id, "nodeType": "Return", "expression": self.sol_expr(r, d.min(1)), "functionReturnParameters": 1}),
            1 if d > 0 => self.sol_node("IfStatement", r, d - 1),
            2 if d > 0 => {
                let body = self.sol_block(r, d - 1);
                json!({"id": id, "nodeType": "WhileStatement", "condition": self.sol_expr(r, 1), "body": body})
            }
            3 if d > 0 => {
                let st: Vec<Value> = (0..1 + below(r, 2)).map(|_| self.sol_expr_stmt(r, 1)).collect();
                json!({"id": id, "nodeType": "UncheckedBlock", "statements": st})
            }
            4 => json!({"id": id, "nodeType": "ExpressionStatement", "expression": self.sol_node("Assignment", r, 1)}),
            5 => json!({"id": id, "nodeType": "ExpressionStatement", "expression": self.sol_node("Require", r, 1)}),
            6 if d > 0 => self.sol_block(r, d - 1),
            _ => self.sol_expr_stmt(r, d.min(2)),
        }
    }
    pub fn sol_expr_stmt(&mut self, r: &mut Pcg64, d: u32) -> Value {
        let id = self.id();
        let e = match below(r, 4) { 0 => self.sol_node("UnaryOp", r, d), 1 => self.sol_node("FunctionCall", r, d), _ => self.sol_node("Assignment", r, d) };
        json!({"id": id, "nodeType": "ExpressionStatement", "expression": e})
    }
    pub fn sol_block(&mut self, r: &mut Pcg64, d: u32) -> Value {
        let id = self.id();
        let n = below(r, 5);
        let st: Vec<Value> = (0..n).map(|_| self.sol_stmt(r, d)).collect();
        json!({"id": id, "nodeType": "Block", "statements": st, "src": "0:0:0"})
    }
    /// a node of the kind algorithm t looks at; not always one it accepts
    pub fn sol_node(&mut self, t: &str, r: &mut Pcg64, d: u32) -> Value {
        let id = self.id();
        match t {
            "UnaryOp" => {
                let p = coin(r, 0.5);
                let o = *pick(r, &["++", "--", "~", "!", "-", "delete"]);
                json!({"id": id, "nodeType": "UnaryOperation", "operator": o, "prefix": p, "subExpression": self.sol_expr(r, d), "typeDescriptions": self.td("uint256")})
            }
            "Assignment" => {
                let ty = match below(r, 5) {
                    0 => "bool".to_string(),
                    1 => format!("uint{}", 8 * (1 + below(r, 32))),
                    2 => format!("int{}", 8 * (1 + below(r, 32))),
                    3 => (*pick(r, &["address", "uint256[]", "int256[2]", "string memory", "uint", "int", "uint512", "int0", "integer", "uint4", "u", "", "bool[] memory", "mapping(uint256 => bool)", "ééé"])).to_string(),
                    _ => (*pick(r, &["int8", "int128", "int256", "uint8", "uint128", "uint256", "int120", "uint136"])).to_string(),
                };
                json!({"id": id, "nodeType": "Assignment", "operator": "=", "leftHandSide": self.sol_leaf(r), "rightHandSide": self.sol_expr(r, d), "typeDescriptions": self.td(&ty)})
            }
            "DeleteStatement" | "SwapLines" | "UncheckedBlock" => self.sol_block(r, d),
            "FunctionCall" | "SwapFunctionArguments" => {
                let n = below(r, 5);
                let few = coin(r, 0.6);
                // two types that are often alike in their first words
                let pair = *pick(r, &[["uint256", "address"], ["uint256", "uint8"], ["struct S memory", "struct T memory"], ["bytes memory", "bytes calldata"], ["contract A", "contract B"], ["bytes32", "bytes32[] memory"]]);
                let args: Vec<Value> = (0..n)
                    .map(|_| {
                        let mut e = self.sol_expr(r, d.min(1));
                        if few { e["typeDescriptions"] = self.td(pick(r, &pair)); }
                        if coin(r, 0.1) { e.as_object_mut().unwrap().remove("typeDescriptions"); }
                        e
                    })
                    .collect();
                let callee = json!({"id": self.id(), "nodeType": "Identifier", "name": *pick(r, &["foo", "bar", "alpha", "require", "keccak256"])});
                json!({"id": id, "nodeType": "FunctionCall", "kind": "functionCall", "arguments": args, "expression": callee, "names": [], "typeDescriptions": self.td("uint256")})
            }
            "Require" => {
                let n = 1 + below(r, 2);
                let args: Vec<Value> = (0..n).map(|_| self.sol_expr(r, d.min(1))).collect();
                json!({"id": id, "nodeType": "FunctionCall", "kind": "functionCall", "arguments": args, "expression": {"id": self.id(), "nodeType": "Identifier", "name": *pick(r, &["require", "require", "require", "assert"])}, "names": [], "typeDescriptions": self.td("tuple()")})
            }
            "IfStatement" => {
                let mut v = json!({"id": id, "nodeType": "IfStatement", "condition": self.sol_expr(r, d.min(2)), "trueBody": self.sol_block(r, d.min(2))});
                if coin(r, 0.5) { v["falseBody"] = self.sol_block(r, d.min(1)); }
                v
            }
            "Integer" => {
                let v = match below(r, 12) {
                    0 => "0".to_string(), 1 => "9223372036854775807".into(), 2 => "9223372036854775808".into(), 3 => "18446744073709551615".into(),
                    4 => "115792089237316195423570985008687907853269984665640564039457584007913129639935".into(), 5 => "0xFF".into(), 6 => "1e18".into(), 7 => "1_000_000".into(),
                    8 => "1.5".into(), 9 => "340282366920938463463374607431768211455".into(), 10 => "170141183460469231731687303715884105727".into(), _ => below(r, 1000).to_string(),
                };
                json!({"id": id, "nodeType": "Literal", "kind": *pick(r, &["number", "number", "number", "string", "bool"]), "value": v, "typeDescriptions": self.td("int_const")})
            }
            "ElimDelegateCall" => json!({"id": id, "nodeType": "MemberAccess", "memberName": *pick(r, &["delegatecall", "delegatecall", "call", "transfer"]), "expression": self.sol_leaf(r), "typeDescriptions": self.td("function")}),
            _ => {
                let fam = match t { "SwapOperatorArguments" => &["-", "/", "%", "**", ">", "<", "<=", ">=", "<<", ">>", "+", "==", "&&"][..], _ => family(t).unwrap() };
                let o = if coin(r, 0.85) { *pick(r, fam) } else { *pick(r, &["+", "-", "&&", "==", "<<", "^", "=", ""]) };
                json!({"id": id, "nodeType": "BinaryOperation", "operator": o, "leftExpression": self.sol_expr(r, d), "rightExpression": self.sol_expr(r, d), "typeDescriptions": self.td("uint256")})
            }
        }
    }
    pub fn sol_function(&mut self, r: &mut Pcg64, name: &str, d: u32) -> Value {
        let id = self.id();
        json!({"id": id, "nodeType": "FunctionDefinition", "name": name, "kind": "function", "visibility": "public", "stateMutability": "nonpayable", "virtual": false, "implemented": true,
            "modifiers": [], "scope": 1,
            "parameters": {"id": self.id(), "nodeType": "ParameterList", "parameters": []},
            "returnParameters": {"id": self.id(), "nodeType": "ParameterList", "parameters": []},
            "body": self.sol_block(r, d)})
    }
    pub fn sol_tree(&mut self, r: &mut Pcg64, d: u32) -> Value {
        let n = 1 + below(r, 4) as usize;
        let mut fns: Vec<Value> = (0..n).map(|i| self.sol_function(r, FUNCS[i % FUNCS.len()], d)).collect();
        if coin(r, 0.4) {
            fns.push(json!({"id": self.id(), "nodeType": "ModifierDefinition", "name": "onlyOwner", "visibility": "internal", "parameters": {"id": self.id(), "nodeType": "ParameterList", "parameters": []}, "body": self.sol_block(r, d.min(1))}));
        }
        if coin(r, 0.4) {
            fns.insert(0, json!({"id": self.id(), "nodeType": "VariableDeclaration", "name": *pick(r, &["x", "alpha"]), "stateVariable": true, "value": self.sol_expr(r, 2)}));
        }
        let c = json!({"id": self.id(), "nodeType": "ContractDefinition", "name": "C", "contractKind": "contract", "abstract": false, "baseContracts": [], "contractDependencies": [], "fullyImplemented": true, "linearizedBaseContracts": [1], "nodes": fns});
        json!({"id": self.id(), "nodeType": "SourceUnit", "absolutePath": "a.sol", "exportedSymbols": {}, "license": "MIT",
            "nodes": [{"id": self.id(), "nodeType": "PragmaDirective", "literals": ["solidity", "^", "0.8", ".13"]}, c], "src": "0:0:0"})
    }
    // ---------------- Vyper ----------------
    pub fn vy_leaf(&mut self, r: &mut Pcg64) -> Value {
        let id = self.id();
        match below(r, 5) {
            0 => json!({"node_id": id, "ast_type": "Int", "value": below(r, 1000)}),
            1 => json!({"node_id": id, "ast_type": "NameConstant", "value": coin(r, 0.5)}),
            2 => json!({"node_id": id, "ast_type": "Str", "value": "text"}),
            _ => json!({"node_id": id, "ast_type": "Name", "id": *pick(r, &["x", "y", "msg", "alpha", "total"])}),
        }
    }
    pub fn vy_expr(&mut self, r: &mut Pcg64, d: u32) -> Value {
        if d == 0 {
            return self.vy_leaf(r);
        }
        match below(r, 7) {
            0 | 1 => self.vy_node(pick(r, &["ArithmeticBinaryOp", "BitwiseBinaryOp", "ComparisonBinaryOp", "BitshiftBinaryOp"]), r, d - 1),
            2 => self.vy_node("LogicalBinaryOp", r, d - 1),
            3 => self.vy_node("UnaryOp", r, d - 1),
            4 => self.vy_node("FunctionCall", r, d - 1),
            _ => self.vy_leaf(r),
        }
    }
    pub fn vy_stmt(&mut self, r: &mut Pcg64, d: u32) -> Value {
        let id = self.id();
        match below(r, 8) {
            0 => json!({"node_id": id, "ast_type": "Return", "value": self.vy_expr(r, d.min(1))}),
            1 if d > 0 => self.vy_node("IfStatement", r, d - 1),
            2 if d > 0 => json!({"node_id": id, "ast_type": "For", "target": {"node_id": self.id(), "ast_type": "Name", "id": "i"}, "iter": self.vy_expr(r, 1), "body": self.vy_body(r, d - 1, 1)}),
            3 => json!({"node_id": id, "ast_type": "Expr", "value": self.vy_node("FunctionCall", r, d.min(1))}),
            4 => json!({"node_id": id, "ast_type": "Assert", "test": self.vy_expr(r, d.min(1)), "msg": null}),
            5 => json!({"node_id": id, "ast_type": "Pass"}),
            _ => self.vy_node("Assignment", r, d.min(2)),
        }
    }
    pub fn vy_body(&mut self, r: &mut Pcg64, d: u32, min: u64) -> Vec<Value> {
        let n = min + below(r, 4);
        (0..n).map(|_| self.vy_stmt(r, d)).collect()
    }
    pub fn vy_node(&mut self, t: &str, r: &mut Pcg64, d: u32) -> Value {
        let id = self.id();
        match t {
            "UnaryOp" => json!({"node_id": id, "ast_type": "UnaryOp", "op": {"node_id": self.id(), "ast_type": *pick(r, &["Not", "Invert", "USub"])}, "operand": self.vy_expr(r, d)}),
            "Assignment" => json!({"node_id": id, "ast_type": "Assign", "target": {"node_id": self.id(), "ast_type": "Name", "id": "x"}, "value": self.vy_expr(r, d)}),
            "DeleteStatement" | "SwapLines" => match below(r, 3) {
                0 => {
                    let n = *pick(r, FUNCS);
                    self.vy_function(r, n, d)
                }
                1 => self.vy_node("IfStatement", r, d),
                _ => json!({"node_id": id, "ast_type": "For", "target": {"node_id": self.id(), "ast_type": "Name", "id": "i"}, "iter": self.vy_leaf(r), "body": self.vy_body(r, d, 0)}),
            },
            "FunctionCall" | "SwapFunctionArguments" => {
                let n = below(r, 5);
                let args: Vec<Value> = (0..n).map(|_| self.vy_expr(r, d.min(1))).collect();
                json!({"node_id": id, "ast_type": "Call", "func": {"node_id": self.id(), "ast_type": "Name", "id": "foo"}, "args": args, "keywords": [], "keyword": null})
            }
            "IfStatement" => json!({"node_id": id, "ast_type": "If", "test": self.vy_expr(r, d.min(2)), "body": self.vy_body(r, d.min(2), 1), "orelse": if coin(r, 0.3) { self.vy_body(r, d.min(1), 1) } else { vec![] }}),
            "Integer" => {
                let v = match below(r, 8) { 0 => json!(0), 1 => json!(i64::MAX), 2 => json!(u64::MAX), 3 => json!(1e40), 4 => json!(i64::MIN), _ => json!(below(r, 1000)) };
                json!({"node_id": id, "ast_type": "Int", "value": v})
            }
            _ => {
                let ops: Vec<&str> = match t {
                    "SwapOperatorArguments" => vec!["Sub", "Div", "Mod", "Pow", "Gt", "Lt", "GtE", "LtE", "Add", "Eq", "LShift", "In"],
                    _ => VYOPS.iter().filter(|(_, o)| family(t).unwrap().contains(o)).map(|x| x.0).collect(),
                };
                let op = if !ops.is_empty() && coin(r, 0.85) { *pick(r, &ops) } else { *pick(r, &["LShift", "RShift", "In", "NotIn", "Add", "Eq", "And", "FloorDiv"]) };
                let opn = json!({"node_id": self.id(), "ast_type": op});
                // no compiler writes these, but the algorithm accepts them
                let odd = t == "SwapOperatorArguments" && coin(r, 0.1);
                match op {
                    _ if odd => json!({"node_id": id, "ast_type": "BoolOp", "op": opn, "values": (0..2 + below(r, 3)).map(|_| self.vy_expr(r, d)).collect::<Vec<_>>()}),
                    "And" | "Or" => json!({"node_id": id, "ast_type": "BoolOp", "op": opn, "values": (0..2 + below(r, 12) / 3).map(|_| self.vy_expr(r, d)).collect::<Vec<_>>()}),
                    "Eq" | "NotEq" | "Gt" | "GtE" | "Lt" | "LtE" | "In" | "NotIn" => json!({"node_id": id, "ast_type": "Compare", "op": opn, "left": self.vy_expr(r, d), "right": self.vy_expr(r, d)}),
                    _ => json!({"node_id": id, "ast_type": "BinOp", "op": opn, "left": self.vy_expr(r, d), "right": self.vy_expr(r, d)}),
                }
            }
        }
    }
    pub fn vy_function(&mut self, r: &mut Pcg64, name: &str, d: u32) -> Value {
        let id = self.id();
        let nm = |g: &mut G, s: &str| json!({"node_id": g.id(), "ast_type": "Name", "id": s});
        let ret = match below(r, 8) {
            0 => nm(self, pick(r, &["bool", "uint256", "int128", "string", "address", "decimal", "bytes32", "u", "é"])),
            1 => nm(self, pick(r, &["uint8", "int8", "bool"])),
            2 => json!({"node_id": self.id(), "ast_type": *pick(r, &["Tuple", "List"]), "elements": (0..1 + below(r, 3)).map(|_| nm(self, "uint256")).collect::<Vec<Value>>()}),
            3 => json!({"node_id": self.id(), "ast_type": "Subscript", "value": nm(self, "String"), "slice": {"node_id": self.id(), "ast_type": "Index", "value": {"node_id": self.id(), "ast_type": "Int", "value": 10}}}),
            _ => Value::Null,
        };
        let min = if coin(r, 0.3) { 1 } else { 0 };
        let mut body = self.vy_body(r, d, min);
        if coin(r, 0.3) { body.truncate(1); }
        if coin(r, 0.1) {
            body = vec![json!({"node_id": self.id(), "ast_type": "Expr", "value": {"node_id": self.id(), "ast_type": "Name", "id": *pick(r, &["view", "payable", "nonpayable", "pure"])}})];
        }
        json!({"node_id": id, "ast_type": "FunctionDef", "name": name, "args": {"node_id": self.id(), "ast_type": "arguments", "args": [], "defaults": []}, "returns": ret, "body": body, "decorator_list": [], "doc_string": null, "pos": null})
    }
    pub fn vy_tree(&mut self, r: &mut Pcg64, d: u32) -> Value {
        let n = 1 + below(r, 4) as usize;
        let mut body: Vec<Value> = vec![];
        for i in 0..n {
            let mut f = self.vy_function(r, FUNCS[i % FUNCS.len()], d);
            if f["body"].as_array().unwrap().is_empty() { f["body"] = json!([self.vy_stmt(r, 0)]); }
            body.push(f);
        }
        json!({"contract_name": "a.vy", "ast": {"node_id": 0, "ast_type": "Module", "name": "a.vy", "body": body, "doc_string": null}})
    }
    pub fn node(&mut self, l: Lang, t: &str, r: &mut Pcg64, d: u32) -> Value {
        match l {
            Lang::Sol => self.sol_node(t, r, d),
            Lang::Vy => self.vy_node(t, r, d),
        }
    }
}
/// a tree with every kind of node the printers know, dressed as the compiler would: identifiers, types, function names of FUNCS
pub fn wide_tree(l: Lang, r: &mut Pcg64, d: u32) -> Value {
    let mut n = 0u64;
    match l {
        Lang::Sol => {
            let mut t = crate::twin_sol::tree(r, d);
            dress(l, &mut t, r, &mut n);
            t
        }
        Lang::Vy => {
            let mut t = crate::twin_vy::tree(r, d);
            dress(l, &mut t, r, &mut n);
            json!({"contract_name": "a.vy", "ast": t})
        }
    }
}
fn dress(l: Lang, v: &mut Value, r: &mut Pcg64, n: &mut u64) {
    let (tag, id) = match l { Lang::Sol => ("nodeType", "id"), Lang::Vy => ("ast_type", "node_id") };
    match v {
        Value::Array(a) => {
            a.retain(|x| x.get(tag) != Some(&json!("Comment")));
            a.iter_mut().for_each(|x| dress(l, x, r, n));
        }
        Value::Object(o) => {
            if let Some(t) = o.get(tag).and_then(|x| x.as_str()).map(|x| x.to_string()) {
                *n += 1;
                if l == Lang::Sol || t != "Module" {
                    // Vyper's names keep what they call under the same key
                    o.insert(id.to_string(), json!(*n));
                } else {
                    o.insert(id.to_string(), json!(0));
                }
                if t.starts_with("FunctionDef") && coin(r, 0.8) { o.insert("name".into(), json!(*pick(r, FUNCS))); }
                if l == Lang::Sol && (t == "Assignment" || t == "Identifier" || t == "Literal" || t == "FunctionCall" || t == "BinaryOperation") {
                    o.insert("typeDescriptions".into(), json!({"typeIdentifier": "t", "typeString": *pick(r, TYPES)}));
                }
                if t == "Literal" && o.get("kind") == Some(&json!("number")) && coin(r, 0.7) { o.insert("value".into(), json!(below(r, 1000).to_string())); }
                if t == "Identifier" && coin(r, 0.1) { o.insert("name".into(), json!("require")); }
                if t == "MemberAccess" && coin(r, 0.2) { o.insert("memberName".into(), json!("delegatecall")); }
            }
            o.values_mut().for_each(|x| dress(l, x, r, n));
        }
        _ => {}
    }
}
/// a small structural change that may turn a candidate into a non-candidate
pub fn perturb(v: &Value, r: &mut Pcg64) -> Value {
    let mut n = v.clone();
    let o = n.as_object_mut().unwrap();
    let keys: Vec<String> = o.keys().cloned().collect();
    let k = pick(r, &keys).clone();
    match below(r, 4) {
        0 => { o.remove(&k); }
        1 => { o.insert(k, Value::Null); }
        2 => { o.insert(k, json!(pick(r, &["", "Block", "Literal", "number", "+", "require", "Return"]).to_string())); }
        _ => { o.insert(k, json!([])); }
    }
    n
}
