// ---- what each Vyper algorithm is documented to do (README, doc comments), as relations on JSON values ----
pub type MT = MutationType;
pub type GM = GenericMutation;
pub type SM = SolidityMutation;
// the id a mutator reports for node v: its "node_id" number, as u64
pub open spec fn rep_id(v: JV) -> Option<u64> { if v.int_at("node_id"@) { Some(v.int("node_id"@) as i64 as u64) } else { None } }
pub open spec fn is_comment(v: JV) -> bool { at(v, "Comment") }
pub open spec fn at(v: JV, s: &str) -> bool { v.is_str("ast_type"@, s@) }
pub open spec fn family(t: MT) -> spec_fn(Seq<char>) -> bool {
    |s: Seq<char>| match t {
        MT::Generic(GM::ArithmeticBinaryOp) => arith(s),
        MT::Generic(GM::LogicalBinaryOp) => logic(s),
        MT::Generic(GM::BitwiseBinaryOp) => bitw(s),
        MT::Generic(GM::BitshiftBinaryOp) => bshift(s),
        MT::Generic(GM::ComparisonBinaryOp) => compar(s),
        _ => false,
    }
}
pub open spec fn is_binary(t: MT) -> bool {
    match t {
        MT::Generic(GM::ArithmeticBinaryOp) | MT::Generic(GM::LogicalBinaryOp) | MT::Generic(GM::BitwiseBinaryOp)
        | MT::Generic(GM::BitshiftBinaryOp) | MT::Generic(GM::ComparisonBinaryOp) => true,
        _ => false,
    }
}
// the operator a Python AST operator name stands for
pub open spec fn py(n: Seq<char>) -> Option<Seq<char>> {
    if n == "Add"@ { Some("+"@) } else if n == "Sub"@ { Some("-"@) } else if n == "Mult"@ { Some("*"@) } else if n == "Div"@ { Some("/"@) }
    else if n == "FloorDiv"@ { Some("//"@) } else if n == "LShift"@ { Some("<<"@) } else if n == "RShift"@ { Some(">>"@) }
    else if n == "Mod"@ { Some("%"@) } else if n == "Pow"@ { Some("**"@) } else if n == "And"@ { Some("&&"@) } else if n == "Or"@ { Some("||"@) }
    else if n == "BitAnd"@ { Some("&"@) } else if n == "BitOr"@ { Some("|"@) } else if n == "BitXor"@ { Some("^"@) } else if n == "Eq"@ { Some("=="@) }
    else if n == "NotEq"@ { Some("!="@) } else if n == "Gt"@ { Some(">"@) } else if n == "GtE"@ { Some(">="@) } else if n == "Lt"@ { Some("<"@) }
    else if n == "LtE"@ { Some("<="@) } else if n == "Not"@ { Some("!"@) } else if n == "Invert"@ { Some("~"@) } else if n == "In"@ { Some("in"@) }
    else if n == "NotIn"@ { Some("not in"@) } else { None }
}
pub open spec fn is_py_map(m: Map<Seq<char>, &'static str>) -> bool {
    forall|n: Seq<char>| (#[trigger] m.dom().contains(n) <==> py(n) is Some) && (m.dom().contains(n) ==> m[n]@ == py(n)->0)
}
// m maps each operator to a Python AST name of it
pub open spec fn is_rev_map(m: Map<Seq<char>, &'static str>) -> bool {
    &&& forall|o: Seq<char>| #[trigger] m.dom().contains(o) ==> py(m[o]@) == Some(o)
    &&& forall|n: Seq<char>| #[trigger] py(n) is Some ==> m.dom().contains(py(n)->0)
}
pub open spec fn binlike(v: JV) -> bool { at(v, "BinOp") || at(v, "BoolOp") || at(v, "Compare") }
pub open spec fn op_of(v: JV) -> Option<Seq<char>> { if v.has("op"@) && v.at("op"@).str_at("ast_type"@) { py(v.at("op"@).str("ast_type"@)) } else { None } }
// text the pretty-printer produces for a node
pub uninterp spec fn printed(v: JV) -> Seq<char>;
pub open spec fn stub(v: JV) -> bool { printed(v) == "view"@ || printed(v) == "nonpayable"@ || printed(v) == "payable"@ }
pub open spec fn movable(s: Seq<JV>, i: int) -> bool { 0 <= i < s.len() && !at(s[i], "Return") }
pub open spec fn movable2(s: Seq<JV>, i: int, j: int) -> bool { movable(s, i) && movable(s, j) && i < j }
pub open spec fn only1(s: Seq<JV>, f: int, n: int) -> bool { 0 <= f < n && movable(s, f) && forall|k: int| 0 <= k < n && k != f ==> !(#[trigger] movable(s, k)) }
pub open spec fn distinct(s: Seq<JV>, i: int, j: int) -> bool { 0 <= i < j < s.len() }
// the nodes the algorithm may mutate
pub open spec fn m_mutable(t: MT, v: JV) -> bool {
    match t {
        MT::Generic(GM::UnaryOp) => at(v, "UnaryOp"),
        MT::Generic(GM::Assignment) => at(v, "Assign"),
        MT::Generic(GM::DeleteStatement) => (at(v, "FunctionDef") || at(v, "For") || at(v, "If") || at(v, "Module")) && v.arr_at("body"@)
            && v.arr("body"@).len() > 0 && !(v.arr("body"@).len() == 1 && stub(v.arr("body"@)[0])),
        MT::Generic(GM::FunctionCall) => at(v, "Call") && v.arr_at("args"@) && v.arr("args"@).len() > 0,
        MT::Generic(GM::SwapFunctionArguments) => at(v, "Call") && v.arr_at("args"@) && v.arr("args"@).len() >= 2,
        MT::Generic(GM::IfStatement) => at(v, "If") && v.has("test"@),
        MT::Generic(GM::Integer) => at(v, "Int"),
        MT::Generic(GM::SwapOperatorArguments) => binlike(v) && op_of(v) is Some && noncomm(op_of(v)->0),
        MT::Generic(GM::SwapLines) => (at(v, "FunctionDef") || at(v, "For") || at(v, "If")) && v.arr_at("body"@)
            && exists|i: int, j: int| #[trigger] movable2(v.arr("body"@), i, j),
        MT::Solidity(_) => false,
        _ => binlike(v) && op_of(v) is Some && family(t)(op_of(v)->0),
    }
}
// children every compiler-produced node of that kind has, and that candidate selection does not look at
pub open spec fn m_sane(t: MT, v: JV) -> bool {
    match t {
        MT::Generic(GM::Assignment) => v.has("value"@),
        MT::Generic(GM::UnaryOp) => v.has("operand"@),
        MT::Generic(GM::SwapOperatorArguments) => if at(v, "BoolOp") { v.arr_at("values"@) && v.arr("values"@).len() > 1 } else { v.has("left"@) && v.has("right"@) },
        _ => true,
    }
}
pub open spec fn bool_lit(n: JV) -> bool { at(n, "NameConstant") && n.bool_at("value"@) }
pub open spec fn int_lit(n: JV, x: int) -> bool { at(n, "Int") && n.has("value"@) && n.at("value"@) == JV::Num(json_int(x)) }
pub open spec fn int_lit_in(n: JV, lo: int, hi: int) -> bool { exists|x: int| lo <= x < hi && #[trigger] int_lit(n, x) }
pub open spec fn dec_lit(n: JV) -> bool { at(n, "Decimal") && n.str_at("value"@) }
pub open spec fn negation(n: JV, c: JV) -> bool {
    at(n, "UnaryOp") && n.has("op"@) && at(n.at("op"@), "Not") && n.has("operand"@) && n.at("operand"@) == c
}
pub open spec fn swapped(s: Seq<JV>, i: int, j: int) -> Seq<JV> { s.update(i, s[j]).update(j, s[i]) }
pub open spec fn commented_out(c: JV, s: JV) -> bool { at(c, "Comment") && c.has("value"@) && c.at("value"@) == s }
pub open spec fn none_lit(n: JV) -> bool { at(n, "NameConstant") && n.has("value"@) && n.at("value"@) is Null }
pub open spec fn list_of_none(n: JV, kind: Seq<char>, k: int) -> bool {
    n.is_str("ast_type"@, kind) && n.arr_at("elements"@) && n.arr("elements"@).len() == k && forall|i: int| 0 <= i < k ==> none_lit(#[trigger] n.arr("elements"@)[i])
}
pub open spec fn ret_val(s: JV) -> JV { s.at("value"@) }
pub open spec fn is_ret(s: JV) -> bool { at(s, "Return") && s.has("value"@) }
pub open spec fn named(r: JV, p: &str) -> bool { r.str_at("id"@) && starts(r.str("id"@), p@) }
// y: the body of a function that lost its only statement; it returns a value of the declared type, or does nothing
pub open spec fn filled(a: JV, y: Seq<JV>) -> bool {
    let r = a.at("returns"@);
    if !a.has("returns"@) || !r.str_at("ast_type"@) { y.len() == 2 && at(y[1], "Pass") }
    else if at(r, "Name") && r.str_at("id"@) {
        &&& y.len() == 2
        &&& if named(r, "boo") { is_ret(y[1]) && bool_lit(ret_val(y[1])) }
            else if named(r, "uin") { is_ret(y[1]) && int_lit_in(ret_val(y[1]), 0, 11) }
            else if named(r, "int") { is_ret(y[1]) && int_lit_in(ret_val(y[1]), -10, 11) }
            else if named(r, "str") { is_ret(y[1]) && at(ret_val(y[1]), "Str") }
            else { at(y[1], "Pass") }
    }
    else if (at(r, "Tuple") || at(r, "List")) && r.arr_at("elements"@) {
        y.len() == 2 && is_ret(y[1]) && list_of_none(ret_val(y[1]), r.str("ast_type"@), r.arr("elements"@).len() as int)
    }
    else { y.len() == 1 }
}
pub open spec fn del_rel(a: JV, b: JV, i: int) -> bool {
    let s = a.arr("body"@);
    let y = b.arr("body"@);
    &&& 0 <= i < s.len() && b.arr_at("body"@) && b == a.set("body"@, JV::Arr(y))
    &&& y.len() > i && commented_out(y[i], s[i])
    &&& if s.len() > 1 { y == s.update(i, y[i]) } else { filled(a, y) }
}
pub open spec fn stmt_id(a: JV, i: int) -> Option<u64> { rep_id(a.arr("body"@)[i]) }
pub open spec fn int_rel(a: JV, x: int) -> bool { i64::MIN <= x <= i64::MAX }
pub open spec fn set_op(a: JV, n: Seq<char>) -> JV { a.set("op"@, a.at("op"@).set("ast_type"@, JV::Str(n))) }
pub open spec fn arg_of(a: JV, i: int) -> bool { 0 <= i < a.arr("args"@).len() }
// before a, after b, reported node id
pub open spec fn m_rel(t: MT, a: JV, b: JV, id: Option<u64>) -> bool {
    match t {
        MT::Generic(GM::UnaryOp) => a.has("operand"@) && b == a.at("operand"@) && id == rep_id(b),
        MT::Generic(GM::Assignment) => {
            let n = b.at("value"@);
            &&& b == a.set("value"@, n) && id == rep_id(a)
            &&& bool_lit(n) || int_lit_in(n, -p2(127), p2(128)) || dec_lit(n)
        },
        MT::Generic(GM::DeleteStatement) => exists|i: int| #[trigger] del_rel(a, b, i) && id == stmt_id(a, i),
        MT::Generic(GM::FunctionCall) => exists|i: int| #[trigger] arg_of(a, i) && b == a.arr("args"@)[i] && id == rep_id(b),
        MT::Generic(GM::SwapFunctionArguments) => exists|i: int, j: int| #[trigger] distinct(a.arr("args"@), i, j)
            && b == a.set("args"@, JV::Arr(swapped(a.arr("args"@), i, j))) && id == rep_id(a),
        MT::Generic(GM::IfStatement) => b == a.set("test"@, b.at("test"@)) && id == rep_id(a)
            && (bool_lit(b.at("test"@)) || negation(b.at("test"@), a.at("test"@))),
        MT::Generic(GM::Integer) => exists|x: int| i64::MIN <= x <= i64::MAX && #[trigger] int_lit(b, x) && b == a.set("value"@, b.at("value"@)) && id == rep_id(a),
        MT::Generic(GM::SwapOperatorArguments) => (m_sane(t, a) ==> b == (if at(a, "BoolOp") { a.set("values"@, JV::Arr(swapped(a.arr("values"@), 0, 1))) }
            else { a.set("left"@, a.at("right"@)).set("right"@, a.at("left"@)) })) && id == rep_id(a),
        MT::Generic(GM::SwapLines) => exists|i: int, j: int| #[trigger] movable2(a.arr("body"@), i, j)
            && b == a.set("body"@, JV::Arr(swapped(a.arr("body"@), i, j))) && id == rep_id(a),
        MT::Solidity(_) => false,
        _ => exists|n: Seq<char>| b == #[trigger] set_op(a, n) && py(n) is Some && family(t)(py(n)->0) && py(n) != op_of(a) && id == rep_id(a),
    }
}
