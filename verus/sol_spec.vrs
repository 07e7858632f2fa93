// ---- what each Solidity algorithm is documented to do (README, doc comments), as relations on JSON values ----
pub type MT = MutationType;
pub type GM = GenericMutation;
pub type SM = SolidityMutation;
// the id a mutator reports for node v: its "id" number, as u64
pub open spec fn rep_id(v: JV) -> Option<u64> { if v.int_at("id"@) { Some(v.int("id"@) as i64 as u64) } else { None } }
pub open spec fn is_comment(v: JV) -> bool { nt(v, "Comment") }
// what mutate may assume on top of the node being mutable: nothing
pub open spec fn nt(v: JV, s: &str) -> bool { v.is_str("nodeType"@, s@) }
pub open spec fn family(t: MT) -> spec_fn(Seq<char>) -> bool {
    |s: Seq<char>| match t {
        MT::Generic(GM::ArithmeticBinaryOp) => arith(s),
        MT::Generic(GM::LogicalBinaryOp) => logic(s),
        MT::Generic(GM::BitwiseBinaryOp) => bitw(s),
        MT::Generic(GM::BitshiftBinaryOp) => bshift(s),
        MT::Generic(GM::ComparisonBinaryOp) => compar(s),
        _ => false,
    }
}
pub open spec fn is_binary(t: MT) -> bool {
    match t {
        MT::Generic(GM::ArithmeticBinaryOp) | MT::Generic(GM::LogicalBinaryOp) | MT::Generic(GM::BitwiseBinaryOp)
        | MT::Generic(GM::BitshiftBinaryOp) | MT::Generic(GM::ComparisonBinaryOp) => true,
        _ => false,
    }
}
// number of bits of the type "<prefix><bits>"
pub open spec fn type_bits(ts: Seq<char>, prefix: &str) -> Option<int> {
    if starts(ts, prefix@) {
        match parse_to(ts.skip(prefix@.len() as int), 0, u32::MAX as int) {
            Some(n) => if 8 <= n <= 256 { Some(n) } else { None },
            None => None,
        }
    } else { None }
}
pub open spec fn type_string(v: JV) -> Option<Seq<char>> {
    if v.has("typeDescriptions"@) && v.at("typeDescriptions"@).str_at("typeString"@) { Some(v.at("typeDescriptions"@).str("typeString"@)) } else { None }
}
pub open spec fn wrappable(v: JV) -> bool { !nt(v, "Return") && !nt(v, "UncheckedBlock") }
pub open spec fn expr_stmt_at(s: Seq<JV>, i: int) -> bool { 0 <= i < s.len() && nt(s[i], "ExpressionStatement") }
pub open spec fn nonlit_at(s: Seq<JV>, i: int) -> bool { 0 <= i < s.len() && !nt(s[i], "Literal") }
pub open spec fn wrap_at(s: Seq<JV>, i: int) -> bool { 0 <= i < s.len() && wrappable(s[i]) }
pub open spec fn movable(s: Seq<JV>, i: int) -> bool { 0 <= i < s.len() && !nt(s[i], "Return") }
pub open spec fn movable2(s: Seq<JV>, i: int, j: int) -> bool { movable(s, i) && movable(s, j) && i < j }
pub open spec fn only1(s: Seq<JV>, f: int, n: int) -> bool { 0 <= f < n && movable(s, f) && forall|k: int| 0 <= k < n && k != f ==> !(#[trigger] movable(s, k)) }
pub open spec fn same_type(s: Seq<JV>, i: int, j: int) -> bool {
    0 <= i < j < s.len() && type_string(s[i]) is Some && type_string(s[i]) == type_string(s[j])
}
pub open spec fn is_block(v: JV) -> bool { nt(v, "Block") && v.arr_at("statements"@) }
pub open spec fn is_call(v: JV) -> bool { nt(v, "FunctionCall") && v.arr_at("arguments"@) }

// the nodes the algorithm may mutate
pub open spec fn m_mutable(t: MT, v: JV) -> bool {
    match t {
        MT::Generic(GM::UnaryOp) => nt(v, "UnaryOperation") && v.bool_at("prefix"@) && v.str_at("operator"@)
            && (if v.bool("prefix"@) { pre_un(v.str("operator"@)) } else { post_un(v.str("operator"@)) }),
        MT::Generic(GM::Assignment) => nt(v, "Assignment") && type_string(v) is Some
            && (type_string(v)->0 == "bool"@ || type_bits(type_string(v)->0, "int") is Some || type_bits(type_string(v)->0, "uint") is Some),
        MT::Generic(GM::DeleteStatement) => is_block(v) && v.arr("statements"@).len() > 1 && exists|i: int| #[trigger] expr_stmt_at(v.arr("statements"@), i),
        MT::Generic(GM::FunctionCall) => is_call(v) && exists|i: int| #[trigger] nonlit_at(v.arr("arguments"@), i),
        MT::Generic(GM::SwapFunctionArguments) => is_call(v) && exists|i: int, j: int| #[trigger] same_type(v.arr("arguments"@), i, j),
        MT::Generic(GM::IfStatement) => nt(v, "IfStatement") && v.has("condition"@) && !(v.at("condition"@) is Null),
        MT::Generic(GM::Integer) => nt(v, "Literal") && v.is_str("kind"@, "number"@) && v.str_at("value"@) && !v.str("value"@).contains('.'),
        MT::Generic(GM::SwapOperatorArguments) => nt(v, "BinaryOperation") && v.str_at("operator"@) && noncomm(v.str("operator"@)),
        MT::Generic(GM::SwapLines) => is_block(v) && exists|i: int, j: int| #[trigger] movable2(v.arr("statements"@), i, j),
        MT::Solidity(SM::Require) => nt(v, "FunctionCall") && v.has("expression"@) && v.at("expression"@).is_str("name"@, "require"@)
            && v.arr_at("arguments"@) && v.arr("arguments"@).len() > 0,
        MT::Solidity(SM::UncheckedBlock) => is_block(v) && exists|i: int| #[trigger] wrap_at(v.arr("statements"@), i),
        MT::Solidity(SM::ElimDelegateCall) => nt(v, "MemberAccess") && v.is_str("memberName"@, "delegatecall"@),
        _ => nt(v, "BinaryOperation") && v.str_at("operator"@) && family(t)(v.str("operator"@)),
    }
}
// children every compiler-produced node of that kind has, and that candidate selection does not look at
pub open spec fn m_sane(t: MT, v: JV) -> bool {
    match t {
        MT::Generic(GM::Assignment) => v.has("rightHandSide"@),
        MT::Generic(GM::SwapOperatorArguments) => v.has("leftExpression"@) && v.has("rightExpression"@),
        _ => true,
    }
}
pub open spec fn bool_lit(n: JV) -> bool { nt(n, "Literal") && n.is_str("kind"@, "bool"@) && (n.is_str("value"@, "true"@) || n.is_str("value"@, "false"@)) }
pub open spec fn num_lit(n: JV, x: int) -> bool { nt(n, "Literal") && n.is_str("kind"@, "number"@) && n.is_str("value"@, dec(x)) }
pub open spec fn num_lit_in(n: JV, lo: int, hi: int) -> bool { exists|x: int| lo <= x < hi && #[trigger] num_lit(n, x) }
// n is !(c)
pub open spec fn negation(n: JV, c: JV) -> bool {
    &&& nt(n, "UnaryOperation") && n.is_str("operator"@, "!"@) && n.bool_at("prefix"@) && n.bool("prefix"@)
    &&& n.has("subExpression"@) && nt(n.at("subExpression"@), "TupleExpression")
    &&& n.at("subExpression"@).arr_at("components"@) && n.at("subExpression"@).arr("components"@).len() == 1 && n.at("subExpression"@).arr("components"@)[0] == c
}
pub open spec fn swapped(s: Seq<JV>, i: int, j: int) -> Seq<JV> { s.update(i, s[j]).update(j, s[i]) }
// the nodes the statement-level algorithms put in place of statement s
pub open spec fn commented_out(c: JV, s: JV) -> bool { nt(c, "Comment") && c.has("value"@) && c.at("value"@) == s }
pub open spec fn unchecked(c: JV, s: JV) -> bool { nt(c, "UncheckedBlock") && c.arr_at("statements"@) && c.arr("statements"@).len() == 1 && c.arr("statements"@)[0] == s }
pub open spec fn del_rel(a: JV, b: JV, i: int) -> bool {
    let s = a.arr("statements"@);
    expr_stmt_at(s, i) && b.arr_at("statements"@) && commented_out(b.arr("statements"@)[i], s[i])
        && b == a.set("statements"@, JV::Arr(s.update(i, b.arr("statements"@)[i])))
}
pub open spec fn unc_rel(a: JV, b: JV, i: int) -> bool {
    let s = a.arr("statements"@);
    wrap_at(s, i) && b.arr_at("statements"@) && unchecked(b.arr("statements"@)[i], s[i])
        && b == a.set("statements"@, JV::Arr(s.update(i, b.arr("statements"@)[i])))
}
pub open spec fn stmt_id(a: JV, i: int) -> Option<u64> { rep_id(a.arr("statements"@)[i]) }
pub open spec fn int_rel(a: Seq<char>, b: Seq<char>) -> bool {
    ||| parse_int(a) is Some && (b == dec(parse_int(a)->0 + 1) || b == dec(parse_int(a)->0 - 1))
    ||| exists|u: int| 0 <= u <= u64::MAX && b == #[trigger] dec(u)
}
// before a, after b, reported node id
pub open spec fn m_rel(t: MT, a: JV, b: JV, id: Option<u64>) -> bool {
    match t {
        MT::Generic(GM::UnaryOp) => b == a.set("operator"@, b.at("operator"@)) && b.str_at("operator"@) && b.str("operator"@) != a.str("operator"@)
            && (if a.bool("prefix"@) { pre_un(b.str("operator"@)) } else { post_un(b.str("operator"@)) }) && id == rep_id(a),
        MT::Generic(GM::Assignment) => {
            let ts = type_string(a)->0;
            let n = b.at("rightHandSide"@);
            &&& b == a.set("rightHandSide"@, n) && id == rep_id(a)
            &&& ts == "bool"@ ==> bool_lit(n)
            &&& type_bits(ts, "int") is Some ==> num_lit_in(n, -p2(type_bits(ts, "int")->0 - 1), p2(type_bits(ts, "int")->0 - 1))
            &&& type_bits(ts, "uint") is Some ==> num_lit_in(n, 0, p2(type_bits(ts, "uint")->0))
        },
        MT::Generic(GM::DeleteStatement) => exists|i: int| #[trigger] del_rel(a, b, i) && id == stmt_id(a, i),
        MT::Generic(GM::FunctionCall) => exists|i: int| #[trigger] nonlit_at(a.arr("arguments"@), i) && b == a.arr("arguments"@)[i] && id == rep_id(b),
        MT::Generic(GM::SwapFunctionArguments) => exists|i: int, j: int| #[trigger] same_type(a.arr("arguments"@), i, j)
            && b == a.set("arguments"@, JV::Arr(swapped(a.arr("arguments"@), i, j))) && id == rep_id(a),
        MT::Generic(GM::IfStatement) => b == a.set("condition"@, b.at("condition"@)) && id == rep_id(a)
            && (bool_lit(b.at("condition"@)) || negation(b.at("condition"@), a.at("condition"@))),
        MT::Generic(GM::Integer) => b == a.set("value"@, b.at("value"@)) && b.str_at("value"@) && int_rel(a.str("value"@), b.str("value"@)) && id == rep_id(a),
        MT::Generic(GM::SwapOperatorArguments) => id == rep_id(a)
            && b == a.set("leftExpression"@, a.at("rightExpression"@)).set("rightExpression"@, a.at("leftExpression"@)),
        MT::Generic(GM::SwapLines) => exists|i: int, j: int| #[trigger] movable2(a.arr("statements"@), i, j)
            && b == a.set("statements"@, JV::Arr(swapped(a.arr("statements"@), i, j))) && id == rep_id(a),
        MT::Solidity(SM::Require) => b.arr_at("arguments"@) && a.arr_at("arguments"@) && a.arr("arguments"@).len() > 0 && id == rep_id(a)
            && negation(b.arr("arguments"@)[0], a.arr("arguments"@)[0])
            && b == a.set("arguments"@, JV::Arr(a.arr("arguments"@).update(0, b.arr("arguments"@)[0]))),
        MT::Solidity(SM::UncheckedBlock) => exists|i: int| #[trigger] unc_rel(a, b, i) && (stmt_id(a, i) is Some ==> id == stmt_id(a, i)),
        MT::Solidity(SM::ElimDelegateCall) => b == a.set("memberName"@, JV::Str("call"@)) && id == rep_id(a),
        _ => b == a.set("operator"@, b.at("operator"@)) && b.str_at("operator"@) && b.str("operator"@) != a.str("operator"@)
            && family(t)(b.str("operator"@)) && id == rep_id(a),
    }
}
