//@fn mutagenyx_lib/src/solidity/mutators.rs new_integer_constant_node props=C07
//@ret r
//@spec
    ensures r is Ok, num_lit_d(r->Ok_0@, value.vx_disp()),
//@entry
    proof { lits(); }
//@subst I: Integer + fmt::Display ==> I: VxDisp
//@end
pub open spec fn num_lit_d(n: JV, d: Seq<char>) -> bool { nt(n, "Literal") && n.is_str("kind"@, "number"@) && n.is_str("value"@, d) }
//@fn mutagenyx_lib/src/solidity/mutators.rs offset_integer_literal props=C07
//@ret r
//@spec
    ensures r is Some ==> parse_int(text@) is Some && r->0@ == dec(parse_int(text@)->0 + delta),
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs new_boolean_literal_node props=C06,C07
//@ret r
//@spec
    ensures r is Ok, nt(r->Ok_0@, "Literal"), r->Ok_0@.is_str("kind"@, "bool"@), r->Ok_0@.is_str("value"@, if value { "true"@ } else { "false"@ }),
//@entry
    proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs new_comment_node props=C17
//@ret r
//@spec
    ensures r is Ok, r->Ok_0@.is_str("nodeType"@, "Comment"@), r->Ok_0@.is_str("text"@, text@),
//@entry
    proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs new_comment_node_from_node props=C06
//@ret r
//@spec
    ensures r is Ok, commented_out(r->Ok_0@, node@), rep_id(node@) is Some ==> rep_id(r->Ok_0@) == rep_id(node@),
//@entry
    proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs new_unary_op_node props=C06
//@ret r
//@spec
    ensures r is Ok, nt(r->Ok_0@, "UnaryOperation"), r->Ok_0@.is_str("operator"@, operator@), r->Ok_0@.bool_at("prefix"@), r->Ok_0@.bool("prefix"@) == prefix,
        r->Ok_0@.has("subExpression"@), r->Ok_0@.at("subExpression"@) == sub_expression@,
//@entry
    proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs new_tuple_expression_node props=C06
//@ret r
//@spec
    ensures r is Ok, nt(r->Ok_0@, "TupleExpression"), r->Ok_0@.arr_at("components"@), r->Ok_0@.arr("components"@) == jvs(array@),
//@entry
    proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs new_unchecked_block_node props=C06
//@ret r
//@spec
    ensures r is Ok, nt(r->Ok_0@, "UncheckedBlock"), r->Ok_0@.arr_at("statements"@), r->Ok_0@.arr("statements"@) == jvs(array@),
        r->Ok_0@.has("id"@), r->Ok_0@.at("id"@) == JV::Num(NumV::Int(node_id as int)),
//@entry
    proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs pretty_print_node trusted
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs integer_type_size props=C07,C10
//@ret r
//@spec
    ensures (match r { Some(n) => Some(n as int), None => None::<int> }) == type_bits_s(type_string@, prefix@),
//@subst type_string.strip_prefix(prefix) ==> vx_strip_prefix(type_string, prefix)
//@end
pub open spec fn type_bits_s(ts: Seq<char>, prefix: Seq<char>) -> Option<int> {
    if starts(ts, prefix) {
        match parse_to(ts.skip(prefix.len() as int), 0, u32::MAX as int) {
            Some(n) => if 8 <= n <= 256 { Some(n) } else { None },
            None => None,
        }
    } else { None }
}
impl Value {
//@fn mutagenyx_lib/src/solidity/ast.rs SolidityASTApi@SolidityAST::take_argument props=C06
//@ret r
//@spec
        ensures
            old(self)@.arr_at("arguments"@) && index < old(self)@.arr("arguments"@).len() ==> {
                &&& r is Some && r->0@ == old(self)@.arr("arguments"@)[index as int]
                &&& final(self)@ == old(self)@.set("arguments"@, JV::Arr(old(self)@.arr("arguments"@).update(index as int, JV::Null)))
            },
            !(old(self)@.arr_at("arguments"@) && index < old(self)@.arr("arguments"@).len()) ==> r is None,
//@entry
        proof { lits(); vx_ptr("arguments"@); reveal_strlit("/"); reveal_strlit("/arguments"); reveal_strlit("arguments"); assert("/arguments"@ =~= "/"@ + "arguments"@); }
//@end
}
