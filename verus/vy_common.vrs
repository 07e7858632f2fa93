//@fn mutagenyx_lib/src/vyper/operators.rs get_python_operator_map props=C04,C10
//@ret r
//@spec
    ensures is_py_map(r@),
//@entry
    proof { lits(); }
//@subst HashMap<&'static str, &'static str> ==> StrMap<&'static str>
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs new_integer_constant_node props=C07,C06
//@ret r
//@spec
    ensures r is Ok, at(r->Ok_0@, "Int"), r->Ok_0@.has("value"@), r->Ok_0@.at("value"@) == value.vx_raw(),
//@entry
    proof { lits(); }
//@subst I: Integer + fmt::Display ==> I: VxDisp
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs offset_integer_value props=C07
//@ret r
//@spec
    ensures r is Some ==> node@.int_at("value"@) && r->0 == node@.int("value"@) + delta,
//@entry
    proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs new_float_constant_node props=C07
//@ret r
//@spec
    ensures r is Ok, dec_lit(r->Ok_0@),
//@entry
    proof { lits(); }
//@subst F: Float + fmt::Display ==> F: VxDisp
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs new_boolean_constant_node props=C06,C07
//@ret r
//@spec
    ensures r is Ok, at(r->Ok_0@, "NameConstant"), r->Ok_0@.bool_at("value"@), r->Ok_0@.bool("value"@) == value,
//@entry
    proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs new_comment_node props=C17
//@ret r
//@spec
    ensures r is Ok, is_comment(r->Ok_0@), r->Ok_0@.is_str("value"@, text@),
//@entry
    proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs new_comment_node_from_node props=C06
//@ret r
//@spec
    ensures r is Ok, commented_out(r->Ok_0@, node@), rep_id(node@) is Some ==> rep_id(r->Ok_0@) == rep_id(node@),
//@entry
    proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs new_pass_node props=C06
//@ret r
//@spec
    ensures r is Ok, at(r->Ok_0@, "Pass"),
//@entry
    proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs new_string_node props=C06
//@ret r
//@spec
    ensures r is Ok, at(r->Ok_0@, "Str"), r->Ok_0@.is_str("value"@, text@),
//@entry
    proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs new_return_node props=C06
//@ret r
//@spec
    ensures r is Ok, is_ret(r->Ok_0@), ret_val(r->Ok_0@) == node@,
//@entry
    proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs new_unary_op_node props=C06
//@ret r
//@spec
    ensures r is Ok, at(r->Ok_0@, "UnaryOp"), r->Ok_0@.has("operand"@), r->Ok_0@.at("operand"@) == operand@,
        r->Ok_0@.has("op"@), r->Ok_0@.at("op"@).is_str("ast_type"@, operator@),
//@entry
    proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs pretty_print_node trusted
//@ret r
//@spec
    ensures r@ == printed(node@),
//@end
//@item mutagenyx_lib/src/vyper/mutators.rs ListLikeThing
spec fn kind_text(k: ListLikeThing) -> Seq<char> { match k { ListLikeThing::Tuple => "Tuple"@, ListLikeThing::List => "List"@ } }
impl VxDisp for ListLikeThing {
    closed spec fn vx_disp(&self) -> Seq<char> { kind_text(*self) }
    closed spec fn vx_raw(&self) -> JV { arbitrary() }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
impl ListLikeThing {
//@fn mutagenyx_lib/src/vyper/mutators.rs Display@ListLikeThing::fmt props=C06
//@spec
    ensures final(f)@ == old(f)@ + kind_text(*self),
//@subst fmt::Result ==> Result<(), Foreign>
//@end
}
//@fn mutagenyx_lib/src/vyper/mutators.rs new_list_like_thing_node props=C06 loops=1
//@ret r
//@spec
    ensures r is Ok, list_of_none(r->Ok_0@, kind_text(kind), size as int),
//@entry
    proof { lits(); }
//@loop 0
        invariant
            none_array@.len() == vx_it0.index(),
            forall|i: int| 0 <= i < none_array@.len() ==> none_lit((#[trigger] none_array@[i])@),
//@loopstart 0
        proof { lits(); }
//@end
