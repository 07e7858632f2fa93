//@item mutagenyx_lib/src/vyper/mutators.rs BinaryOpMutator %% HashMap<&'static str, &'static str> ==> StrMap<&'static str>
impl BinaryOpMutator {
    proof fn offers(self) requires self.mwf() ensures self.operators@.len() > 0, forall|s: Seq<char>| #[trigger] offers(self.operators@, s) {
        lits();
        let v = self.operators@;
        let f = family(self.mutation_type);
        match self.mutation_type {
            MutationType::Generic(GenericMutation::LogicalBinaryOp) => fam_offers(v, f, "&&"@, "||"@),
            MutationType::Generic(GenericMutation::BitwiseBinaryOp) => fam_offers(v, f, "&"@, "|"@),
            MutationType::Generic(GenericMutation::BitshiftBinaryOp) => fam_offers(v, f, "<<"@, ">>"@),
            MutationType::Generic(GenericMutation::ComparisonBinaryOp) => fam_offers(v, f, "=="@, "!="@),
            _ => fam_offers(v, f, "+"@, "-"@),
        }
    }
    proof fn covered(self, o: Seq<char>) requires self.mwf(), has_str(self.operators@, o) ensures self.reverse_operator_map@.dom().contains(o) {
        lits();
        let ns = seq!["Add"@, "Sub"@, "Mult"@, "Div"@, "Mod"@, "Pow"@, "And"@, "Or"@, "BitAnd"@, "BitOr"@, "BitXor"@, "Eq"@, "NotEq"@, "Gt"@, "GtE"@, "Lt"@, "LtE"@, "LShift"@, "RShift"@];
        assert(family(self.mutation_type)(o));
        assert(py("Add"@) is Some && py("Sub"@) is Some && py("Mult"@) is Some && py("Div"@) is Some && py("Mod"@) is Some && py("Pow"@) is Some && py("And"@) is Some && py("Or"@) is Some && py("BitAnd"@) is Some
            && py("BitOr"@) is Some && py("BitXor"@) is Some && py("Eq"@) is Some && py("NotEq"@) is Some && py("Gt"@) is Some && py("GtE"@) is Some && py("Lt"@) is Some && py("LtE"@) is Some && py("LShift"@) is Some && py("RShift"@) is Some);
    }
//@fn mutagenyx_lib/src/vyper/mutators.rs BinaryOpMutator::new props=C09,C04 loops=1
//@ret r
//@spec
        requires is_binary(mutation_type), lists(operators@, family(mutation_type)),
        ensures r.mwf(), r.typ() == mutation_type,
//@entry
        proof { lits(); }
//@subst operator_map.iter() ==> operator_map.vx_iter()
//@loop 0
            invariant
                is_py_map(operator_map@),
                forall|i: int| 0 <= i < vx_it0.seq().len() ==> py((#[trigger] vx_it0.seq()[i]).0@) == Some(vx_it0.seq()[i].1@),
                forall|n: Seq<char>| #[trigger] operator_map@.dom().contains(n) ==> exists|i: int| 0 <= i < vx_it0.seq().len() && (#[trigger] vx_it0.seq()[i]).0@ == n,
                forall|o: Seq<char>| #[trigger] reverse_operator_map@.dom().contains(o) ==> py(reverse_operator_map@[o]@) == Some(o),
                forall|i: int| 0 <= i < vx_it0.index() ==> reverse_operator_map@.dom().contains((#[trigger] vx_it0.seq()[i]).1@),
//@loopstart 0
            proof { assert(vx_it0.seq()[vx_it0.index()] == (key, value)); }
//@afterloop 0
            proof {
                assert forall|n: Seq<char>| #[trigger] py(n) is Some implies reverse_operator_map@.dom().contains(py(n)->0) by { assert(operator_map@.dom().contains(n)); }
            }
//@end
}
impl Mutator<VyperAST> for BinaryOpMutator {
    closed spec fn mwf(&self) -> bool { is_binary(self.mutation_type) && lists(self.operators@, family(self.mutation_type)) && is_py_map(self.operator_map@) && is_rev_map(self.reverse_operator_map@) }
    closed spec fn typ(&self) -> MutationType { self.mutation_type }
    closed spec fn comment(&self) -> Option<VyperAST> { self.comment_node }
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@BinaryOpMutator::is_mutable_node props=C10,C08
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@BinaryOpMutator::mutate props=C03,C04,C08,C09,C17 loops=1 attr=exec_allows_no_decreases_clause
//@entry
        proof { lits(); }
        proof { self.offers(); }
//@loop 0
        invariant
            offers(self.operators@, original_operator@), // [C08]
            has_str(self.operators@, (*chosen_operator)@),
            self.operators@ == old(self).operators@, self.operators@.len() > 0,
//@afterloop 0
        proof { lits(); self.covered((*chosen_operator)@); }
//@after set_node_for_key 0
        proof { assert(node@ == set_op(old(node)@, (*vyper_chosen_operator)@)); }
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@BinaryOpMutator::implements props=C09
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@BinaryOpMutator::get_comment_node props=C17
//@end
}
//@item mutagenyx_lib/src/vyper/mutators.rs AssignmentMutator
impl AssignmentMutator {
//@fn mutagenyx_lib/src/vyper/mutators.rs AssignmentMutator::new props=C09
//@ret r
//@spec
        ensures r.mwf(), r.typ() == MT::Generic(GM::Assignment),
//@end
}
impl Mutator<VyperAST> for AssignmentMutator {
    closed spec fn mwf(&self) -> bool { true }
    closed spec fn typ(&self) -> MutationType { MT::Generic(GM::Assignment) }
    closed spec fn comment(&self) -> Option<VyperAST> { self.comment_node }
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@AssignmentMutator::is_mutable_node props=C10,C08
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@AssignmentMutator::mutate props=C03,C07,C08,C09,C17 
//@entry
        proof { lits(); }
        proof { ax_p2_127(); ax_p2_128(); }
//@after set_node_for_key 0
        proof { assert(int_lit(node@.at("value"@), replacement_value as int)); }
//@after set_node_for_key 1
        proof { assert(int_lit(node@.at("value"@), replacement_value as int)); }
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@AssignmentMutator::implements props=C09
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@AssignmentMutator::get_comment_node props=C17
//@end
}
//@item mutagenyx_lib/src/vyper/mutators.rs DeleteStatementMutator
impl DeleteStatementMutator {
//@fn mutagenyx_lib/src/vyper/mutators.rs DeleteStatementMutator::new props=C09
//@ret r
//@spec
        ensures r.mwf(), r.typ() == MT::Generic(GM::DeleteStatement),
//@entry
        proof { lits(); }
//@end
}
impl Mutator<VyperAST> for DeleteStatementMutator {
    closed spec fn mwf(&self) -> bool { forall|s: Seq<char>| #[trigger] has_str(self.single_line_statements_to_avoid@, s) <==> (s == "view"@ || s == "nonpayable"@ || s == "payable"@) }
    closed spec fn typ(&self) -> MutationType { MT::Generic(GM::DeleteStatement) }
    closed spec fn comment(&self) -> Option<VyperAST> { self.comment_node }
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@DeleteStatementMutator::is_mutable_node props=C10,C08
//@entry
        proof { lits(); }
//@subst &&*first_statement_s ==> &first_statement_s.as_str()
//@before pretty_print_node 0
        proof { assert(jvs(body_array@)[0] == body_array@[0]@); }
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@DeleteStatementMutator::mutate props=C03,C06,C08,C09,C17
//@entry
        proof { lits(); }
        proof { assert forall|x: u64| #[trigger] (x & 20u64) <= 20u64 by { assert(x & 20u64 <= 20u64) by (bit_vector); } }
        proof { boo_facts(old(node)@.at("returns"@).str("id"@)); }
//@after new_return_node 1
            proof { assert(int_lit(ret_val(return_node@), number as int)); }
//@after new_return_node 2
            proof { assert(int_lit(ret_val(return_node@), number as int)); }
//@before new_list_like_thing_node 0
            proof { ax_small(elements_array@); }
//@before set_node_for_key 0
            proof {
                let s = old(node)@.arr("body"@);
                let y = jvs(body_array@);
                assert(commented_out(y[index as int], s[index as int])); // [C06]
                if s.len() > 1 { assert(y =~= s.update(index as int, y[index as int])); // [C03]
                }
                else {
                    let r = old(node)@.at("returns"@);
                    if old(node)@.has("returns"@) && r.str_at("ast_type"@) {
                    if at(r, "Name") {
                        if r.str_at("id"@) {
                        assert(y.len() == 2);
                        if named(r, "boo") { assert(is_ret(y[1]) && bool_lit(ret_val(y[1]))); }
                        else if named(r, "uin") { assert(is_ret(y[1]) && int_lit_in(ret_val(y[1]), 0, 11)); }
                        else if named(r, "int") { assert(is_ret(y[1]) && int_lit_in(ret_val(y[1]), -10, 11)); }
                        else if named(r, "str") { assert(is_ret(y[1]) && at(ret_val(y[1]), "Str")); }
                        else { assert(at(y[1], "Pass")); }
                        }
                    } else if (at(r, "Tuple") || at(r, "List")) {
                        if r.arr_at("elements"@) { assert(y.len() == 2 && is_ret(y[1])); assert(list_of_none(ret_val(y[1]), r.str("ast_type"@), r.arr("elements"@).len() as int)); }
                    } else { assert(y.len() == 1); }
                    }
                    assert(filled(old(node)@, y)); // [C06]
                }
            }
//@after finish 0
            proof { assert(del_rel(old(node)@, node@, index as int)); }
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@DeleteStatementMutator::implements props=C09
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@DeleteStatementMutator::get_comment_node props=C17
//@end
}
//@item mutagenyx_lib/src/vyper/mutators.rs FunctionCallMutator
impl FunctionCallMutator {
//@fn mutagenyx_lib/src/vyper/mutators.rs FunctionCallMutator::new props=C09
//@ret r
//@spec
        ensures r.mwf(), r.typ() == MT::Generic(GM::FunctionCall),
//@end
}
impl Mutator<VyperAST> for FunctionCallMutator {
    closed spec fn mwf(&self) -> bool { true }
    closed spec fn typ(&self) -> MutationType { MT::Generic(GM::FunctionCall) }
    closed spec fn comment(&self) -> Option<VyperAST> { self.comment_node }
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@FunctionCallMutator::is_mutable_node props=C10,C08
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@FunctionCallMutator::mutate props=C03,C06,C08,C09,C17 loops=1 attr=exec_allows_no_decreases_clause
//@entry
        proof { lits(); }
//@loop 0
            invariant_except_break
                *node == *old(node),
            invariant
                jvs(args_array@) == old(node)@.arr("args"@), args_array@.len() > 0, self.mwf(),
            ensures
                self.comment() is Some && is_comment(self.comment()->0@),
                exists|i: int| #[trigger] arg_of(old(node)@, i) && node@ == old(node)@.arr("args"@)[i],
//@loopstart 0
            proof { lits(); assert forall|k: int| 0 <= k < args_array@.len() implies #[trigger] jvs(args_array@)[k] == args_array@[k]@ by { } }
//@after clone 0
            proof { assert(jvs(args_array@)[index as int] == value@); assert(arg_of(old(node)@, index as int)); }
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@FunctionCallMutator::implements props=C09
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@FunctionCallMutator::get_comment_node props=C17
//@end
}
//@item mutagenyx_lib/src/vyper/mutators.rs SwapFunctionArgumentsMutator
impl SwapFunctionArgumentsMutator {
//@fn mutagenyx_lib/src/vyper/mutators.rs SwapFunctionArgumentsMutator::new props=C09
//@ret r
//@spec
        ensures r.mwf(), r.typ() == MT::Generic(GM::SwapFunctionArguments),
//@end
}
impl Mutator<VyperAST> for SwapFunctionArgumentsMutator {
    closed spec fn mwf(&self) -> bool { true }
    closed spec fn typ(&self) -> MutationType { MT::Generic(GM::SwapFunctionArguments) }
    closed spec fn comment(&self) -> Option<VyperAST> { self.comment_node }
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@SwapFunctionArgumentsMutator::is_mutable_node props=C10,C08
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@SwapFunctionArgumentsMutator::mutate props=C03,C05,C08,C09,C17 loops=1 attr=exec_allows_no_decreases_clause
//@entry
        proof { lits(); }
//@loop 0
            invariant
                jvs(args_array@) == old(node)@.arr("args"@), args_array@.len() >= 2, random_index1 < args_array@.len(), random_index2 < args_array@.len(),
//@before set_node_for_key 0
            proof {
                let s = old(node)@.arr("args"@);
                assert(distinct(s, 0, 1));
                assert(jvs(args_array@) =~= swapped(s, 0, 1));
            }
//@before set_node_for_key 1
            proof {
                let s = old(node)@.arr("args"@);
                let (i, j) = if random_index1 < random_index2 { (random_index1 as int, random_index2 as int) } else { (random_index2 as int, random_index1 as int) };
                assert(distinct(s, i, j));
                assert(jvs(args_array@) =~= swapped(s, i, j));
            }
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@SwapFunctionArgumentsMutator::implements props=C09
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@SwapFunctionArgumentsMutator::get_comment_node props=C17
//@end
}
//@item mutagenyx_lib/src/vyper/mutators.rs IfStatementMutator
impl IfStatementMutator {
//@fn mutagenyx_lib/src/vyper/mutators.rs IfStatementMutator::new props=C09
//@ret r
//@spec
        ensures r.mwf(), r.typ() == MT::Generic(GM::IfStatement),
//@end
}
impl Mutator<VyperAST> for IfStatementMutator {
    closed spec fn mwf(&self) -> bool { true }
    closed spec fn typ(&self) -> MutationType { MT::Generic(GM::IfStatement) }
    closed spec fn comment(&self) -> Option<VyperAST> { self.comment_node }
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@IfStatementMutator::is_mutable_node props=C10,C08
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@IfStatementMutator::mutate props=C03,C06,C08,C09,C17
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@IfStatementMutator::implements props=C09
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@IfStatementMutator::get_comment_node props=C17
//@end
}
//@item mutagenyx_lib/src/vyper/mutators.rs IntegerMutator
impl IntegerMutator {
//@fn mutagenyx_lib/src/vyper/mutators.rs IntegerMutator::new props=C09
//@ret r
//@spec
        ensures r.mwf(), r.typ() == MT::Generic(GM::Integer),
//@end
}
impl Mutator<VyperAST> for IntegerMutator {
    closed spec fn mwf(&self) -> bool { true }
    closed spec fn typ(&self) -> MutationType { MT::Generic(GM::Integer) }
    closed spec fn comment(&self) -> Option<VyperAST> { self.comment_node }
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@IntegerMutator::is_mutable_node props=C10,C08
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@IntegerMutator::mutate props=C03,C07,C08,C09,C17
//@entry
        proof { lits(); }
//@after set_node_for_key 0
        proof { assert(int_lit(node@, value as int)); }
//@after set_node_for_key 1
        proof { assert(int_lit(node@, value as int)); }
//@after set_node_for_key 2
        proof { assert(int_lit(node@, (value as i64) as int)); }
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@IntegerMutator::implements props=C09
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@IntegerMutator::get_comment_node props=C17
//@end
}
//@item mutagenyx_lib/src/vyper/mutators.rs SwapOperatorArgumentsMutator %% HashMap<&'static str, &'static str> ==> StrMap<&'static str>
impl SwapOperatorArgumentsMutator {
//@fn mutagenyx_lib/src/vyper/mutators.rs SwapOperatorArgumentsMutator::new props=C09
//@ret r
//@spec
        ensures r.mwf(), r.typ() == MT::Generic(GM::SwapOperatorArguments),
//@end
}
impl Mutator<VyperAST> for SwapOperatorArgumentsMutator {
    closed spec fn mwf(&self) -> bool { lists(self.valid_operators@, |s: Seq<char>| noncomm(s)) && is_py_map(self.operator_map@) }
    closed spec fn typ(&self) -> MutationType { MT::Generic(GM::SwapOperatorArguments) }
    closed spec fn comment(&self) -> Option<VyperAST> { self.comment_node }
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@SwapOperatorArgumentsMutator::is_mutable_node props=C10,C08
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@SwapOperatorArgumentsMutator::mutate props=C03,C05,C08,C09,C17
//@entry
        proof { lits(); }
//@after set_node_for_key 1
        proof { assert(node@->Obj_0 =~= old(node)@.set("left"@, old(node)@.at("right"@)).set("right"@, old(node)@.at("left"@))->Obj_0); }
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@SwapOperatorArgumentsMutator::implements props=C09
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@SwapOperatorArgumentsMutator::get_comment_node props=C17
//@end
}
//@item mutagenyx_lib/src/vyper/mutators.rs SwapLinesMutator
impl SwapLinesMutator {
//@fn mutagenyx_lib/src/vyper/mutators.rs SwapLinesMutator::new props=C09
//@ret r
//@spec
        ensures r.mwf(), r.typ() == MT::Generic(GM::SwapLines),
//@end
}
impl Mutator<VyperAST> for SwapLinesMutator {
    closed spec fn mwf(&self) -> bool { self.key@ == "body"@ }
    closed spec fn typ(&self) -> MutationType { MT::Generic(GM::SwapLines) }
    closed spec fn comment(&self) -> Option<VyperAST> { self.comment_node }
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@SwapLinesMutator::is_mutable_node props=C10,C08 loops=1 attr=loop_isolation(false)
//@entry
        proof { lits(); }
//@loop 0
            invariant
                jvs(body_array@) == node@.arr("body"@),
                swappable_statements < 2,
                swappable_statements == 0 ==> forall|k: int| 0 <= k < vx_it0.index() ==> !(#[trigger] movable(node@.arr("body"@), k)),
                swappable_statements == 1 ==> exists|f: int| #[trigger] only1(node@.arr("body"@), f, vx_it0.index()),
//@loopstart 0
            proof { assert(jvs(body_array@)[vx_it0.index()] == value@); lits(); }
            let ghost ss = node@.arr("body"@);
            let ghost f = choose|f: int| #[trigger] only1(ss, f, vx_it0.index());
            proof {
                if swappable_statements == 0 && movable(ss, vx_it0.index()) { assert(only1(ss, vx_it0.index(), vx_it0.index() + 1)); }
                if swappable_statements == 1 && movable(ss, vx_it0.index()) { assert(movable2(ss, f, vx_it0.index())); }
                if swappable_statements == 1 && !movable(ss, vx_it0.index()) { assert(only1(ss, f, vx_it0.index() + 1)); }
            }
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@SwapLinesMutator::mutate props=C03,C05,C08,C09,C17 loops=2 attr=exec_allows_no_decreases_clause
//@entry
        proof { lits(); }
//@loop 0
            invariant
                jvs(body_array@) == old(node)@.arr("body"@),
                exists|i: int, j: int| #[trigger] movable2(old(node)@.arr("body"@), i, j), // [C08]
            ensures
                movable(old(node)@.arr("body"@), first_index as int),
//@loopstart 0
            proof { lits(); assert forall|k: int| 0 <= k < body_array@.len() implies #[trigger] jvs(body_array@)[k] == body_array@[k]@ by { } }
//@loop 1
            invariant
                jvs(body_array@) == old(node)@.arr("body"@),
                movable(old(node)@.arr("body"@), first_index as int),
                exists|i: int, j: int| #[trigger] movable2(old(node)@.arr("body"@), i, j), // [C08]
            ensures
                movable(old(node)@.arr("body"@), second_index as int), second_index != first_index,
//@loopstart 1
            proof { lits(); assert forall|k: int| 0 <= k < body_array@.len() implies #[trigger] jvs(body_array@)[k] == body_array@[k]@ by { } }
//@before set_node_for_key 0
            proof {
                let s = old(node)@.arr("body"@);
                assert(s.remove(larger_index as int).remove(smaller_index as int).insert(smaller_index as int, s[larger_index as int]).insert(larger_index as int, s[smaller_index as int])
                    =~= swapped(s, smaller_index as int, larger_index as int));
                assert(movable2(s, smaller_index as int, larger_index as int));
            }
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@SwapLinesMutator::implements props=C09
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@SwapLinesMutator::get_comment_node props=C17
//@end
}
//@item mutagenyx_lib/src/vyper/mutators.rs UnaryOpMutator
impl UnaryOpMutator {
//@fn mutagenyx_lib/src/vyper/mutators.rs UnaryOpMutator::new props=C09
//@ret r
//@spec
        ensures r.mwf(), r.typ() == MT::Generic(GM::UnaryOp),
//@end
}
impl Mutator<VyperAST> for UnaryOpMutator {
    closed spec fn mwf(&self) -> bool { true }
    closed spec fn typ(&self) -> MutationType { MT::Generic(GM::UnaryOp) }
    closed spec fn comment(&self) -> Option<VyperAST> { self.comment_node }
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@UnaryOpMutator::is_mutable_node props=C10,C08
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@UnaryOpMutator::mutate props=C03,C06,C08,C09,C17
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@UnaryOpMutator::implements props=C09
//@end
//@fn mutagenyx_lib/src/vyper/mutators.rs Mutator@UnaryOpMutator::get_comment_node props=C17
//@end
}
proof fn boo_facts(s: Seq<char>) ensures
    starts(s, "boo"@) ==> ascii(s.take(3)), starts(s, "uin"@) ==> ascii(s.take(3)), starts(s, "int"@) ==> ascii(s.take(3)), starts(s, "str"@) ==> ascii(s.take(3)),
    starts(s, "boo"@) ==> !starts(s, "uin"@) && !starts(s, "int"@) && !starts(s, "str"@),
    starts(s, "uin"@) ==> !starts(s, "int"@) && !starts(s, "str"@), starts(s, "int"@) ==> !starts(s, "str"@),
{ lits(); reveal_strlit("boo"); reveal_strlit("uin"); reveal_strlit("int"); reveal_strlit("str"); }
//@item mutagenyx_lib/src/vyper/mutators.rs VyperMutatorFactory
impl VyperMutatorFactory {
//@fn mutagenyx_lib/src/vyper/mutators.rs MutatorFactory@VyperMutatorFactory::mutator_for props=C09
//@ret r
//@spec
    ensures r is Some <==> *mutation_type is Generic, r is Some ==> r->0.mwf() && r->0.typ() == *mutation_type,
//@entry
    proof { lits(); fam_ext(); }
//@end
}
proof fn fam_ext() ensures
    forall|v: Seq<&'static str>| lists(v, |s: Seq<char>| arith(s)) ==> #[trigger] lists(v, family(MT::Generic(GM::ArithmeticBinaryOp))),
    forall|v: Seq<&'static str>| lists(v, |s: Seq<char>| logic(s)) ==> #[trigger] lists(v, family(MT::Generic(GM::LogicalBinaryOp))),
    forall|v: Seq<&'static str>| lists(v, |s: Seq<char>| bitw(s)) ==> #[trigger] lists(v, family(MT::Generic(GM::BitwiseBinaryOp))),
    forall|v: Seq<&'static str>| lists(v, |s: Seq<char>| bshift(s)) ==> #[trigger] lists(v, family(MT::Generic(GM::BitshiftBinaryOp))),
    forall|v: Seq<&'static str>| lists(v, |s: Seq<char>| compar(s)) ==> #[trigger] lists(v, family(MT::Generic(GM::ComparisonBinaryOp))),
{ }
