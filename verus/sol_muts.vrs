//@item mutagenyx_lib/src/solidity/mutators.rs BinaryOpMutator
impl BinaryOpMutator {
    proof fn offers(self) requires self.mwf() ensures self.operators@.len() > 0, forall|s: Seq<char>| #[trigger] offers(self.operators@, s) {
        lits();
        let v = self.operators@;
        let f = family(self.mutation_type);
        match self.mutation_type {
            MutationType::Generic(GenericMutation::LogicalBinaryOp) => fam_offers(v, f, "&&"@, "||"@),
            MutationType::Generic(GenericMutation::BitwiseBinaryOp) => fam_offers(v, f, "&"@, "|"@),
            MutationType::Generic(GenericMutation::BitshiftBinaryOp) => fam_offers(v, f, "<<"@, ">>"@),
            MutationType::Generic(GenericMutation::ComparisonBinaryOp) => fam_offers(v, f, "=="@, "!="@),
            _ => fam_offers(v, f, "+"@, "-"@),
        }
    }
//@fn mutagenyx_lib/src/solidity/mutators.rs BinaryOpMutator::new props=C09
//@ret r
//@spec
        requires is_binary(mutation_type), lists(operators@, family(mutation_type)),
        ensures r.mwf(), r.typ() == mutation_type,
//@end
}
impl Mutator<SolidityAST> for BinaryOpMutator {
    closed spec fn mwf(&self) -> bool { is_binary(self.mutation_type) && lists(self.operators@, family(self.mutation_type)) }
    closed spec fn typ(&self) -> MutationType { self.mutation_type }
    closed spec fn comment(&self) -> Option<SolidityAST> { self.comment_node }
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@BinaryOpMutator::is_mutable_node props=C10,C08
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@BinaryOpMutator::mutate props=C03,C04,C08,C09,C17 loops=1 attr=exec_allows_no_decreases_clause
//@entry
        proof { lits(); self.offers(); }
//@loop 0
        invariant
            offers(self.operators@, original_operator@), // [C08]
            has_str(self.operators@, (*chosen_operator)@),
            self.operators@ == old(self).operators@, self.operators@.len() > 0, self.mwf(), self.mutation_type == old(self).mutation_type,
            mutation_result.mutation_type == Some(self.mutation_type), mutation_result.mutated_node_id is None,
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@BinaryOpMutator::implements props=C09
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@BinaryOpMutator::get_comment_node props=C17
//@end
}
//@item mutagenyx_lib/src/solidity/mutators.rs UnaryOpMutator
impl UnaryOpMutator {
//@fn mutagenyx_lib/src/solidity/mutators.rs UnaryOpMutator::new props=C09
//@ret r
//@spec
        ensures r.mwf(), r.typ() == MT::Generic(GM::UnaryOp),
//@end
}
impl Mutator<SolidityAST> for UnaryOpMutator {
    closed spec fn mwf(&self) -> bool { lists(self.prefix_operators@, |s: Seq<char>| pre_un(s)) && lists(self.postfix_operators@, |s: Seq<char>| post_un(s)) }
    closed spec fn typ(&self) -> MutationType { MT::Generic(GM::UnaryOp) }
    closed spec fn comment(&self) -> Option<SolidityAST> { self.comment_node }
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@UnaryOpMutator::is_mutable_node props=C10,C08
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@UnaryOpMutator::mutate props=C03,C04,C08,C09,C17 loops=1 attr=exec_allows_no_decreases_clause
//@entry
        proof { lits(); fam_offers(self.prefix_operators@, |s: Seq<char>| pre_un(s), "++"@, "--"@); fam_offers(self.postfix_operators@, |s: Seq<char>| post_un(s), "++"@, "--"@); }
//@loop 0
        invariant
            offers(operator_list@, original_operator@), // [C08]
            has_str(operator_list@, (*chosen_operator)@), operator_list@.len() > 0,
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@UnaryOpMutator::implements props=C09
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@UnaryOpMutator::get_comment_node props=C17
//@end
}
//@item mutagenyx_lib/src/solidity/mutators.rs AssignmentMutator
impl AssignmentMutator {
//@fn mutagenyx_lib/src/solidity/mutators.rs AssignmentMutator::new props=C09
//@ret r
//@spec
        ensures r.mwf(), r.typ() == MT::Generic(GM::Assignment),
//@end
}
impl Mutator<SolidityAST> for AssignmentMutator {
    closed spec fn mwf(&self) -> bool { true }
    closed spec fn typ(&self) -> MutationType { MT::Generic(GM::Assignment) }
    closed spec fn comment(&self) -> Option<SolidityAST> { self.comment_node }
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@AssignmentMutator::is_mutable_node props=C10,C08
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@AssignmentMutator::mutate props=C03,C07,C08,C09,C17 strslice
//@entry
        proof { lits(); ts_facts(type_string(node@)->0); p2_facts(); }
//@after set_node_for_key 0
        proof { assert(num_lit(node@.at("rightHandSide"@), replacement_value as int)); }
//@after set_node_for_key 1
        proof { assert(num_lit(node@.at("rightHandSide"@), replacement_value as int)); }
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@AssignmentMutator::implements props=C09
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@AssignmentMutator::get_comment_node props=C17
//@end
}
//@item mutagenyx_lib/src/solidity/mutators.rs DeleteStatementMutator
impl DeleteStatementMutator {
//@fn mutagenyx_lib/src/solidity/mutators.rs DeleteStatementMutator::new props=C09
//@ret r
//@spec
        ensures r.mwf(), r.typ() == MT::Generic(GM::DeleteStatement),
//@end
}
impl Mutator<SolidityAST> for DeleteStatementMutator {
    closed spec fn mwf(&self) -> bool { true }
    closed spec fn typ(&self) -> MutationType { MT::Generic(GM::DeleteStatement) }
    closed spec fn comment(&self) -> Option<SolidityAST> { self.comment_node }
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@DeleteStatementMutator::is_mutable_node props=C10,C08 loops=1 attr=loop_isolation(false)
//@entry
        proof { lits(); }
//@loop 0
            invariant
                jvs(statements_array@) == node@.arr("statements"@),
                forall|k: int| 0 <= k < vx_it0.index() ==> !(#[trigger] expr_stmt_at(node@.arr("statements"@), k)),
//@loopstart 0
            proof { assert(jvs(statements_array@)[vx_it0.index()] == value@); lits(); assert(expr_stmt_at(node@.arr("statements"@), vx_it0.index()) == nt(value@, "ExpressionStatement")); }
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@DeleteStatementMutator::mutate props=C03,C06,C08,C09,C17 loops=1
//@entry
        proof { lits(); }
//@loop 0
            invariant
                jvs(statements_array@) == old(node)@.arr("statements"@),
                forall|k: int| 0 <= k < expression_statement_indexes@.len() ==> expr_stmt_at(jvs(statements_array@), #[trigger] expression_statement_indexes@[k] as int),
                forall|k: int| 0 <= k < vx_i0 && #[trigger] expr_stmt_at(jvs(statements_array@), k) ==> expression_statement_indexes@.len() > 0, // [C08]
//@loopstart 0
            proof { assert(jvs(statements_array@)[vx_i0 as int] == statements_array@[vx_i0 as int]@); lits(); }
//@afterloop 0
            let ghost stmts = jvs(statements_array@);
//@after finish 0
            proof { assert(del_rel(old(node)@, node@, expression_statement_indexes@[vector_index as int] as int)); }
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@DeleteStatementMutator::implements props=C09
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@DeleteStatementMutator::get_comment_node props=C17
//@end
}
//@item mutagenyx_lib/src/solidity/mutators.rs FunctionCallMutator
impl FunctionCallMutator {
//@fn mutagenyx_lib/src/solidity/mutators.rs FunctionCallMutator::new props=C09
//@ret r
//@spec
        ensures r.mwf(), r.typ() == MT::Generic(GM::FunctionCall),
//@end
}
impl Mutator<SolidityAST> for FunctionCallMutator {
    closed spec fn mwf(&self) -> bool { true }
    closed spec fn typ(&self) -> MutationType { MT::Generic(GM::FunctionCall) }
    closed spec fn comment(&self) -> Option<SolidityAST> { self.comment_node }
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@FunctionCallMutator::is_mutable_node props=C10,C08 loops=1 attr=loop_isolation(false)
//@entry
        proof { lits(); }
//@loop 0
            invariant
                jvs(arguments_array@) == node@.arr("arguments"@),
                forall|k: int| 0 <= k < vx_it0.index() ==> !(#[trigger] nonlit_at(node@.arr("arguments"@), k)),
//@loopstart 0
            proof { assert(jvs(arguments_array@)[vx_it0.index()] == value@); lits(); assert(nonlit_at(node@.arr("arguments"@), vx_it0.index()) == !nt(value@, "Literal")); }
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@FunctionCallMutator::mutate props=C03,C06,C08,C09,C17 loops=1 attr=exec_allows_no_decreases_clause
//@entry
        proof { lits(); }
//@loop 0
            invariant_except_break
                *node == *old(node),
            invariant
                jvs(arguments_array@) == old(node)@.arr("arguments"@),
                exists|i: int| #[trigger] nonlit_at(old(node)@.arr("arguments"@), i), // [C08]
            ensures
                exists|i: int| #[trigger] nonlit_at(old(node)@.arr("arguments"@), i) && node@ == old(node)@.arr("arguments"@)[i],
//@loopstart 0
            proof { lits(); assert forall|k: int| 0 <= k < arguments_array@.len() implies #[trigger] jvs(arguments_array@)[k] == arguments_array@[k]@ by { } }
//@after clone 0
            proof { assert(jvs(arguments_array@)[index as int] == value@); assert(nonlit_at(old(node)@.arr("arguments"@), index as int)); }
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@FunctionCallMutator::implements props=C09
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@FunctionCallMutator::get_comment_node props=C17
//@end
}
//@item mutagenyx_lib/src/solidity/mutators.rs IndexedNode
impl IndexedNode {
//@fn mutagenyx_lib/src/solidity/mutators.rs IndexedNode::new props=C05
//@ret r
//@spec
        ensures r.index == index, r.node == node,
//@end
}
// number of the first n arguments whose type is k
pub open spec fn cnt(s: Seq<JV>, k: Seq<char>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { cnt(s, k, n - 1) + (if type_string(s[n - 1]) == Some(k) { 1int } else { 0int }) } }
pub proof fn cnt_le(s: Seq<JV>, k: Seq<char>, n: int)
    ensures 0 <= cnt(s, k, n), n >= 0 ==> cnt(s, k, n) <= n
    decreases n
{ if n > 0 { cnt_le(s, k, n - 1); } }
pub proof fn cnt_mono(s: Seq<JV>, k: Seq<char>, m: int, n: int)
    requires m <= n
    ensures cnt(s, k, m) <= cnt(s, k, n)
    decreases n
{ if m < n && n > 0 { cnt_mono(s, k, m, n - 1); } else { cnt_le(s, k, n); } }
pub proof fn cnt1(s: Seq<JV>, k: Seq<char>, n: int)
    requires cnt(s, k, n) >= 1, n <= s.len()
    ensures exists|i: int| 0 <= i < n && type_string(#[trigger] s[i]) == Some(k)
    decreases n
{ if n > 0 { if type_string(s[n - 1]) != Some(k) { cnt1(s, k, n - 1); } } }
pub proof fn cnt2(s: Seq<JV>, k: Seq<char>, n: int)
    requires cnt(s, k, n) >= 2, n <= s.len()
    ensures exists|i: int, j: int| #[trigger] same_type(s, i, j)
    decreases n
{
    if n > 0 {
        if type_string(s[n - 1]) == Some(k) {
            cnt1(s, k, n - 1);
            let i = choose|i: int| 0 <= i < n - 1 && type_string(#[trigger] s[i]) == Some(k);
            assert(same_type(s, i, n - 1));
        } else { cnt2(s, k, n - 1); }
    }
}
pub proof fn pair_cnt(s: Seq<JV>, i: int, j: int)
    requires same_type(s, i, j)
    ensures cnt(s, type_string(s[i])->0, s.len() as int) >= 2
{
    let k = type_string(s[i])->0;
    assert(cnt(s, k, i + 1) >= 1) by { cnt_le(s, k, i); }
    cnt_mono(s, k, i + 1, j);
    assert(cnt(s, k, j + 1) >= 2);
    cnt_mono(s, k, j + 1, s.len() as int);
}
// a list of arguments of one type, in argument order
spec fn good_list(l: Seq<IndexedNode>, s: Seq<JV>, k: Seq<char>, n: int) -> bool {
    &&& forall|a: int| 0 <= a < l.len() ==> (#[trigger] l[a]).index < n && type_string(s[l[a].index as int]) == Some(k) && l[a].node@ == s[l[a].index as int]
    &&& forall|a: int, b: int| 0 <= a < b < l.len() ==> (#[trigger] l[a]).index < (#[trigger] l[b]).index
}
spec fn in_lists(l: Seq<IndexedNode>, s: Seq<JV>) -> bool { l.len() >= 2 && exists|k: Seq<char>| #[trigger] good_list(l, s, k, s.len() as int) }
// list_list.sort_by_key(|list| list[0].index): some reordering, panics on an empty list
#[verifier::external_body]
fn vx_sort_by_first(v: &mut Vec<Vec<IndexedNode>>)
    requires forall|i: int| 0 <= i < old(v)@.len() ==> (#[trigger] old(v)@[i])@.len() > 0,
    ensures final(v)@.len() == old(v)@.len(),
        forall|i: int| 0 <= i < final(v)@.len() ==> old(v)@.contains(#[trigger] final(v)@[i]),
{ unimplemented!() }
//@item mutagenyx_lib/src/solidity/mutators.rs SwapFunctionArgumentsMutator
impl SwapFunctionArgumentsMutator {
//@fn mutagenyx_lib/src/solidity/mutators.rs SwapFunctionArgumentsMutator::new props=C09
//@ret r
//@spec
        ensures r.mwf(), r.typ() == MT::Generic(GM::SwapFunctionArguments),
//@end
}
impl Mutator<SolidityAST> for SwapFunctionArgumentsMutator {
    closed spec fn mwf(&self) -> bool { true }
    closed spec fn typ(&self) -> MutationType { MT::Generic(GM::SwapFunctionArguments) }
    closed spec fn comment(&self) -> Option<SolidityAST> { self.comment_node }
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@SwapFunctionArgumentsMutator::is_mutable_node props=C10,C08 loops=2 attr=loop_isolation(false)
//@entry
        proof { lits(); }
//@loop 0
            invariant
                jvs(arguments_array@) == node@.arr("arguments"@), arguments_array@.len() <= i32::MAX,
                forall|k: Seq<char>| #[trigger] type_map@.dom().contains(k) <==> cnt(node@.arr("arguments"@), k, vx_it0.index()) > 0,
                forall|k: Seq<char>| #[trigger] type_map@.dom().contains(k) ==> type_map@[k] == cnt(node@.arr("arguments"@), k, vx_it0.index()),
//@beforeloop 0
            proof { ax_small(arguments_array@); }
//@loopstart 0
            proof { assert(jvs(arguments_array@)[vx_it0.index()] == value@); lits();
                assert forall|k: Seq<char>| true implies 0 <= #[trigger] cnt(node@.arr("arguments"@), k, vx_it0.index()) <= vx_it0.index() by { cnt_le(node@.arr("arguments"@), k, vx_it0.index()); } }
//@beforeloop 1
            let ghost tm = type_map@;
            let ghost args = node@.arr("arguments"@);
            proof {
                assert forall|k: Seq<char>| #[trigger] tm.dom().contains(k) && tm[k] >= 2 implies exists|i: int, j: int| #[trigger] same_type(args, i, j) by { cnt2(args, k, args.len() as int); }
                assert forall|i: int, j: int| #[trigger] same_type(args, i, j) implies exists|k: Seq<char>| #[trigger] tm.dom().contains(k) && tm[k] >= 2 by { pair_cnt(args, i, j); assert(tm.dom().contains(type_string(args[i])->0)); }
            }
//@loop 1
            invariant
                map_entries(vx_it1.seq(), tm),
                args == node@.arr("arguments"@),
                forall|k: Seq<char>| #[trigger] tm.dom().contains(k) && tm[k] >= 2 ==> exists|i: int, j: int| #[trigger] same_type(args, i, j),
                forall|i: int| 0 <= i < vx_it1.index() ==> (#[trigger] vx_it1.seq()[i]).1 < 2,
                nt(node@, "FunctionCall"), node@.arr_at("arguments"@),
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@SwapFunctionArgumentsMutator::mutate props=C03,C05,C08,C09,C17 loops=2
//@entry
        proof { lits(); }
//@subst list_list.sort_by_key(|list| list[0].index); ==> vx_sort_by_first(&mut list_list);
//@beforeloop 0
            let ghost args = old(node)@.arr("arguments"@);
//@loop 0
            invariant
                args == old(node)@.arr("arguments"@), jvs(arguments_array@) == args,
                forall|k: Seq<char>| #[trigger] arg_map@.dom().contains(k) <==> cnt(args, k, vx_i0 as int) > 0,
                forall|k: Seq<char>| #[trigger] arg_map@.dom().contains(k) ==> arg_map@[k]@.len() == cnt(args, k, vx_i0 as int) && good_list(arg_map@[k]@, args, k, vx_i0 as int),
//@loopstart 0
            proof { assert(jvs(arguments_array@)[vx_i0 as int] == arguments_array@[vx_i0 as int]@); lits();
                assert forall|k: Seq<char>| true implies 0 <= #[trigger] cnt(args, k, vx_i0 as int) by { cnt_le(args, k, vx_i0 as int); } }
//@beforeloop 1
            let ghost am = arg_map@;
//@loop 1
            invariant
                map_entries(vx_it1.seq(), am),
                forall|k: Seq<char>| #[trigger] am.dom().contains(k) ==> good_list(am[k]@, args, k, args.len() as int),
                forall|i: int| 0 <= i < list_list@.len() ==> in_lists((#[trigger] list_list@[i])@, args),
                forall|i: int| 0 <= i < vx_it1.index() && (#[trigger] vx_it1.seq()[i]).1@.len() >= 2 ==> list_list@.len() > 0, // [C08]
//@afterloop 1
            proof {
                let (i, j) = choose|i: int, j: int| #[trigger] same_type(args, i, j);
                pair_cnt(args, i, j);
                assert(am.dom().contains(type_string(args[i])->0));
            }
//@before set_node_for_key 0
            proof {
                assert(in_lists(node_list@, args));
                let k = choose|k: Seq<char>| #[trigger] good_list(node_list@, args, k, args.len() as int);
                let (a, b) = (in1.index as int, in2.index as int);
                assert(same_type(args, a, b));
                assert(args.remove(a).insert(a, args[b]).remove(b).insert(b, args[a]) =~= swapped(args, a, b));
            }
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@SwapFunctionArgumentsMutator::implements props=C09
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@SwapFunctionArgumentsMutator::get_comment_node props=C17
//@end
}
//@item mutagenyx_lib/src/solidity/mutators.rs IfStatementMutator
impl IfStatementMutator {
//@fn mutagenyx_lib/src/solidity/mutators.rs IfStatementMutator::new props=C09
//@ret r
//@spec
        ensures r.mwf(), r.typ() == MT::Generic(GM::IfStatement),
//@end
}
impl Mutator<SolidityAST> for IfStatementMutator {
    closed spec fn mwf(&self) -> bool { true }
    closed spec fn typ(&self) -> MutationType { MT::Generic(GM::IfStatement) }
    closed spec fn comment(&self) -> Option<SolidityAST> { self.comment_node }
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@IfStatementMutator::is_mutable_node props=C10,C08
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@IfStatementMutator::mutate props=C03,C06,C08,C09,C17
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@IfStatementMutator::implements props=C09
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@IfStatementMutator::get_comment_node props=C17
//@end
}
//@item mutagenyx_lib/src/solidity/mutators.rs IntegerMutator
impl IntegerMutator {
//@fn mutagenyx_lib/src/solidity/mutators.rs IntegerMutator::new props=C09
//@ret r
//@spec
        ensures r.mwf(), r.typ() == MT::Generic(GM::Integer),
//@end
}
impl Mutator<SolidityAST> for IntegerMutator {
    closed spec fn mwf(&self) -> bool { true }
    closed spec fn typ(&self) -> MutationType { MT::Generic(GM::Integer) }
    closed spec fn comment(&self) -> Option<SolidityAST> { self.comment_node }
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@IntegerMutator::is_mutable_node props=C10,C08
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@IntegerMutator::mutate props=C03,C07,C08,C09,C17
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@IntegerMutator::implements props=C09
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@IntegerMutator::get_comment_node props=C17
//@end
}
//@item mutagenyx_lib/src/solidity/mutators.rs SwapOperatorArgumentsMutator
impl SwapOperatorArgumentsMutator {
//@fn mutagenyx_lib/src/solidity/mutators.rs SwapOperatorArgumentsMutator::new props=C09
//@ret r
//@spec
        ensures r.mwf(), r.typ() == MT::Generic(GM::SwapOperatorArguments),
//@end
}
impl Mutator<SolidityAST> for SwapOperatorArgumentsMutator {
    closed spec fn mwf(&self) -> bool { lists(self.valid_operators@, |s: Seq<char>| noncomm(s)) }
    closed spec fn typ(&self) -> MutationType { MT::Generic(GM::SwapOperatorArguments) }
    closed spec fn comment(&self) -> Option<SolidityAST> { self.comment_node }
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@SwapOperatorArgumentsMutator::is_mutable_node props=C10,C08
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@SwapOperatorArgumentsMutator::mutate props=C03,C05,C08,C09,C17
//@entry
        proof { lits(); }
//@after set_node_for_key 1
        proof { assert(node@->Obj_0 =~= old(node)@.set("leftExpression"@, old(node)@.at("rightExpression"@)).set("rightExpression"@, old(node)@.at("leftExpression"@))->Obj_0); }
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@SwapOperatorArgumentsMutator::implements props=C09
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@SwapOperatorArgumentsMutator::get_comment_node props=C17
//@end
}
//@item mutagenyx_lib/src/solidity/mutators.rs SwapLinesMutator
impl SwapLinesMutator {
//@fn mutagenyx_lib/src/solidity/mutators.rs SwapLinesMutator::new props=C09
//@ret r
//@spec
        ensures r.mwf(), r.typ() == MT::Generic(GM::SwapLines),
//@end
}
impl Mutator<SolidityAST> for SwapLinesMutator {
    closed spec fn mwf(&self) -> bool { true }
    closed spec fn typ(&self) -> MutationType { MT::Generic(GM::SwapLines) }
    closed spec fn comment(&self) -> Option<SolidityAST> { self.comment_node }
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@SwapLinesMutator::is_mutable_node props=C10,C08 loops=1 attr=loop_isolation(false)
//@entry
        proof { lits(); }
//@loop 0
            invariant
                jvs(statements_array@) == node@.arr("statements"@),
                swappable_statements < 2,
                swappable_statements == 0 ==> forall|k: int| 0 <= k < vx_it0.index() ==> !(#[trigger] movable(node@.arr("statements"@), k)),
                swappable_statements == 1 ==> exists|f: int| #[trigger] only1(node@.arr("statements"@), f, vx_it0.index()),
//@loopstart 0
            proof { assert(jvs(statements_array@)[vx_it0.index()] == value@); lits(); }
            let ghost ss = node@.arr("statements"@);
            let ghost f = choose|f: int| #[trigger] only1(ss, f, vx_it0.index());
            proof {
                if swappable_statements == 0 && movable(ss, vx_it0.index()) { assert(only1(ss, vx_it0.index(), vx_it0.index() + 1)); }
                if swappable_statements == 1 && movable(ss, vx_it0.index()) { assert(movable2(ss, f, vx_it0.index())); }
                if swappable_statements == 1 && !movable(ss, vx_it0.index()) { assert(only1(ss, f, vx_it0.index() + 1)); }
            }
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@SwapLinesMutator::mutate props=C03,C05,C08,C09,C17 loops=2 attr=exec_allows_no_decreases_clause
//@entry
        proof { lits(); }
//@loop 0
            invariant
                jvs(statements_array@) == old(node)@.arr("statements"@),
                exists|i: int, j: int| #[trigger] movable2(old(node)@.arr("statements"@), i, j), // [C08]
            ensures
                movable(old(node)@.arr("statements"@), first_index as int),
//@loopstart 0
            proof { lits(); assert forall|k: int| 0 <= k < statements_array@.len() implies #[trigger] jvs(statements_array@)[k] == statements_array@[k]@ by { } }
//@loop 1
            invariant
                jvs(statements_array@) == old(node)@.arr("statements"@),
                movable(old(node)@.arr("statements"@), first_index as int),
                exists|i: int, j: int| #[trigger] movable2(old(node)@.arr("statements"@), i, j), // [C08]
            ensures
                movable(old(node)@.arr("statements"@), second_index as int), second_index != first_index,
//@loopstart 1
            proof { lits(); assert forall|k: int| 0 <= k < statements_array@.len() implies #[trigger] jvs(statements_array@)[k] == statements_array@[k]@ by { } }
//@before set_node_for_key 0
            proof {
                let s = old(node)@.arr("statements"@);
                assert(s.remove(larger_index as int).remove(smaller_index as int).insert(smaller_index as int, s[larger_index as int]).insert(larger_index as int, s[smaller_index as int])
                    =~= swapped(s, smaller_index as int, larger_index as int));
                assert(movable2(s, smaller_index as int, larger_index as int));
            }
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@SwapLinesMutator::implements props=C09
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@SwapLinesMutator::get_comment_node props=C17
//@end
}
//@item mutagenyx_lib/src/solidity/mutators.rs SolidityRequireMutator
impl SolidityRequireMutator {
//@fn mutagenyx_lib/src/solidity/mutators.rs SolidityRequireMutator::new props=C09
//@ret r
//@spec
        ensures r.mwf(), r.typ() == MT::Solidity(SM::Require),
//@end
}
impl Mutator<SolidityAST> for SolidityRequireMutator {
    closed spec fn mwf(&self) -> bool { true }
    closed spec fn typ(&self) -> MutationType { MT::Solidity(SM::Require) }
    closed spec fn comment(&self) -> Option<SolidityAST> { self.comment_node }
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@SolidityRequireMutator::is_mutable_node props=C10,C08
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@SolidityRequireMutator::mutate props=C03,C06,C08,C09,C17
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@SolidityRequireMutator::implements props=C09
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@SolidityRequireMutator::get_comment_node props=C17
//@end
}
//@item mutagenyx_lib/src/solidity/mutators.rs SolidityUncheckedBlockMutator
impl SolidityUncheckedBlockMutator {
//@fn mutagenyx_lib/src/solidity/mutators.rs SolidityUncheckedBlockMutator::new props=C09
//@ret r
//@spec
        ensures r.mwf(), r.typ() == MT::Solidity(SM::UncheckedBlock),
//@end
}
impl Mutator<SolidityAST> for SolidityUncheckedBlockMutator {
    closed spec fn mwf(&self) -> bool { true }
    closed spec fn typ(&self) -> MutationType { MT::Solidity(SM::UncheckedBlock) }
    closed spec fn comment(&self) -> Option<SolidityAST> { self.comment_node }
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@SolidityUncheckedBlockMutator::is_mutable_node props=C10,C08 loops=1 attr=loop_isolation(false)
//@entry
        proof { lits(); }
//@loop 0
            invariant
                jvs(statements_array@) == node@.arr("statements"@),
                forall|k: int| 0 <= k < vx_it0.index() ==> !(#[trigger] wrap_at(node@.arr("statements"@), k)),
//@loopstart 0
            proof { assert(jvs(statements_array@)[vx_it0.index()] == value@); lits(); assert(wrap_at(node@.arr("statements"@), vx_it0.index()) == wrappable(value@)); }
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@SolidityUncheckedBlockMutator::mutate props=C03,C06,C08,C09,C17 loops=1 attr=exec_allows_no_decreases_clause
//@entry
        proof { lits(); }
//@loop 0
            invariant_except_break
                jvs(statements_array@) == old(node)@.arr("statements"@),
            invariant
                exists|i: int| #[trigger] wrap_at(old(node)@.arr("statements"@), i), // [C08]
            ensures
                wrap_at(old(node)@.arr("statements"@), index as int), node_to_wrap@ == old(node)@.arr("statements"@)[index as int],
                jvs(statements_array@) == old(node)@.arr("statements"@).remove(index as int),
//@loopstart 0
            proof { lits(); assert forall|k: int| 0 <= k < statements_array@.len() implies #[trigger] jvs(statements_array@)[k] == statements_array@[k]@ by { } }
//@after finish 0
            proof { assert(unc_rel(old(node)@, node@, index as int)); }
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@SolidityUncheckedBlockMutator::implements props=C09
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@SolidityUncheckedBlockMutator::get_comment_node props=C17
//@end
}
//@item mutagenyx_lib/src/solidity/mutators.rs SolidityElimDelegateCallMutator
impl SolidityElimDelegateCallMutator {
//@fn mutagenyx_lib/src/solidity/mutators.rs SolidityElimDelegateCallMutator::new props=C09
//@ret r
//@spec
        ensures r.mwf(), r.typ() == MT::Solidity(SM::ElimDelegateCall),
//@end
}
impl Mutator<SolidityAST> for SolidityElimDelegateCallMutator {
    closed spec fn mwf(&self) -> bool { true }
    closed spec fn typ(&self) -> MutationType { MT::Solidity(SM::ElimDelegateCall) }
    closed spec fn comment(&self) -> Option<SolidityAST> { self.comment_node }
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@SolidityElimDelegateCallMutator::is_mutable_node props=C10,C08
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@SolidityElimDelegateCallMutator::mutate props=C03,C06,C08,C09,C17
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@SolidityElimDelegateCallMutator::implements props=C09
//@end
//@fn mutagenyx_lib/src/solidity/mutators.rs Mutator@SolidityElimDelegateCallMutator::get_comment_node props=C17
//@end
}

proof fn p2_facts() ensures p2(127) == 0x8000_0000_0000_0000_0000_0000_0000_0000int, p2(128) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000int,
    forall|a: int| 0 <= a <= 127 ==> 0 < #[trigger] p2(a) <= p2(127), forall|a: int| 0 <= a <= 128 ==> 0 < #[trigger] p2(a) <= p2(128),
    forall|a: int| 127 <= a ==> p2(127) <= #[trigger] p2(a), forall|a: int| 128 <= a ==> p2(128) <= #[trigger] p2(a), p2(8) >= 256, forall|a: int| a >= 8 ==> #[trigger] p2(a) >= 256,
{
    ax_p2_127(); ax_p2_128();
    assert forall|a: int| 0 <= a <= 127 implies 0 < #[trigger] p2(a) <= p2(127) by { ax_p2_mono(a, 127); }
    assert forall|a: int| 0 <= a <= 128 implies 0 < #[trigger] p2(a) <= p2(128) by { ax_p2_mono(a, 128); }
    assert forall|a: int| 127 <= a implies p2(127) <= #[trigger] p2(a) by { ax_p2_mono(127, a); }
    assert forall|a: int| 128 <= a implies p2(128) <= #[trigger] p2(a) by { ax_p2_mono(128, a); }
    vstd::arithmetic::power2::lemma2_to64();
    assert forall|a: int| a >= 8 implies #[trigger] p2(a) >= 256 by { ax_p2_mono(8, a); }
}
proof fn ts_facts(ts: Seq<char>)
    requires ts == "bool"@ || type_bits(ts, "int") is Some || type_bits(ts, "uint") is Some,
    ensures ts.len() >= 3, ascii(ts.take(3)),
        type_bits(ts, "int") is Some ==> ts.subrange(0, 3) == "int"@ && ts.skip(3) == ts.subrange(3, ts.len() as int) && type_bits(ts, "uint") is None && ts != "bool"@,
        type_bits(ts, "uint") is Some ==> ts.len() >= 4 && ascii(ts.take(4)) && ts.subrange(0, 3) == "uin"@ && ts.skip(4) == ts.subrange(4, ts.len() as int) && type_bits(ts, "int") is None && ts != "bool"@,
        ts == "bool"@ ==> ts.subrange(0, 3) == "boo"@,
{
    reveal_strlit("int"); reveal_strlit("uint"); reveal_strlit("uin"); reveal_strlit("boo"); reveal_strlit("bool");
    ax_p2_127(); ax_p2_128();
    if ts == "bool"@ { assert(ts.subrange(0, 3) =~= "boo"@); }
    if starts(ts, "int"@) {
        assert(ts.take(3)[0] == ts[0]); assert(ts.take(3)[1] == ts[1]); assert(ts.take(3)[2] == ts[2]);
        assert(ts.subrange(0, 3) =~= "int"@); assert(ts.skip(3) =~= ts.subrange(3, ts.len() as int));
    }
    if starts(ts, "uint"@) {
        assert(ts.take(4)[0] == ts[0]); assert(ts.take(4)[1] == ts[1]); assert(ts.take(4)[2] == ts[2]); assert(ts.take(4)[3] == ts[3]);
        assert(ts.subrange(0, 3) =~= "uin"@); assert(ts.skip(4) =~= ts.subrange(4, ts.len() as int));
        assert(ts.take(3) =~= ts.take(4).take(3));
    }
    if starts(ts, "int"@) && starts(ts, "uint"@) { assert(ts[0] == 'i'); assert(ts[0] == 'u'); }
}

//@item mutagenyx_lib/src/solidity/mutators.rs SolidityMutatorFactory
impl SolidityMutatorFactory {
//@fn mutagenyx_lib/src/solidity/mutators.rs MutatorFactory@SolidityMutatorFactory::mutator_for props=C09
//@ret r
//@spec
    ensures r is Some, r->0.mwf(), r->0.typ() == *mutation_type,
//@entry
    proof { lits(); fam_ext(); }
//@end
}
proof fn fam_ext() ensures
    forall|v: Seq<&'static str>| lists(v, |s: Seq<char>| arith(s)) ==> #[trigger] lists(v, family(MT::Generic(GM::ArithmeticBinaryOp))),
    forall|v: Seq<&'static str>| lists(v, |s: Seq<char>| logic(s)) ==> #[trigger] lists(v, family(MT::Generic(GM::LogicalBinaryOp))),
    forall|v: Seq<&'static str>| lists(v, |s: Seq<char>| bitw(s)) ==> #[trigger] lists(v, family(MT::Generic(GM::BitwiseBinaryOp))),
    forall|v: Seq<&'static str>| lists(v, |s: Seq<char>| bshift(s)) ==> #[trigger] lists(v, family(MT::Generic(GM::BitshiftBinaryOp))),
    forall|v: Seq<&'static str>| lists(v, |s: Seq<char>| compar(s)) ==> #[trigger] lists(v, family(MT::Generic(GM::ComparisonBinaryOp))),
{ }
