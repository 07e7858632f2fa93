//@item mutagenyx_lib/src/solidity/pretty_printer.rs ArrayTypeNamePrinter
impl NodePrinter<SolidityAST> for ArrayTypeNamePrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_array(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ArrayTypeNamePrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ArrayTypeNamePrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ArrayTypeNamePrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ArrayTypeNamePrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs AssignmentPrinter
impl NodePrinter<SolidityAST> for AssignmentPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_assignment(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@AssignmentPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@AssignmentPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@AssignmentPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@AssignmentPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs BinaryOperationPrinter
impl NodePrinter<SolidityAST> for BinaryOperationPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_binary(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@BinaryOperationPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@BinaryOperationPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@BinaryOperationPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@BinaryOperationPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs BlockPrinter
impl NodePrinter<SolidityAST> for BlockPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s_block_e(s, n, c) }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_block(s, n, c, self.single_statement_on_same_line) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s_block_x(s, n, c) }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@BlockPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@BlockPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@BlockPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@BlockPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs BreakPrinter
impl NodePrinter<SolidityAST> for BreakPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_break(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@BreakPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@BreakPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@BreakPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@BreakPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs CommentPrinter
impl NodePrinter<SolidityAST> for CommentPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_comment(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@CommentPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@CommentPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@CommentPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@CommentPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs ConditionalPrinter
impl NodePrinter<SolidityAST> for ConditionalPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_conditional(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ConditionalPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ConditionalPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ConditionalPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ConditionalPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs ContinuePrinter
impl NodePrinter<SolidityAST> for ContinuePrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_continue(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ContinuePrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ContinuePrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ContinuePrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ContinuePrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs ContractDefinitionPrinter
impl NodePrinter<SolidityAST> for ContractDefinitionPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s_contract_e(s, n, c) }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_contract(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ContractDefinitionPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ContractDefinitionPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node loops=1 attr=loop_isolation(false) exactfmt
//@entry
        proof { lits(); }
//@beforeloop 0
                let ghost s1 = st(*printer, stream);
//@loop 0
                    invariant pwf(*printer), i <= node_array@.len(), did(old(stream), *printer, stream, s1.members(jvs(node_array@), factory.cfg(), i as int).apart(0 < i && i < node_array@.len())),
                    decreases node_array@.len() - i,
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ContractDefinitionPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ContractDefinitionPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs DoWhileStatementPrinter
impl NodePrinter<SolidityAST> for DoWhileStatementPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_do(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@DoWhileStatementPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@DoWhileStatementPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@DoWhileStatementPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@DoWhileStatementPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs ElementaryTypeNamePrinter
impl NodePrinter<SolidityAST> for ElementaryTypeNamePrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_elementary(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ElementaryTypeNamePrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ElementaryTypeNamePrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ElementaryTypeNamePrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ElementaryTypeNamePrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs ElementaryTypeNameExpressionPrinter
impl NodePrinter<SolidityAST> for ElementaryTypeNameExpressionPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_typeexpr(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ElementaryTypeNameExpressionPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ElementaryTypeNameExpressionPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ElementaryTypeNameExpressionPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ElementaryTypeNameExpressionPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs EmitStatementPrinter
impl NodePrinter<SolidityAST> for EmitStatementPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_emit(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@EmitStatementPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@EmitStatementPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@EmitStatementPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@EmitStatementPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs EnumDefinitionPrinter
impl NodePrinter<SolidityAST> for EnumDefinitionPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_enum(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@EnumDefinitionPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@EnumDefinitionPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node loops=1 attr=loop_isolation(false) exactfmt
//@entry
        proof { lits(); }
//@beforeloop 0
                    let ghost s1 = st(*printer, stream);
//@loop 0
                        invariant pwf(*printer), i <= members_array@.len(), did(old(stream), *printer, stream, s1.values(jvs(members_array@), factory.cfg(), i as int).gap(0 < i && i < members_array@.len())),
                        decreases members_array@.len() - i,
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@EnumDefinitionPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@EnumDefinitionPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs NamePrinter
impl NodePrinter<SolidityAST> for NamePrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_name(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@NamePrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@NamePrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@NamePrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@NamePrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs ErrorDefinitionPrinter
impl NodePrinter<SolidityAST> for ErrorDefinitionPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_error(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ErrorDefinitionPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ErrorDefinitionPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ErrorDefinitionPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ErrorDefinitionPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs EventDefinitionPrinter
impl NodePrinter<SolidityAST> for EventDefinitionPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_event(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@EventDefinitionPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@EventDefinitionPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@EventDefinitionPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@EventDefinitionPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs ExpressionStatementPrinter
impl NodePrinter<SolidityAST> for ExpressionStatementPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_expression(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s_semicolon(s, n, c, self.write_statement_semicolon) }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ExpressionStatementPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ExpressionStatementPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ExpressionStatementPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ExpressionStatementPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs ForStatementPrinter
impl NodePrinter<SolidityAST> for ForStatementPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_for(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ForStatementPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ForStatementPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ForStatementPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ForStatementPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs FunctionCallPrinter
impl NodePrinter<SolidityAST> for FunctionCallPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s_call_e(s, n, c) }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_call(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s_close(s, n, c) }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@FunctionCallPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@FunctionCallPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node loops=1 attr=loop_isolation(false) exactfmt
//@entry
        proof { lits(); ax_names(node@); }
//@beforeloop 0
                    let ghost s1 = st(*printer, stream);
//@loop 0
                        invariant pwf(*printer), i <= names_array@.len(), did(old(stream), *printer, stream, s1.named(jvs(names_array@), jvs(arguments_array@), factory.cfg(), i as int).opt(0 < i && i < names_array@.len(), ","@)),
                        decreases names_array@.len() - i,
//@loopstart 0
                        proof { ax_name(node@, i as int); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@FunctionCallPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@FunctionCallPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs FunctionCallOptionsPrinter
impl NodePrinter<SolidityAST> for FunctionCallOptionsPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_options(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@FunctionCallOptionsPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@FunctionCallOptionsPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node loops=1 attr=loop_isolation(false) exactfmt
//@entry
        proof { lits(); ax_names(node@); }
//@beforeloop 0
                    let ghost s1 = st(*printer, stream);
//@loop 0
                        invariant pwf(*printer), i <= names_array@.len(), did(old(stream), *printer, stream, s1.options(jvs(names_array@), jvs(options_array@), factory.cfg(), i as int).gap(0 < i && i < names_array@.len())),
                        decreases names_array@.len() - i,
//@loopstart 0
                        proof { ax_name(node@, i as int); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@FunctionCallOptionsPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@FunctionCallOptionsPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs FunctionDefinitionPrinter
impl NodePrinter<SolidityAST> for FunctionDefinitionPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s_function_e(s, n, c) }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_function(s, n, c, self.write_nonpayable_state_mutability) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@FunctionDefinitionPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@FunctionDefinitionPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@FunctionDefinitionPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@FunctionDefinitionPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs FunctionTypeNamePrinter
impl NodePrinter<SolidityAST> for FunctionTypeNamePrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_functype(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@FunctionTypeNamePrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@FunctionTypeNamePrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@FunctionTypeNamePrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@FunctionTypeNamePrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs IdentifierPrinter
impl NodePrinter<SolidityAST> for IdentifierPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_name(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@IdentifierPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@IdentifierPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@IdentifierPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@IdentifierPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs IfStatementPrinter
impl NodePrinter<SolidityAST> for IfStatementPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_if(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@IfStatementPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@IfStatementPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@IfStatementPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@IfStatementPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs ImportDirectivePrinter
impl NodePrinter<SolidityAST> for ImportDirectivePrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s_import_e(s, n, c) }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_import(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ImportDirectivePrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ImportDirectivePrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node loops=1 attr=loop_isolation(false) exactfmt
//@entry
        proof { lits(); }
//@beforeloop 0
                    let ghost s1 = st(*printer, stream);
//@loop 0
                        invariant pwf(*printer), i <= aliases_array@.len(), did(old(stream), *printer, stream, s1.aliases(jvs(aliases_array@), factory.cfg(), i as int).gap(0 < i && i < aliases_array@.len())),
                        decreases aliases_array@.len() - i,
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ImportDirectivePrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ImportDirectivePrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs IndexAccessPrinter
impl NodePrinter<SolidityAST> for IndexAccessPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_index(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@IndexAccessPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@IndexAccessPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@IndexAccessPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@IndexAccessPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs IndexRangeAccessPrinter
impl NodePrinter<SolidityAST> for IndexRangeAccessPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_range(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@IndexRangeAccessPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@IndexRangeAccessPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@IndexRangeAccessPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@IndexRangeAccessPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs InheritanceSpecifierPrinter
impl NodePrinter<SolidityAST> for InheritanceSpecifierPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_inherit(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@InheritanceSpecifierPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@InheritanceSpecifierPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@InheritanceSpecifierPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@InheritanceSpecifierPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs InlineAssemblyPrinter
impl NodePrinter<SolidityAST> for InlineAssemblyPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s_assembly_e(s, n, c) }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_assembly(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@InlineAssemblyPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@InlineAssemblyPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node loops=1 attr=loop_isolation(false) exactfmt
//@entry
        proof { lits(); }
//@beforeloop 0
                    let ghost s1 = st(*printer, stream);
//@loop 0
                        invariant pwf(*printer), i <= flags_array@.len(), did(old(stream), *printer, stream, s1.flags(jvs(flags_array@), i as int).gap(0 < i && i < flags_array@.len())),
                        decreases flags_array@.len() - i,
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@InlineAssemblyPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@InlineAssemblyPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs LiteralPrinter
impl NodePrinter<SolidityAST> for LiteralPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_literal(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@LiteralPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@LiteralPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@LiteralPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@LiteralPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs MappingPrinter
impl NodePrinter<SolidityAST> for MappingPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_mapping(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@MappingPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@MappingPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@MappingPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@MappingPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs MemberAccessPrinter
impl NodePrinter<SolidityAST> for MemberAccessPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_member(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@MemberAccessPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@MemberAccessPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@MemberAccessPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@MemberAccessPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs ModifierDefinitionPrinter
impl NodePrinter<SolidityAST> for ModifierDefinitionPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s_modifier_e(s, n, c) }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_modifier(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ModifierDefinitionPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ModifierDefinitionPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ModifierDefinitionPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ModifierDefinitionPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs ModifierInvocationPrinter
impl NodePrinter<SolidityAST> for ModifierInvocationPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_invoke(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ModifierInvocationPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ModifierInvocationPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ModifierInvocationPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ModifierInvocationPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs NewExpressionPrinter
impl NodePrinter<SolidityAST> for NewExpressionPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_new(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@NewExpressionPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@NewExpressionPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@NewExpressionPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@NewExpressionPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs OverrideSpecifierPrinter
impl NodePrinter<SolidityAST> for OverrideSpecifierPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_override(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@OverrideSpecifierPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@OverrideSpecifierPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@OverrideSpecifierPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@OverrideSpecifierPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs ParameterListPrinter
impl NodePrinter<SolidityAST> for ParameterListPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s_open(s, n, c) }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_parameters(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s_close(s, n, c) }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ParameterListPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ParameterListPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ParameterListPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ParameterListPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs PlaceholderStatementPrinter
impl NodePrinter<SolidityAST> for PlaceholderStatementPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_placeholder(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@PlaceholderStatementPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@PlaceholderStatementPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@PlaceholderStatementPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@PlaceholderStatementPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs PragmaDirectivePrinter
impl NodePrinter<SolidityAST> for PragmaDirectivePrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_pragma(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@PragmaDirectivePrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@PragmaDirectivePrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node loops=1 attr=loop_isolation(false) exactfmt
//@entry
        proof { lits(); }
//@beforeloop 0
                let ghost s1 = st(*printer, stream);
//@loop 0
                    invariant pwf(*printer), i <= v@.len(), did(old(stream), *printer, stream, s1.words(jvs(v@), i as int)), previous_token@ == word(jvs(v@), i as int),
                    decreases v@.len() - i,
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@PragmaDirectivePrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@PragmaDirectivePrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs ReturnPrinter
impl NodePrinter<SolidityAST> for ReturnPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_return(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ReturnPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ReturnPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ReturnPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@ReturnPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs RevertStatementPrinter
impl NodePrinter<SolidityAST> for RevertStatementPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_revert(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@RevertStatementPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@RevertStatementPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@RevertStatementPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@RevertStatementPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs SourceUnitPrinter
impl NodePrinter<SolidityAST> for SourceUnitPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s_source_e(s, n, c) }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_source(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s_source_x(s, n, c) }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@SourceUnitPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@SourceUnitPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node loops=1 attr=loop_isolation(false) exactfmt
//@entry
        proof { lits(); }
//@loop 0
                    invariant pwf(*printer), i <= node_array@.len(), did(old(stream), *printer, stream, st(*old(printer), old(stream)).members(jvs(node_array@), factory.cfg(), i as int).apart(0 < i && i < node_array@.len())),
                    decreases node_array@.len() - i,
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@SourceUnitPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@SourceUnitPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs StructDefinitionPrinter
impl NodePrinter<SolidityAST> for StructDefinitionPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_struct(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s_struct_x(s, n, c) }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@StructDefinitionPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@StructDefinitionPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node loops=1 attr=loop_isolation(false) exactfmt
//@entry
        proof { lits(); }
//@beforeloop 0
                let ghost s1 = st(*printer, stream);
//@loop 0
                    invariant pwf(*printer), i <= members_array@.len(), did(old(stream), *printer, stream, s1.fields(jvs(members_array@), factory.cfg(), i as int).onl(0 < i && i < members_array@.len())),
                    decreases members_array@.len() - i,
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@StructDefinitionPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@StructDefinitionPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs StructuredDocumentationPrinter
impl NodePrinter<SolidityAST> for StructuredDocumentationPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s_doc_e(s, n, c) }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_doc(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s_doc_x(s, n, c) }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@StructuredDocumentationPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@StructuredDocumentationPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node loops=1 attr=loop_isolation(false) exactfmt
//@entry
        proof { lits(); }
//@subst text.split('\n').collect() ==> vx_split_nl(text)
//@loop 0
                invariant pwf(*printer), did(old(stream), *printer, stream, st(*old(printer), old(stream)).doclines(text@, vx_it0.index() as int)), vx_it0.seq().len() == nparts(text@), forall|i: int| 0 <= i < nparts(text@) ==> (#[trigger] vx_it0.seq()[i])@ == part(text@, i),
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@StructuredDocumentationPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@StructuredDocumentationPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs TryCatchClausePrinter
impl NodePrinter<SolidityAST> for TryCatchClausePrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_clause(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@TryCatchClausePrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@TryCatchClausePrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@TryCatchClausePrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@TryCatchClausePrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs TryStatementPrinter
impl NodePrinter<SolidityAST> for TryStatementPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_try(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@TryStatementPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@TryStatementPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node loops=1 attr=loop_isolation(false) exactfmt
//@entry
        proof { lits(); }
//@beforeloop 0
            let ghost s1 = st(*printer, stream);
//@loop 0
                invariant pwf(*printer), i <= clauses_array@.len(), did(old(stream), *printer, stream, s1.clauses(jvs(clauses_array@), factory.cfg(), i as int)),
                decreases clauses_array@.len() - i,
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@TryStatementPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@TryStatementPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs TupleExpressionPrinter
impl NodePrinter<SolidityAST> for TupleExpressionPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_tuple(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@TupleExpressionPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@TupleExpressionPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node loops=1 attr=loop_isolation(false) exactfmt
//@entry
        proof { lits(); }
//@beforeloop 0
                let ghost s1 = st(*printer, stream);
//@loop 0
                    invariant pwf(*printer), i <= components_array@.len(), did(old(stream), *printer, stream, s1.tuple(jvs(components_array@), factory.cfg(), i as int).comma(0 < i && i < components_array@.len(), jvs(components_array@)[i as int])),
                    decreases components_array@.len() - i,
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@TupleExpressionPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@TupleExpressionPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs UnaryOperationPrinter
impl NodePrinter<SolidityAST> for UnaryOperationPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_unary(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@UnaryOperationPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@UnaryOperationPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@UnaryOperationPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@UnaryOperationPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs UserDefinedTypeNamePrinter
impl NodePrinter<SolidityAST> for UserDefinedTypeNamePrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_usertype(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@UserDefinedTypeNamePrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@UserDefinedTypeNamePrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@UserDefinedTypeNamePrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@UserDefinedTypeNamePrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs UserDefinedValueTypeDefinitionPrinter
impl NodePrinter<SolidityAST> for UserDefinedValueTypeDefinitionPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_valuetype(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@UserDefinedValueTypeDefinitionPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@UserDefinedValueTypeDefinitionPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@UserDefinedValueTypeDefinitionPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@UserDefinedValueTypeDefinitionPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs UsingForDirectivePrinter
pub open spec fn lister_using() -> spec_fn(St, JV) -> St { |s: St, n: JV| s.using(n) }
pub open spec fn next_line() -> spec_fn(St) -> St { |s: St| s.next(true) }
pub proof fn lemma_usings(s: St, a: Seq<JV>, k: int)
    ensures each(lister_using(), next_line(), s, a, k) == s.usings(a, k),
    decreases k,
{
    if k > 0 { lemma_usings(s, a, k - 1); }
}
impl NodePrinter<SolidityAST> for UsingForDirectivePrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_using(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@UsingForDirectivePrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@UsingForDirectivePrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@before print_array_helper_with_node_handler_and_space_formatter 0
                    proof { assert(jvs(function_list_array@) == views(function_list_array@)); lemma_usings(st(*printer, stream), jvs(function_list_array@), function_list_array@.len() as int); }
//@closure 0
    requires pwf(*$0), ensures did(old($1), *final($0), final($1), st(*old($0), old($1)).using($3@))
//@closure 1
    requires pwf(*$0), ensures did(old($1), *final($0), final($1), st(*old($0), old($1)).next(true))
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@UsingForDirectivePrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@UsingForDirectivePrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs VariableDeclarationPrinter
impl NodePrinter<SolidityAST> for VariableDeclarationPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_variable(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s_variable_x(s, n, c) }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@VariableDeclarationPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@VariableDeclarationPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@VariableDeclarationPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@VariableDeclarationPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs VariableDeclarationStatementPrinter
impl NodePrinter<SolidityAST> for VariableDeclarationStatementPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_declare(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@VariableDeclarationStatementPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@VariableDeclarationStatementPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node loops=1 attr=loop_isolation(false) exactfmt
//@entry
        proof { lits(); }
//@beforeloop 0
                let ghost s1 = st(*printer, stream);
//@loop 0
                    invariant pwf(*printer), i <= declarations_array@.len(), did(old(stream), *printer, stream, s1.tuple(jvs(declarations_array@), factory.cfg(), i as int).comma(0 < i && i < declarations_array@.len(), jvs(declarations_array@)[i as int])),
                    decreases declarations_array@.len() - i,
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@VariableDeclarationStatementPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@VariableDeclarationStatementPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs WhileStatementPrinter
impl NodePrinter<SolidityAST> for WhileStatementPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_while(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@WhileStatementPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@WhileStatementPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@WhileStatementPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@WhileStatementPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs YulAssignmentPrinter
impl NodePrinter<SolidityAST> for YulAssignmentPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_yulassign(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulAssignmentPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulAssignmentPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulAssignmentPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulAssignmentPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs YulBreakPrinter
impl NodePrinter<SolidityAST> for YulBreakPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_yulbreak(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulBreakPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulBreakPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulBreakPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulBreakPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs YulCasePrinter
impl NodePrinter<SolidityAST> for YulCasePrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_case(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulCasePrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulCasePrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulCasePrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulCasePrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs YulContinuePrinter
impl NodePrinter<SolidityAST> for YulContinuePrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_yulcontinue(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulContinuePrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulContinuePrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulContinuePrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulContinuePrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs YulForLoopPrinter
impl NodePrinter<SolidityAST> for YulForLoopPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_yulfor(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulForLoopPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulForLoopPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulForLoopPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulForLoopPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs YulFunctionCallPrinter
impl NodePrinter<SolidityAST> for YulFunctionCallPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_yulcall(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulFunctionCallPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulFunctionCallPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulFunctionCallPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulFunctionCallPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs YulFunctionDefinitionPrinter
impl NodePrinter<SolidityAST> for YulFunctionDefinitionPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_yulfunction(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulFunctionDefinitionPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulFunctionDefinitionPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulFunctionDefinitionPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulFunctionDefinitionPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs YulIfPrinter
impl NodePrinter<SolidityAST> for YulIfPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_yulif(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulIfPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulIfPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulIfPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulIfPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs YulLeavePrinter
impl NodePrinter<SolidityAST> for YulLeavePrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_leave(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulLeavePrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulLeavePrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulLeavePrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulLeavePrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs YulLiteralPrinter
impl NodePrinter<SolidityAST> for YulLiteralPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_yulliteral(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulLiteralPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulLiteralPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulLiteralPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulLiteralPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs YulSwitchPrinter
impl NodePrinter<SolidityAST> for YulSwitchPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_switch(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulSwitchPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulSwitchPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node loops=1 attr=loop_isolation(false) exactfmt
//@entry
        proof { lits(); }
//@beforeloop 0
                let ghost s1 = st(*printer, stream);
//@loop 0
                    invariant pwf(*printer), did(old(stream), *printer, stream, s1.under(jvs(cases_array@), factory.cfg(), vx_it0.index() as int)), vx_it0.seq().len() == cases_array@.len(), forall|i: int| 0 <= i < cases_array@.len() ==> *vx_it0.seq()[i] == cases_array@[i],
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulSwitchPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulSwitchPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs YulVariableDeclarationPrinter
impl NodePrinter<SolidityAST> for YulVariableDeclarationPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s_let(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulVariableDeclarationPrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulVariableDeclarationPrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulVariableDeclarationPrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@YulVariableDeclarationPrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/solidity/pretty_printer.rs DummyNodePrinter
impl NodePrinter<SolidityAST> for DummyNodePrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { true }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@DummyNodePrinter::on_entry props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@DummyNodePrinter::print_node props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@DummyNodePrinter::on_exit props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinter@DummyNodePrinter::visit_children props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
