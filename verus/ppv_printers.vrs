//@item mutagenyx_lib/src/vyper/pretty_printer.rs NamePrinter
impl NodePrinter<VyperAST> for NamePrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_name(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@NamePrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@NamePrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@NamePrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@NamePrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs VariableDeclPrinter
impl NodePrinter<VyperAST> for VariableDeclPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_vardecl(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@VariableDeclPrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@VariableDeclPrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node loops=1 attr=loop_isolation(false) exactfmt
//@entry
        proof { lits(); }
//@beforeloop 0
            let ghost s1 = st(*printer, stream);
//@loop 0
                invariant pwf(*printer), did(old(stream), *printer, stream, s1.rep(")"@, vx_it0.index() as int)), vx_it0.seq().len() == close_parens_needed,
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@VariableDeclPrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@VariableDeclPrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs SubscriptPrinter
impl NodePrinter<VyperAST> for SubscriptPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_subscript(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@SubscriptPrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@SubscriptPrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@SubscriptPrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@SubscriptPrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs IndexPrinter
impl NodePrinter<VyperAST> for IndexPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_index(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@IndexPrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@IndexPrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@IndexPrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@IndexPrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs TuplePrinter
impl NodePrinter<VyperAST> for TuplePrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_tuple(s, n, c, self.use_parentheses) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@TuplePrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@TuplePrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@TuplePrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@TuplePrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs FunctionDefPrinter
impl NodePrinter<VyperAST> for FunctionDefPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { v_fundef_e(s, n, c) }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_fundef(s, n, c, self.interface_decl_form) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { !self.has_decorators }
    closed spec fn ready(&self, n: JV) -> bool { self.has_decorators == some(n, "decorator_list"@) }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@FunctionDefPrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry loops=1 attr=loop_isolation(false) exactfmt
//@entry
        proof { lits(); if node@.arr_at("decorator_list"@) { let s = st(*printer, stream); let a = node@.arr("decorator_list"@); assert(s.decorators(a, factory.cfg(), 0) == s); assert(some(node@, "decorator_list"@) ==> s.decorators(a, factory.cfg(), 1) == s.tok("@"@).sub(a[0], factory.cfg()).nl()); } }
//@loop 0
                        invariant pwf(*printer), 1 <= index <= decorator_array@.len(), did(old(stream), *printer, stream, st(*old(printer), old(stream)).decorators(jvs(decorator_array@), factory.cfg(), index as int)),
                        decreases decorator_array@.len() - index,
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@FunctionDefPrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@FunctionDefPrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@FunctionDefPrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs ArgumentsPrinter
impl NodePrinter<VyperAST> for ArgumentsPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_arguments(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ArgumentsPrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ArgumentsPrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node loops=1 attr=loop_isolation(false) exactfmt
//@entry
        proof { lits(); ax_defaults(node@); }
//@loop 0
                            invariant pwf(*printer), i <= args_array@.len(), did(old(stream), *printer, stream, st(*old(printer), old(stream)).args(jvs(args_array@), jvs(defaults_array@), factory.cfg(), i as int).gap(0 < i && i < args_array@.len())),
                            decreases args_array@.len() - i,
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ArgumentsPrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ArgumentsPrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs ArgPrinter
impl NodePrinter<VyperAST> for ArgPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_arg(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ArgPrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ArgPrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ArgPrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ArgPrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs AssignPrinter
impl NodePrinter<VyperAST> for AssignPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_assign(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@AssignPrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@AssignPrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@AssignPrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@AssignPrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs AttributePrinter
impl NodePrinter<VyperAST> for AttributePrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_attribute(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@AttributePrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@AttributePrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@AttributePrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@AttributePrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs AugAssignPrinter %% HashMap<&'static str, &'static str> ==> StrMap<&'static str>
impl NodePrinter<VyperAST> for AugAssignPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_augassign(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { is_py_map(self.operator_map@) }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@AugAssignPrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@AugAssignPrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@subst self.operator_map[ast_type_str] ==> self.operator_map.vx_at(ast_type_str)
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@AugAssignPrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@AugAssignPrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs IntPrinter
impl NodePrinter<VyperAST> for IntPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_int(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@IntPrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@IntPrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); broadcast use ax_ftext; if node@.has("value"@) { ax_num(node@.at("value"@)); } }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@IntPrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@IntPrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs ValuePrinter
impl NodePrinter<VyperAST> for ValuePrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_value(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ValuePrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ValuePrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ValuePrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ValuePrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs BinOpPrinter %% HashMap<&'static str, &'static str> ==> StrMap<&'static str>
impl NodePrinter<VyperAST> for BinOpPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_binop(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { is_py_map(self.operator_map@) }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@BinOpPrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@BinOpPrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@subst self.operator_map[ast_type_str] ==> self.operator_map.vx_at(ast_type_str)
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@BinOpPrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@BinOpPrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs BoolOpPrinter
impl NodePrinter<VyperAST> for BoolOpPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_boolop(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@BoolOpPrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@BoolOpPrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node loops=1 attr=loop_isolation(false) exactfmt
//@entry
        proof { lits(); }
//@loop 0
                    invariant pwf(*printer), 1 <= i <= values_array@.len(), did(old(stream), *printer, stream, st(*old(printer), old(stream)).chain(node@, jvs(values_array@), factory.cfg(), i as int)),
                    decreases values_array@.len() - i,
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@BoolOpPrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@BoolOpPrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs AssertPrinter
impl NodePrinter<VyperAST> for AssertPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_assert(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@AssertPrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@AssertPrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@AssertPrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@AssertPrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs StrPrinter
impl NodePrinter<VyperAST> for StrPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_str(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@StrPrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@StrPrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@StrPrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@StrPrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs ModulePrinter
impl NodePrinter<VyperAST> for ModulePrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_module(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ModulePrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ModulePrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node loops=1 attr=loop_isolation(false) exactfmt
//@entry
        proof { lits(); }
//@beforeloop 0
                let ghost s1 = st(*printer, stream);
//@loop 0
                    invariant pwf(*printer), did(old(stream), *printer, stream, s1.parts(jvs(body_array@), factory.cfg(), vx_it0.index() as int)), vx_it0.seq().len() == body_array@.len(), forall|i: int| 0 <= i < body_array@.len() ==> *vx_it0.seq()[i] == body_array@[i],
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ModulePrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ModulePrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs AnnAssignPrinter
impl NodePrinter<VyperAST> for AnnAssignPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_annassign(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@AnnAssignPrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@AnnAssignPrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@AnnAssignPrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@AnnAssignPrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs ExprPrinter
impl NodePrinter<VyperAST> for ExprPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_expr(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ExprPrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ExprPrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ExprPrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ExprPrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs CallPrinter
impl NodePrinter<VyperAST> for CallPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_call(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@CallPrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@CallPrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@CallPrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@CallPrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs NameConstantPrinter
impl NodePrinter<VyperAST> for NameConstantPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_nameconstant(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@NameConstantPrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@NameConstantPrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@NameConstantPrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@NameConstantPrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs UnaryOpPrinter
impl NodePrinter<VyperAST> for UnaryOpPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_unaryop(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@UnaryOpPrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@UnaryOpPrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@UnaryOpPrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@UnaryOpPrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs InterfaceDefPrinter
impl NodePrinter<VyperAST> for InterfaceDefPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { v_interface_e(s, n, c) }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_interface(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { v_dec(s, n, c) }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@InterfaceDefPrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@InterfaceDefPrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@InterfaceDefPrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@InterfaceDefPrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs StructDefPrinter
impl NodePrinter<VyperAST> for StructDefPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { v_struct_e(s, n, c) }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_struct(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { v_dec(s, n, c) }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@StructDefPrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@StructDefPrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@StructDefPrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@StructDefPrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs ForPrinter
impl NodePrinter<VyperAST> for ForPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_for(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ForPrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ForPrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ForPrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ForPrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs ListPrinter
impl NodePrinter<VyperAST> for ListPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_list(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ListPrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ListPrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ListPrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ListPrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs IfPrinter
impl NodePrinter<VyperAST> for IfPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_if(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@IfPrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@IfPrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@IfPrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@IfPrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs BreakPrinter
impl NodePrinter<VyperAST> for BreakPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_break(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@BreakPrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@BreakPrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@BreakPrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@BreakPrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs ContinuePrinter
impl NodePrinter<VyperAST> for ContinuePrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_continue(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ContinuePrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ContinuePrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ContinuePrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ContinuePrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs PassPrinter
impl NodePrinter<VyperAST> for PassPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_pass(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@PassPrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@PassPrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@PassPrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@PassPrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs ReturnPrinter
impl NodePrinter<VyperAST> for ReturnPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_return(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ReturnPrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ReturnPrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ReturnPrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ReturnPrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs RaisePrinter
impl NodePrinter<VyperAST> for RaisePrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_raise(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@RaisePrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@RaisePrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@RaisePrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@RaisePrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs ImportPrinter
impl NodePrinter<VyperAST> for ImportPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_import(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ImportPrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ImportPrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ImportPrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ImportPrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs ImportFromPrinter
impl NodePrinter<VyperAST> for ImportFromPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_importfrom(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ImportFromPrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ImportFromPrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ImportFromPrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@ImportFromPrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs EventDefPrinter
impl NodePrinter<VyperAST> for EventDefPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_event(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@EventDefPrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@EventDefPrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@EventDefPrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@EventDefPrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs LogPrinter
impl NodePrinter<VyperAST> for LogPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_log(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@LogPrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@LogPrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@LogPrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@LogPrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs CommentPrinter
impl NodePrinter<VyperAST> for CommentPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_comment(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@CommentPrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@CommentPrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@CommentPrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@CommentPrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs AndPrinter
impl NodePrinter<VyperAST> for AndPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_and(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@AndPrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@AndPrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@AndPrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@AndPrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs KeywordPrinter
impl NodePrinter<VyperAST> for KeywordPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_keyword(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@KeywordPrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@KeywordPrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@KeywordPrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@KeywordPrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs BytesPrinter
impl NodePrinter<VyperAST> for BytesPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_bytes(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@BytesPrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@BytesPrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node strslice loops=1 attr=loop_isolation(false) exactfmt
//@entry
        proof { lits(); ax_bytes(node@); }
//@subst value_str.len() ==> vx_ascii_len(value_str)
//@subst byte_string += substr; ==> vx_push_str(&mut byte_string, substr);
//@loop 0
                invariant 2 <= index <= value_str@.len(), index % 2 == 0, byte_string@ == "b'"@ + hexes(value_str@, index as int),
                decreases value_str@.len() - index,
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@BytesPrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@BytesPrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs DictPrinter
impl NodePrinter<VyperAST> for DictPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { v_dict_e(s, n, c) }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_dict(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { v_dict_x(s, n, c) }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@DictPrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@DictPrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node loops=1 attr=loop_isolation(false) exactfmt
//@entry
        proof { lits(); ax_dict(node@); }
//@beforeloop 0
                            let ghost s1 = st(*printer, stream);
//@loop 0
                                invariant pwf(*printer), i <= keys_array@.len(), did(old(stream), *printer, stream, s1.entries(jvs(keys_array@), jvs(values_array@), factory.cfg(), i as int).comma(0 < i && i < keys_array@.len())),
                                decreases keys_array@.len() - i,
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@DictPrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@DictPrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs EnumDefPrinter
impl NodePrinter<VyperAST> for EnumDefPrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { v_enum(s, n, c) }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { false }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@EnumDefPrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@EnumDefPrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@EnumDefPrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@EnumDefPrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
//@item mutagenyx_lib/src/vyper/pretty_printer.rs DummyNodePrinter
impl NodePrinter<VyperAST> for DummyNodePrinter {
    closed spec fn e(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn b(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn x(&self, s: St, n: JV, c: Cfg) -> St { s }
    closed spec fn wf(&self) -> bool { true }
    closed spec fn start(&self) -> bool { true }
    closed spec fn ready(&self, n: JV) -> bool { true }
    closed spec fn kids(&self) -> bool { true }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@DummyNodePrinter::on_entry props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_entry exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@DummyNodePrinter::print_node props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::print_node exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@DummyNodePrinter::on_exit props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::on_exit exactfmt
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinter@DummyNodePrinter::visit_children props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinter::visit_children exactfmt
//@ret r
//@end
}
