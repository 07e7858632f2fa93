//@item mutagenyx_lib/src/vyper/pretty_printer.rs VyperNodePrinterFactory
//@item mutagenyx_lib/src/vyper/pretty_printer.rs TUPLES_SHOULD_USE_PARENTHESES %% static ==> const %% &str ==> &'static str
//@item mutagenyx_lib/src/vyper/pretty_printer.rs FUNCTION_DEF_USES_STRUCT_DECL_FORM %% static ==> const %% &str ==> &'static str
impl NodePrinterFactory<VyperAST> for VyperNodePrinterFactory {
    closed spec fn settings(&self) -> Map<Seq<char>, PreferenceValue> { self.settings.map@ }
    closed spec fn cfg(&self) -> Cfg { cfg_of(self.settings.map@) }
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinterFactory@VyperNodePrinterFactory::get_settings props=C24 exactfmt
//@ret r
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinterFactory@VyperNodePrinterFactory::get_preference_value_for_key props=C24 default=mutagenyx_lib/src/node_printer.rs:NodePrinterFactory::get_preference_value_for_key exactfmt
//@ret r
//@end
}
// printing a node of a known kind by way of r spells it as its kind demands
pub open spec fn prints(r: Box<dyn NodePrinter<VyperAST>>, n: JV, c: Cfg) -> bool {
    r.wf() && r.start() && r.kids() == !known(n) && (forall|s: St| #[trigger] r.e(s, n, c) == v_entry(s, n, c)) && (forall|s: St| #[trigger] r.b(s, n, c) == v_body(s, n, c)) && (forall|s: St| #[trigger] r.x(s, n, c) == v_exit(s, n, c))
}
impl AugAssignPrinter {
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs AugAssignPrinter::new props=C24 exactfmt
//@ret r
//@spec
    ensures r.wf(), // [C24]
//@end
}
impl BinOpPrinter {
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs BinOpPrinter::new props=C24 exactfmt
//@ret r
//@spec
    ensures r.wf(), // [C24]
//@end
}
impl FunctionDefPrinter {
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs FunctionDefPrinter::new props=C24 exactfmt
//@ret r
//@spec
    ensures r.interface_decl_form == interface_decl_form, !r.has_decorators, // [C24]
//@end
}
impl VyperNodePrinterFactory {
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs VyperNodePrinterFactory::new props=C24 exactfmt
//@ret r
//@spec
    ensures r.settings() == settings.map@, r.cfg() == cfg_of(settings.map@), // [C24]
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs VyperNodePrinterFactory::default props=C24 exactfmt
//@ret r
//@spec
    ensures r.cfg() == (Cfg { paren: false, decl: false }), // [C24]
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs NodePrinterFactory@VyperNodePrinterFactory::printer_for props=C24 exactfmt
//@ret r
//@spec
    ensures prints(r, node@, self.cfg()), // [C24]
//@entry
        proof { lits(); }
//@end
}
// the text of a node in the mutators' comments (units sol and vy take it as the uninterpreted `printed`): it does not abort
//@fn mutagenyx_lib/src/vyper/mutators.rs pretty_print_node name=mutators_pretty_print_node props=C24 exactfmt
//@entry
    proof { lits(); }
//@subst Vec::new() ==> VxBuf::new()
//@subst &mut node_contents ==> node_contents.vx_stream()
//@subst core::str::from_utf8(node_contents.as_slice()).unwrap() ==> node_contents.vx_text()
//@end
