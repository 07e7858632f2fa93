//@item mutagenyx_lib/src/solidity/pretty_printer.rs SolidityNodePrinterFactory
//@item mutagenyx_lib/src/solidity/pretty_printer.rs WRITE_EXPRESSION_STATEMENT_SEMICOLON %% static ==> const %% &str ==> &'static str
//@item mutagenyx_lib/src/solidity/pretty_printer.rs SINGLE_BLOCK_STATEMENTS_ON_SAME_LINE %% static ==> const %% &str ==> &'static str
//@item mutagenyx_lib/src/solidity/pretty_printer.rs WRITE_NONPAYABLE_STATE_MUTABILITY %% static ==> const %% &str ==> &'static str
impl NodePrinterFactory<SolidityAST> for SolidityNodePrinterFactory {
    closed spec fn settings(&self) -> Map<Seq<char>, PreferenceValue> { self.settings.map@ }
    closed spec fn cfg(&self) -> Cfg { cfg_of(self.settings.map@) }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinterFactory@SolidityNodePrinterFactory::get_settings props=C25 exactfmt
//@ret r
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinterFactory@SolidityNodePrinterFactory::get_preference_value_for_key props=C25 default=mutagenyx_lib/src/node_printer.rs:NodePrinterFactory::get_preference_value_for_key exactfmt
//@ret r
//@end
}
// printing a node of a known kind by way of r spells it as its kind demands
pub open spec fn prints(r: Box<dyn NodePrinter<SolidityAST>>, n: JV, c: Cfg) -> bool {
    r.wf() && r.start() && r.kids() == !known(n) && (forall|s: St| #[trigger] r.e(s, n, c) == v_entry(s, n, c)) && (forall|s: St| #[trigger] r.b(s, n, c) == v_body(s, n, c)) && (forall|s: St| #[trigger] r.x(s, n, c) == v_exit(s, n, c))
}
impl BlockPrinter {
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs BlockPrinter::new props=C25 exactfmt
//@ret r
//@spec
    ensures r.single_statement_on_same_line == single_statement_on_same_line, // [C25]
//@end
}
impl ExpressionStatementPrinter {
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs ExpressionStatementPrinter::new props=C25 exactfmt
//@ret r
//@spec
    ensures r.write_statement_semicolon == write_statement_semicolon, // [C25]
//@end
}
impl FunctionDefinitionPrinter {
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs FunctionDefinitionPrinter::new props=C25 exactfmt
//@ret r
//@spec
    ensures r.write_nonpayable_state_mutability == write_nonpayable_state_mutability, // [C25]
//@end
}
impl SolidityNodePrinterFactory {
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs SolidityNodePrinterFactory::new props=C25 exactfmt
//@ret r
//@spec
    ensures r.settings() == settings.map@, r.cfg() == cfg_of(settings.map@), // [C25]
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs SolidityNodePrinterFactory::default props=C25 exactfmt
//@ret r
//@spec
    ensures r.cfg() == (Cfg { semi: true, single: false, nonpay: false }), // [C25]
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs NodePrinterFactory@SolidityNodePrinterFactory::printer_for props=C25 attr=rlimit(200) exactfmt
//@ret r
//@spec
    ensures prints(r, node@, self.cfg()), // [C25]
//@entry
        proof { lits(); }
//@end
}
// the text of a node in the mutators' comments (units sol and vy take it as the uninterpreted `printed`): it does not abort
//@fn mutagenyx_lib/src/solidity/mutators.rs pretty_print_node name=mutators_pretty_print_node props=C25 exactfmt
//@entry
    proof { lits(); }
//@subst Vec::new() ==> VxBuf::new()
//@subst &mut node_contents ==> node_contents.vx_stream()
//@subst core::str::from_utf8(node_contents.as_slice()).unwrap() ==> node_contents.vx_text()
//@end
