// m is the operator table of the printers
pub open spec fn is_py_map(m: Map<Seq<char>, &'static str>) -> bool {
    forall|n: Seq<char>| (#[trigger] m.dom().contains(n) <==> py(n) is Some) && (m.dom().contains(n) ==> m[n]@ == py(n)->0)
}
//@fn mutagenyx_lib/src/vyper/operators.rs get_python_operator_map props=C24 exactfmt
//@ret r
//@spec
    ensures is_py_map(r@), // [C24]
//@entry
    proof { lits(); }
//@subst HashMap<&'static str, &'static str> ==> StrMap<&'static str>
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs write_simple_value props=C24 exactfmt
//@spec
    requires pwf(*old(printer)),
    ensures did(old(stream), *final(printer), final(stream), st(*old(printer), old(stream)).osub(node@, "value"@, factory.cfg())), // [C24]
//@entry
    proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs write_elements_array props=C24 exactfmt
//@spec
    requires pwf(*old(printer)),
    ensures did(old(stream), *final(printer), final(stream), st(*old(printer), old(stream)).olist(node@, "elements"@, factory.cfg())), // [C24]
//@entry
    proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs write_key_of_node_as_array props=C24 exactfmt
//@spec
    requires pwf(*old(printer)),
    ensures did(old(stream), *final(printer), final(stream), st(*old(printer), old(stream)).olist(node@, key@, factory.cfg())), // [C24]
//@entry
    proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs write_args_as_array props=C24 exactfmt
//@spec
    requires pwf(*old(printer)),
    ensures did(old(stream), *final(printer), final(stream), st(*old(printer), old(stream)).olist(node@, "args"@, factory.cfg())), // [C24]
//@entry
    proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs write_value_assignment props=C24 exactfmt
//@spec
    requires pwf(*old(printer)),
    ensures did(old(stream), *final(printer), final(stream), st(*old(printer), old(stream)).oval(node@, factory.cfg())), // [C24]
//@entry
    proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs write_body_as_nodes props=C24 loops=1 attr=loop_isolation(false) exactfmt
//@spec
    requires pwf(*old(printer)),
    ensures did(old(stream), *final(printer), final(stream), st(*old(printer), old(stream)).ostmts(node@, factory.cfg())), // [C24]
//@entry
    proof { lits(); }
//@loop 0
        invariant pwf(*printer), did(old(stream), *printer, stream, st(*old(printer), old(stream)).stmts(jvs(body_array@), factory.cfg(), vx_it0.index() as int)), vx_it0.seq().len() == body_array@.len(), forall|i: int| 0 <= i < body_array@.len() ==> *vx_it0.seq()[i] == body_array@[i],
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs write_indented_body_array props=C24 exactfmt
//@spec
    requires pwf(*old(printer)),
    ensures did(old(stream), *final(printer), final(stream), st(*old(printer), old(stream)).olines(node@, "body"@, factory.cfg())), // [C24]
//@entry
    proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs write_indented_array props=C24 loops=1 attr=loop_isolation(false) exactfmt
//@spec
    requires pwf(*old(printer)),
    ensures did(old(stream), *final(printer), final(stream), st(*old(printer), old(stream)).lines(jvs(array@), factory.cfg(), array@.len() as int)), // [C24]
//@entry
    proof { lits(); }
//@loop 0
        invariant pwf(*printer), did(old(stream), *printer, stream, st(*old(printer), old(stream)).lines(jvs(array@), factory.cfg(), i as int).onl(0 < i && i < array@.len())), i <= array@.len(),
        decreases array@.len() - i,
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs write_node_with_parens_maybe props=C24 exactfmt
//@spec
    requires pwf(*old(printer)),
    ensures did(old(stream), *final(printer), final(stream), st(*old(printer), old(stream)).operand(node@, factory.cfg())), // [C24]
//@entry
    proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs write_value_string_as_token props=C24 exactfmt
//@spec
    requires pwf(*old(printer)),
    ensures did(old(stream), *final(printer), final(stream), st(*old(printer), old(stream)).ostr(node@, "value"@)), // [C24]
//@entry
    proof { lits(); }
//@end
// a growing buffer as a stream
pub struct VxBuf { pub t: Ghost<Seq<char>> }
impl Write for VxBuf {
    open spec fn text(&self) -> Seq<char> { self.t@ }
    open spec fn good(&self) -> bool { true }
}
impl VxBuf {
    pub fn new() -> (r: VxBuf) ensures r.t@ == Seq::<char>::empty() { VxBuf { t: Ghost(Seq::empty()) } }
    #[verifier::external_body]
    pub fn vx_stream(&mut self) -> (r: &mut dyn Write) ensures (*r).text() == old(self).t@, (*r).good(), final(self).t@ == (*final(r)).text() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_text(&self) -> (r: &str) ensures r@ == self.t@ { unimplemented!() }
}
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs pretty_print_node props=C24 exactfmt
//@ret r
//@spec
    ensures r@ == ptext(node@, factory.cfg()), // [C24]
//@entry
    proof { lits(); }
//@subst Vec::new() ==> VxBuf::new()
//@subst &mut node_contents ==> node_contents.vx_stream()
//@subst core::str::from_utf8(node_contents.as_slice()).unwrap() ==> node_contents.vx_text()
//@end
//@fn mutagenyx_lib/src/vyper/pretty_printer.rs escape_string props=C24 loops=1 exactfmt
//@ret r
//@spec
    ensures r@ == esc(s@), // [C24]
//@subst s.chars() ==> vx_chars(s)
//@subst escaped.push(c) ==> vx_push(&mut escaped, c)
//@loop 0
        invariant vx_it0.seq() == s@, escaped@ == esc(s@.take(vx_it0.index() as int)),
//@loopstart 0
        proof { lits(); let k = vx_it0.index() as int; assert(s@.take(k + 1).drop_last() == s@.take(k)); assert(s@.take(k + 1).last() == c); assert(esc(s@.take(k)).push(c) == esc(s@.take(k)) + seq![c]); }
//@afterloop 0
    proof { assert(s@.take(s@.len() as int) == s@); }
//@end
