pub proof fn lem_esc(e: Seq<char>)
    ensures e.push('\\').push('t') == e + "\\t"@, e.push('\\').push('n') == e + "\\n"@, e.push('\\').push('r') == e + "\\r"@
{ reveal_strlit("\\t"); reveal_strlit("\\n"); reveal_strlit("\\r");
  assert(e.push('\\').push('t') =~= e + "\\t"@); assert(e.push('\\').push('n') =~= e + "\\n"@); assert(e.push('\\').push('r') =~= e + "\\r"@); }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs print_documentation_helper props=C25 exactfmt
//@spec
    requires pwf(*old(printer)),
    ensures did(old(stream), *final(printer), final(stream), st(*old(printer), old(stream)).docs(node@, factory.cfg())), // [C25]
//@entry
    proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs close_block_exit_helper props=C25 exactfmt
//@spec
    requires pwf(*old(printer)),
    ensures did(old(stream), *final(printer), final(stream), st(*old(printer), old(stream)).dec().nl().indent().tok("}"@)), // [C25]
//@entry
    proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs print_name_helper props=C25 exactfmt
//@spec
    requires pwf(*old(printer)),
    ensures did(old(stream), *final(printer), final(stream), st(*old(printer), old(stream)).ostr(node@, "name"@)), // [C25]
//@entry
    proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs print_operator_helper props=C25 exactfmt
//@spec
    requires pwf(*old(printer)),
    ensures did(old(stream), *final(printer), final(stream), st(*old(printer), old(stream)).operator(node@)), // [C25]
//@entry
    proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs print_space_and_array_helper props=C25 loops=1 attr=loop_isolation(false) exactfmt
//@spec
    requires pwf(*old(printer)),
    ensures did(old(stream), *final(printer), final(stream), if node@ is Arr { st(*old(printer), old(stream)).spaced(node@->Arr_0, factory.cfg(), node@->Arr_0.len() as int) } else { st(*old(printer), old(stream)) }), // [C25]
//@entry
    proof { lits(); }
//@loop 0
        invariant pwf(*printer), did(old(stream), *printer, stream, st(*old(printer), old(stream)).spaced(jvs(array@), factory.cfg(), vx_it0.index() as int)), vx_it0.seq().len() == array@.len(), forall|i: int| 0 <= i < array@.len() ==> *vx_it0.seq()[i] == array@[i],
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs print_statements_helper props=C25 loops=1 attr=loop_isolation(false) exactfmt
//@spec
    requires pwf(*old(printer)),
    ensures did(old(stream), *final(printer), final(stream), st(*old(printer), old(stream)).block(node@, factory.cfg(), single_element_on_same_line)), // [C25]
//@entry
    proof { lits(); }
//@beforeloop 0
                let ghost s1 = st(*printer, stream);
//@loop 0
                    invariant pwf(*printer), i <= statements_array@.len(), did(old(stream), *printer, stream, s1.lines(jvs(statements_array@), factory.cfg(), i as int).onl(0 < i && i < statements_array@.len())),
                    decreases statements_array@.len() - i,
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs print_arguments_helper props=C25 exactfmt
//@spec
    requires pwf(*old(printer)),
    ensures did(old(stream), *final(printer), final(stream), st(*old(printer), old(stream)).olist(node@, "arguments"@, factory.cfg())), // [C25]
//@entry
    proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs print_return_parameters_helper props=C25 exactfmt
//@spec
    requires pwf(*old(printer)),
    ensures did(old(stream), *final(printer), final(stream), st(*old(printer), old(stream)).returns(node@, factory.cfg())), // [C25]
//@entry
    proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs print_hex_literal_helper props=C25 exactfmt
//@spec
    requires pwf(*old(printer)),
    ensures did(old(stream), *final(printer), final(stream), st(*old(printer), old(stream)).hexlit(node@)), // [C25]
//@entry
    proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs operator_precedence props=C25 exactfmt
//@ret r
//@spec
    ensures r == prec(operator@), // [C25]
//@entry
    proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs print_operand_helper props=C25 exactfmt
//@spec
    requires pwf(*old(printer)),
    ensures did(old(stream), *final(printer), final(stream), st(*old(printer), old(stream)).operand(node@, operand@, factory.cfg(), is_left)), // [C25]
//@entry
    proof { lits(); }
//@end
// a growing buffer as a stream
pub struct VxBuf { pub t: Ghost<Seq<char>> }
impl Write for VxBuf {
    open spec fn text(&self) -> Seq<char> { self.t@ }
    open spec fn good(&self) -> bool { true }
}
impl VxBuf {
    pub fn new() -> (r: VxBuf) ensures r.t@ == Seq::<char>::empty() { VxBuf { t: Ghost(Seq::empty()) } }
    #[verifier::external_body]
    pub fn vx_stream(&mut self) -> (r: &mut dyn Write) ensures (*r).text() == old(self).t@, (*r).good(), final(self).t@ == (*final(r)).text() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_text(&self) -> (r: &str) ensures r@ == self.t@ { unimplemented!() }
}
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs pretty_print_node props=C25 exactfmt
//@ret r
//@spec
    ensures r@ == ptext(node@, factory.cfg()), // [C25]
//@entry
    proof { lits(); }
//@subst Vec::new() ==> VxBuf::new()
//@subst &mut node_contents ==> node_contents.vx_stream()
//@subst core::str::from_utf8(node_contents.as_slice()).unwrap() ==> node_contents.vx_text()
//@end
#[verifier::external_body]
pub fn vx_split_nl<'a>(s: &'a str) -> (r: Vec<&'a str>) ensures r@.len() == split_nl(s@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == split_nl(s@)[i] { unimplemented!() }
// format!("\\x{:02x}", n), format!("\\u{:04x}", n)
#[verifier::external_body]
pub fn vx_x2(n: u32) -> (r: String) requires n < 256 ensures r@ == "\\x"@ + hex2(n as int) { unimplemented!() }
#[verifier::external_body]
pub fn vx_u4(n: u32) -> (r: String) requires n < 65536 ensures r@ == "\\u"@ + hex4(n as int) { unimplemented!() }
#[verifier::external_body]
pub fn vx_utf8(c: char) -> (r: Vec<u8>) ensures r@ == utf8(c) { unimplemented!() }
#[verifier::external_body]
pub fn vx_digit(c: char) -> (r: bool) ensures r == ('0' <= c && c <= '9') { unimplemented!() }
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs unencode_string props=C25 loops=2 attr=rlimit(80) keepformat
//@ret r
//@spec
    ensures r@ == esc(s@), // [C25]
//@subst s.chars() ==> vx_chars(s)
//@subst unencoded_s.push( ==> vx_push(&mut unencoded_s, 
//@subst format!("\\x{:02x}", c_code) ==> vx_x2(c_code)
//@subst format!("\\x{:02x}", b) ==> vx_x2(b as u32)
//@subst format!("\\u{:04x}", c_code) ==> vx_u4(c_code)
//@subst c.vx_to_string().bytes() ==> vx_utf8(c)
//@subst unencoded_s += converted_char.as_str(); ==> vx_push_str(&mut unencoded_s, converted_char.as_str());
//@subst unencoded_s += converted_byte.as_str(); ==> vx_push_str(&mut unencoded_s, converted_byte.as_str());
//@subst (32..127).contains(&c_code) ==> (32 <= c_code && c_code < 127)
//@loop 1
                invariant vx_it0.index() < s@.len(), vx_it1.seq() == utf8(c), unencoded_s@ == esc(s@.take(vx_it0.index() as int)) + xs(utf8(c).take(vx_it1.index() as int)),
//@loopstart 1
                proof { let k = vx_it1.index() as int; let u = utf8(c); assert(u.take(k + 1).drop_last() == u.take(k)); assert(u.take(k + 1).last() == b); }
//@afterloop 1
            proof { assert(utf8(c).take(utf8(c).len() as int) == utf8(c)); }
//@loop 0
        invariant vx_it0.seq() == s@, unencoded_s@ == esc(s@.take(vx_it0.index() as int)),
//@loopstart 0
        proof { let k = vx_it0.index() as int; assert(s@.take(k + 1).drop_last() == s@.take(k)); assert(s@.take(k + 1).last() == c); let e = esc(s@.take(k)); assert(e.push(c) == e + seq![c]); assert(e.push('\\').push(c) == e + seq!['\\', c]); lem_esc(e); }
//@afterloop 0
    proof { assert(s@.take(s@.len() as int) == s@); }
//@end
//@fn mutagenyx_lib/src/solidity/pretty_printer.rs contains_digits_and_or_dots props=C25 loops=1 exactfmt
//@ret r
//@spec
    ensures r == dotted(s@), // [C25]
//@subst s.chars() ==> vx_chars(s)
//@subst c.is_ascii_digit() ==> vx_digit(c)
//@loop 0
        invariant vx_it0.seq() == s@, s@.len() > 0, forall|i: int| 0 <= i < vx_it0.index() ==> ('0' <= #[trigger] s@[i] && s@[i] <= '9') || s@[i] == '.',
//@end
