// no line has 2^64 bytes, and no text 2^64 lines (assumption)
pub axiom fn ax_room(p: PrettyPrinter, s: Seq<char>) ensures p.row < usize::MAX, p.column + blen(s) <= usize::MAX;
// page / tab - 1 in floating point, cut to an integer: exact for the widths that occur (assumption; the harness compares)
#[verifier::external_body]
pub fn vx_fdiv1(page: usize, tab: usize) -> (r: usize) ensures tab == 0 || page < tab ==> r * tab == 0, tab > 0 && page >= tab ==> r == page / tab - 1 { unimplemented!() }
pub proof fn lemma_indlen(p: PrettyPrinter) requires pwf(p) ensures 0 <= p.indent * p.tab_width < p.page_width, p.indent * p.tab_width <= usize::MAX
{
    vstd::arithmetic::mul::lemma_mul_inequality(p.indent as int, p.max_indent as int, p.tab_width as int);
    vstd::arithmetic::mul::lemma_mul_nonnegative(p.indent as int, p.tab_width as int);
    if p.max_indent * p.tab_width != 0 { assert(p.tab_width > 0) by (nonlinear_arith) requires p.max_indent * p.tab_width != 0, p.tab_width >= 0; }
}
pub proof fn lemma_spaces(n: int) ensures n >= 0 ==> blen(spaces(n)) == n, n >= 0 ==> spaces(n) + " "@ == spaces(n + 1), spaces(0) == Seq::<char>::empty() decreases n
{
    reveal_strlit(" "); broadcast use ax_enc;
    if n > 0 { lemma_spaces(n - 1); assert(spaces(n).drop_last() == spaces(n - 1)); assert(spaces(n).last() == ' '); }
    if n >= 0 { assert(spaces(n) + " "@ == spaces(n + 1)); }
    assert(spaces(0) == Seq::<char>::empty());
}
// what a write of s into an accepting stream leaves
pub open spec fn wrote(p: PrettyPrinter, w: &dyn Write, p2: PrettyPrinter, w2: &dyn Write, s: St) -> bool {
    w2.good() == w.good() && pwf(p2) && p2.indent == p.indent && p2.tab_width == p.tab_width && p2.page_width == p.page_width && p2.max_indent == p.max_indent && p2.newline@ == p.newline@ && (w.good() ==> st(p2, w2) == s)
}
pub open spec fn wroter(p: PrettyPrinter, w: &dyn Write, p2: PrettyPrinter, w2: &dyn Write, ok: bool, s: St) -> bool {
    wrote(p, w, p2, w2, s) && (w.good() ==> ok) && (ok ==> st(p2, w2) == s)
}
impl PrettyPrinter {
//@fn mutagenyx_lib/src/pretty_printer.rs PrettyPrinter::new props=C14 exactfmt
//@ret r
//@spec
    requires page_width >= 1,
    ensures pwf(r), r.row == 1, r.column == 1, r.indent == 0, r.tab_width == tab_width, r.page_width == page_width, r.newline@ == "\n"@, // [C14]
        tab_width > 0 && page_width >= tab_width ==> r.max_indent == page_width / tab_width - 1, // [C14]
//@subst (page_width as f64 / tab_width as f64) - vx_f64() ==> vx_fdiv1(page_width, tab_width)
//@subst max_indent as usize ==> max_indent
//@subst cfg!(target_os = "windows") ==> false
//@entry
        proof { lits(); if tab_width > 0 && page_width >= tab_width { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(page_width as int, tab_width as int); assert((page_width / tab_width - 1) * tab_width + tab_width <= page_width) by (nonlinear_arith) requires page_width == tab_width * (page_width / tab_width) + page_width % tab_width, page_width % tab_width >= 0; } }
//@end
//@fn mutagenyx_lib/src/pretty_printer.rs PrettyPrinter::increase_indent props=C14 strfn exactfmt
//@spec
    requires pwf(*old(self)),
    ensures pwf(*final(self)), *final(self) == (PrettyPrinter { indent: final(self).indent, ..*old(self) }), final(self).indent == if old(self).indent >= old(self).max_indent { old(self).max_indent as int } else { old(self).indent + 1 }, // [C14]
//@end
//@fn mutagenyx_lib/src/pretty_printer.rs PrettyPrinter::increase_indent_by props=C14 strfn exactfmt
//@spec
    requires pwf(*old(self)), old(self).indent + amount <= usize::MAX,
    ensures pwf(*final(self)), *final(self) == (PrettyPrinter { indent: final(self).indent, ..*old(self) }), final(self).indent == if old(self).indent + amount <= old(self).max_indent { old(self).indent + amount } else { old(self).max_indent as int }, // [C14]
//@end
//@fn mutagenyx_lib/src/pretty_printer.rs PrettyPrinter::decrease_indent props=C14 strfn exactfmt
//@spec
    requires pwf(*old(self)),
    ensures pwf(*final(self)), *final(self) == (PrettyPrinter { indent: final(self).indent, ..*old(self) }), final(self).indent == if old(self).indent == 0 { 0int } else { old(self).indent - 1 }, // [C14]
//@end
//@fn mutagenyx_lib/src/pretty_printer.rs PrettyPrinter::decrease_indent_by props=C14 strfn exactfmt
//@spec
    requires pwf(*old(self)),
    ensures pwf(*final(self)), *final(self) == (PrettyPrinter { indent: final(self).indent, ..*old(self) }), final(self).indent == if amount > old(self).indent { 0int } else { old(self).indent - amount }, // [C14]
//@end
//@fn mutagenyx_lib/src/pretty_printer.rs PrettyPrinter::indent_length props=C14 strfn exactfmt
//@ret r
//@spec
    requires pwf(*self),
    ensures r == self.indent * self.tab_width, r < self.page_width, // [C14]
//@entry
        proof { lemma_indlen(*self); }
//@end
//@fn mutagenyx_lib/src/pretty_printer.rs PrettyPrinter::space_string_for_length props=C14 strfn loops=1 exactfmt
//@ret r
//@spec
    ensures r@ == spaces(size as int), // [C14]
//@loop 0
        invariant i <= size, s@ == spaces(i as int),
        decreases size - i,
//@beforeloop 0
        proof { lemma_spaces(0); }
//@loopstart 0
            proof { lemma_spaces(i as int); lits(); }
//@end
//@fn mutagenyx_lib/src/pretty_printer.rs PrettyPrinter::indent_string props=C14 strfn exactfmt
//@ret r
//@spec
    requires pwf(*self),
    ensures r@ == spaces(self.indent * self.tab_width), // [C14]
//@end
//@fn mutagenyx_lib/src/pretty_printer.rs PrettyPrinter::write_indent props=C14 strfn exactfmt
//@ret r
//@spec
    requires pwf(*old(self)),
    ensures wroter(*old(self), old(stream), *final(self), final(stream), r is Ok, st(*old(self), old(stream)).indent()), // [C14]
//@entry
        proof { lemma_spaces(0); lemma_indlen(*self); lemma_spaces(self.indent * self.tab_width); let e = Seq::<char>::empty(); assert(old(stream).text() + e == old(stream).text()); assert(b8(e) == Seq::<u8>::empty()); }
//@end
//@fn mutagenyx_lib/src/pretty_printer.rs PrettyPrinter::write_newline props=C14 strfn exactfmt
//@ret r
//@spec
    requires pwf(*old(self)),
    ensures wroter(*old(self), old(stream), *final(self), final(stream), r is Ok, st(*old(self), old(stream)).nl()), // [C14]
//@entry
        proof { ax_room(*self, Seq::empty()); }
//@end
//@fn mutagenyx_lib/src/pretty_printer.rs PrettyPrinter::write_space props=C14 strfn exactfmt
//@ret r
//@spec
    requires pwf(*old(self)),
    ensures wroter(*old(self), old(stream), *final(self), final(stream), r is Ok, st(*old(self), old(stream)).sp()), // [C14]
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/pretty_printer.rs PrettyPrinter::write_spaces props=C14 strfn loops=1 exactfmt
//@ret r
//@spec
    requires pwf(*old(self)),
    ensures wroter(*old(self), old(stream), *final(self), final(stream), r is Ok, st(*old(self), old(stream)).sps(spaces as nat)), // [C14]
//@loop 0
        invariant wroter(*old(self), old(stream), *self, stream, true, st(*old(self), old(stream)).sps(vx_it0.index() as nat)), vx_it0.seq().len() == spaces, pwf(*self),
//@end
//@fn mutagenyx_lib/src/pretty_printer.rs PrettyPrinter::write_token props=C14 strfn exactfmt
//@ret r
//@spec
    requires pwf(*old(self)),
    ensures wroter(*old(self), old(stream), *final(self), final(stream), r is Ok, st(*old(self), old(stream)).tok(token@)), // [C14]
//@end
//@fn mutagenyx_lib/src/pretty_printer.rs PrettyPrinter::write_tokens props=C14 strfn loops=1 exactfmt
//@ret r
//@spec
    requires pwf(*old(self)),
    ensures wroter(*old(self), old(stream), *final(self), final(stream), r is Ok, st(*old(self), old(stream)).toks(token@, count as nat)), // [C14]
//@loop 0
        invariant wroter(*old(self), old(stream), *self, stream, true, st(*old(self), old(stream)).toks(token@, vx_it0.index() as nat)), vx_it0.seq().len() == count, pwf(*self),
//@end
//@fn mutagenyx_lib/src/pretty_printer.rs PrettyPrinter::write_string props=C14 strfn exactfmt
//@ret r
//@spec
    requires pwf(*old(self)),
    ensures wroter(*old(self), old(stream), *final(self), final(stream), r is Ok, st(*old(self), old(stream)).quoted(s@)), // [C14]
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/pretty_printer.rs PrettyPrinter::write_triple_string props=C14 strfn exactfmt
//@ret r
//@spec
    requires pwf(*old(self)),
    ensures wroter(*old(self), old(stream), *final(self), final(stream), r is Ok, st(*old(self), old(stream)).quoted3(s@)), // [C14]
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/pretty_printer.rs PrettyPrinter::write_basic_string props=C14 strfn exactfmt
//@ret r
//@spec
    requires pwf(*old(self)),
    ensures wroter(*old(self), old(stream), *final(self), final(stream), r is Ok, st(*old(self), old(stream)).raw(s@)), // [C14]
//@entry
        proof { ax_room(*self, s@); }
//@end
//@fn mutagenyx_lib/src/pretty_printer.rs PrettyPrinter::reset props=C14 strfn exactfmt
//@spec
    requires pwf(*old(self)),
    ensures pwf(*final(self)), *final(self) == (PrettyPrinter { row: 0, column: 0, indent: 0, ..*old(self) }), // [C14]
//@end
}
//@fn mutagenyx_lib/src/pretty_printer.rs write_indent props=C14 strfn exactfmt
//@spec
    requires pwf(*old(printer)),
    ensures wrote(*old(printer), old(stream), *final(printer), final(stream), st(*old(printer), old(stream)).indent()), // [C14]
//@end
//@fn mutagenyx_lib/src/pretty_printer.rs write_space props=C14 strfn exactfmt
//@spec
    requires pwf(*old(printer)),
    ensures wrote(*old(printer), old(stream), *final(printer), final(stream), st(*old(printer), old(stream)).sp()), // [C14]
//@end
//@fn mutagenyx_lib/src/pretty_printer.rs write_spaces props=C14 strfn exactfmt
//@spec
    requires pwf(*old(printer)),
    ensures wrote(*old(printer), old(stream), *final(printer), final(stream), st(*old(printer), old(stream)).sps(amount as nat)), // [C14]
//@end
//@fn mutagenyx_lib/src/pretty_printer.rs write_newline props=C14 strfn exactfmt
//@spec
    requires pwf(*old(printer)),
    ensures wrote(*old(printer), old(stream), *final(printer), final(stream), st(*old(printer), old(stream)).nl()), // [C14]
//@end
//@fn mutagenyx_lib/src/pretty_printer.rs write_token props=C14 strfn exactfmt
//@spec
    requires pwf(*old(printer)),
    ensures wrote(*old(printer), old(stream), *final(printer), final(stream), st(*old(printer), old(stream)).tok(token@)), // [C14]
//@end
//@fn mutagenyx_lib/src/pretty_printer.rs write_tokens props=C14 strfn exactfmt
//@spec
    requires pwf(*old(printer)),
    ensures wrote(*old(printer), old(stream), *final(printer), final(stream), st(*old(printer), old(stream)).toks(token@, count as nat)), // [C14]
//@end
//@fn mutagenyx_lib/src/pretty_printer.rs write_string props=C14 strfn exactfmt
//@spec
    requires pwf(*old(printer)),
    ensures wrote(*old(printer), old(stream), *final(printer), final(stream), st(*old(printer), old(stream)).quoted(s@)), // [C14]
//@end
//@fn mutagenyx_lib/src/pretty_printer.rs write_triple_string props=C14 strfn exactfmt
//@spec
    requires pwf(*old(printer)),
    ensures wrote(*old(printer), old(stream), *final(printer), final(stream), st(*old(printer), old(stream)).quoted3(s@)), // [C14]
//@end
