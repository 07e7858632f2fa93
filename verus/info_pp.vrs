// ---- contracts of pretty_printer.rs (proved in unit pp) over the uninterpreted primitives, for the standard output ----
impl PrettyPrinter {
//@fn mutagenyx_lib/src/pretty_printer.rs PrettyPrinter::new
//@ret r
//@spec
    requires page_width >= 1,
    ensures pwf(r), r.row == 1, r.column == 1, r.indent == 0, r.tab_width == tab_width, r.page_width == page_width, r.newline@ == "\n"@,
        tab_width > 0 && page_width >= tab_width ==> r.max_indent == page_width / tab_width - 1,
//@end
//@fn mutagenyx_lib/src/pretty_printer.rs PrettyPrinter::increase_indent
//@spec
    requires pwf(*old(self)),
    ensures pwf(*final(self)), *final(self) == (PrettyPrinter { indent: final(self).indent, ..*old(self) }), final(self).indent == if old(self).indent >= old(self).max_indent { old(self).max_indent as int } else { old(self).indent + 1 },
//@end
//@fn mutagenyx_lib/src/pretty_printer.rs PrettyPrinter::increase_indent_by
//@spec
    requires pwf(*old(self)), old(self).indent + amount <= usize::MAX,
    ensures pwf(*final(self)), *final(self) == (PrettyPrinter { indent: final(self).indent, ..*old(self) }), final(self).indent == if old(self).indent + amount <= old(self).max_indent { old(self).indent + amount } else { old(self).max_indent as int },
//@end
//@fn mutagenyx_lib/src/pretty_printer.rs PrettyPrinter::decrease_indent_by
//@spec
    requires pwf(*old(self)),
    ensures pwf(*final(self)), *final(self) == (PrettyPrinter { indent: final(self).indent, ..*old(self) }), final(self).indent == if amount > old(self).indent { 0int } else { old(self).indent - amount },
//@end
//@fn mutagenyx_lib/src/pretty_printer.rs PrettyPrinter::decrease_indent
//@spec
    requires pwf(*old(self)),
    ensures pwf(*final(self)), *final(self) == (PrettyPrinter { indent: final(self).indent, ..*old(self) }), final(self).indent == if old(self).indent == 0 { 0int } else { old(self).indent - 1 },
//@end
}
//@fn mutagenyx_lib/src/pretty_printer.rs write_indent
//@spec
    requires pwf(*old(printer)),
    ensures did(*old(printer), old(stream), *final(printer), final(stream), st(*old(printer), old(stream)).indent()),
//@subst &mut dyn Write ==> &mut Stdout
//@end
//@fn mutagenyx_lib/src/pretty_printer.rs write_space
//@spec
    requires pwf(*old(printer)),
    ensures did(*old(printer), old(stream), *final(printer), final(stream), st(*old(printer), old(stream)).sp()),
//@subst &mut dyn Write ==> &mut Stdout
//@end
//@fn mutagenyx_lib/src/pretty_printer.rs write_newline
//@spec
    requires pwf(*old(printer)),
    ensures did(*old(printer), old(stream), *final(printer), final(stream), st(*old(printer), old(stream)).nl()),
//@subst &mut dyn Write ==> &mut Stdout
//@end
//@fn mutagenyx_lib/src/pretty_printer.rs write_token
//@spec
    requires pwf(*old(printer)),
    ensures did(*old(printer), old(stream), *final(printer), final(stream), st(*old(printer), old(stream)).tok(token@)),
//@subst &mut dyn Write ==> &mut Stdout
//@end
//@fn mutagenyx_lib/src/pretty_printer.rs write_spaces
//@spec
    requires pwf(*old(printer)),
    ensures did(*old(printer), old(stream), *final(printer), final(stream), st(*old(printer), old(stream)).sps(amount as nat)),
//@subst &mut dyn Write ==> &mut Stdout
//@end
//@fn mutagenyx_lib/src/pretty_printer.rs write_tokens
//@spec
    requires pwf(*old(printer)),
    ensures did(*old(printer), old(stream), *final(printer), final(stream), st(*old(printer), old(stream)).toks(token@, count as nat)),
//@subst &mut dyn Write ==> &mut Stdout
//@end
//@fn mutagenyx_lib/src/pretty_printer.rs write_flowable_text
//@spec
    requires pwf(*old(printer)),
    ensures did(*old(printer), old(stream), *final(printer), final(stream), st(*old(printer), old(stream)).flow(s@, next_line_text@)),
//@subst &mut dyn Write ==> &mut Stdout
//@end
