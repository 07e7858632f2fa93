// ---- node_printer.rs ----
pub trait NodePrinterFactory<A: View<V = JV>> {
    spec fn settings(&self) -> Map<Seq<char>, PreferenceValue>;
    spec fn cfg(&self) -> Cfg;
    fn get_settings(&self) -> (r: &Preferences) ensures r.map@ == self.settings(), self.cfg() == cfg_of(self.settings());
    fn get_preference_value_for_key(&self, key: &str) -> (r: bool) ensures r == pref(self.settings(), key@), self.cfg() == cfg_of(self.settings());
}
// e, b, x: what entering, printing and leaving a node make of the printing state
pub trait NodePrinter<A: View<V = JV>> {
    spec fn e(&self, s: St, n: JV, c: Cfg) -> St;
    spec fn b(&self, s: St, n: JV, c: Cfg) -> St;
    spec fn x(&self, s: St, n: JV, c: Cfg) -> St;
    spec fn wf(&self) -> bool;
    spec fn start(&self) -> bool;
    spec fn ready(&self, n: JV) -> bool;
    spec fn kids(&self) -> bool;
    fn on_entry(&mut self, _printer: &mut PrettyPrinter, _stream: &mut dyn Write, _factory: &dyn NodePrinterFactory<A>, _node: &A)
        requires pwf(*old(_printer)), old(self).wf(), old(self).start(),
        ensures did(old(_stream), *final(_printer), final(_stream), old(self).e(st(*old(_printer), old(_stream)), _node@, _factory.cfg())), // [C24,C25]
            final(self).wf(), final(self).ready(_node@), final(self).kids() == old(self).kids(),
            forall|s: St, c: Cfg| #[trigger] final(self).b(s, _node@, c) == old(self).b(s, _node@, c),
            forall|s: St, c: Cfg| #[trigger] final(self).x(s, _node@, c) == old(self).x(s, _node@, c);
    fn print_node(&mut self, _printer: &mut PrettyPrinter, _stream: &mut dyn Write, _factory: &dyn NodePrinterFactory<A>, _node: &A)
        requires pwf(*old(_printer)), old(self).wf(), old(self).ready(_node@),
        ensures did(old(_stream), *final(_printer), final(_stream), old(self).b(st(*old(_printer), old(_stream)), _node@, _factory.cfg())), // [C24,C25]
            final(self).wf(), final(self).kids() == old(self).kids(),
            forall|s: St, c: Cfg| #[trigger] final(self).x(s, _node@, c) == old(self).x(s, _node@, c);
    fn on_exit(&mut self, _printer: &mut PrettyPrinter, _stream: &mut dyn Write, _factory: &dyn NodePrinterFactory<A>, _node: &A)
        requires pwf(*old(_printer)), old(self).wf(),
        ensures did(old(_stream), *final(_printer), final(_stream), old(self).x(st(*old(_printer), old(_stream)), _node@, _factory.cfg())); // [C24,C25]
    fn visit_children(&mut self) -> (r: bool)
        ensures r == old(self).kids(), final(self).wf() == old(self).wf(), forall|s: St, n: JV, c: Cfg| #[trigger] final(self).x(s, n, c) == old(self).x(s, n, c); // [C24,C25]
}
pub type AST = Value;
// ---- node_printer_helpers.rs ----
// proved in ppn.vrs, where pr is the walk that the language's entry, body, exit and known kinds define
//@fn mutagenyx_lib/src/node_printer_helpers.rs traverse_sub_node_and_print trusted
//@spec
    requires pwf(*old(printer)),
    ensures did(old(stream), *final(printer), final(stream), st(*old(printer), old(stream)).sub(node@, factory.cfg())),
//@subst AST: SimpleAST<AST> ==> AST: View<V = JV>
//@end
pub open spec fn views<A: View<V = JV>>(a: Seq<A>) -> Seq<JV> { a.map_values(|x: A| x@) }
// printing the first k elements by g, with h between two
pub open spec fn each(g: spec_fn(St, JV) -> St, h: spec_fn(St) -> St, s: St, a: Seq<JV>, k: int) -> St decreases k {
    if k <= 0 { s } else { g(if k > 1 { h(each(g, h, s, a, k - 1)) } else { each(g, h, s, a, k - 1) }, a[k - 1]) }
}
// what the functions handed to the helper make of the printing state
#[verifier::prophetic]
pub open spec fn computes<AST: View<V = JV>, F: Fn(&mut PrettyPrinter, &mut dyn Write, &dyn NodePrinterFactory<AST>, &AST) -> ()>(f: F, factory: &dyn NodePrinterFactory<AST>, g: spec_fn(St, JV) -> St) -> bool {
    forall|p: &mut PrettyPrinter, w: &mut dyn Write, n: &AST| #[trigger] f.ensures((p, w, factory, n), ()) ==> did(&*w, *final(p), final(w), g(st(*p, &*w), n@))
}
#[verifier::prophetic]
pub open spec fn formats<AST: View<V = JV>, I: Fn(&mut PrettyPrinter, &mut dyn Write, &dyn NodePrinterFactory<AST>) -> ()>(f: I, factory: &dyn NodePrinterFactory<AST>, h: spec_fn(St) -> St) -> bool {
    forall|p: &mut PrettyPrinter, w: &mut dyn Write| #[trigger] f.ensures((p, w, factory), ()) ==> did(&*w, *final(p), final(w), h(st(*p, &*w)))
}
pub open spec fn lister(c: Cfg) -> spec_fn(St, JV) -> St { |s: St, n: JV| s.sub(n, c) }
pub open spec fn comma() -> spec_fn(St) -> St { |s: St| s.gap(true) }
pub proof fn lemma_list(s: St, a: Seq<JV>, c: Cfg, k: int)
    ensures each(lister(c), comma(), s, a, k) == s.list(a, c, k),
    decreases k,
{
    if k > 0 { lemma_list(s, a, c, k - 1); }
}
//@fn mutagenyx_lib/src/node_printer_helpers.rs print_array_helper props=C24,C25
//@spec
    requires pwf(*old(printer)),
    ensures did(old(stream), *final(printer), final(stream), st(*old(printer), old(stream)).list(views(array@), factory.cfg(), array@.len() as int)), // [C24,C25]
//@subst AST: SimpleAST<AST> ==> AST: View<V = JV>
//@entry
    proof { lits(); lemma_list(st(*printer, stream), views(array@), factory.cfg(), array@.len() as int); }
//@closure 0
    requires pwf(*$0), ensures did(old($1), *final($0), final($1), st(*old($0), old($1)).sub($3@, $2.cfg()))
//@closure 1
    requires pwf(*$0), ensures did(old($1), *final($0), final($1), st(*old($0), old($1)).gap(true))
//@end
//@fn mutagenyx_lib/src/node_printer_helpers.rs print_array_helper_with_node_handler_and_space_formatter props=C24,C25 loops=1 attr=loop_isolation(false)
//@spec
    requires pwf(*old(printer)),
        forall|p: &mut PrettyPrinter, w: &mut dyn Write, f: &dyn NodePrinterFactory<AST>, n: &AST| pwf(*p) ==> #[trigger] node_printer.requires((p, w, f, n)),
        forall|p: &mut PrettyPrinter, w: &mut dyn Write, f: &dyn NodePrinterFactory<AST>| pwf(*p) ==> #[trigger] inter_node_formatter.requires((p, w, f)),
        forall|p: &mut PrettyPrinter, w: &mut dyn Write, f: &dyn NodePrinterFactory<AST>, n: &AST| #[trigger] node_printer.ensures((p, w, f, n), ()) ==> pwf(*final(p)),
        forall|p: &mut PrettyPrinter, w: &mut dyn Write, f: &dyn NodePrinterFactory<AST>| #[trigger] inter_node_formatter.ensures((p, w, f), ()) ==> pwf(*final(p)),
    ensures pwf(*final(printer)), forall|g: spec_fn(St, JV) -> St, h: spec_fn(St) -> St|
        computes(node_printer, factory, g) && formats(inter_node_formatter, factory, h) ==> did(old(stream), *final(printer), final(stream), #[trigger] each(g, h, st(*old(printer), old(stream)), views(array@), array@.len() as int)), // [C24,C25]
//@subst AST: SimpleAST<AST> ==> AST: View<V = JV>
//@loop 0
        invariant i <= array@.len(), pwf(*printer),
            forall|g: spec_fn(St, JV) -> St, h: spec_fn(St) -> St|
        computes(node_printer, factory, g) && formats(inter_node_formatter, factory, h) ==> did(old(stream), *printer, stream, if 0 < i && i < array@.len() { h(each(g, h, st(*old(printer), old(stream)), views(array@), i as int)) } else { #[trigger] each(g, h, st(*old(printer), old(stream)), views(array@), i as int) }),
        decreases array@.len() - i,
//@loopstart 0
        let ghost k = i as int;
//@loopend 0
        proof {
            assert forall|g: spec_fn(St, JV) -> St, h: spec_fn(St) -> St| computes(node_printer, factory, g) && formats(inter_node_formatter, factory, h) implies
                did(old(stream), *printer, stream, if 0 < i && i < array@.len() { h(each(g, h, st(*old(printer), old(stream)), views(array@), i as int)) } else { #[trigger] each(g, h, st(*old(printer), old(stream)), views(array@), i as int) }) by {
                let e = each(g, h, st(*old(printer), old(stream)), views(array@), k);
                assert(each(g, h, st(*old(printer), old(stream)), views(array@), k + 1) == g(if k + 1 > 1 { h(e) } else { e }, views(array@)[k]));
            }
        }
//@end
