use vstd::prelude::*;
verus! {
//@include prelude.vrs
//@include error.vrs
//@include tree_spec.vrs
//@include ast_fns.vrs assumed
//@include pp_item.vrs
//@include np_st.vrs
// ---- a language, as this unit knows it: what entering, printing and leaving a node make of the printing state (v_entry, v_body and v_exit of
// ppv_kind.vrs and pps_kind.vrs) and which nodes print their children on their own; c stands for the settings
pub ghost struct Cfg { pub language: int }
pub uninterp spec fn n_entry(s: St, n: JV, c: Cfg) -> St;
pub uninterp spec fn n_body(s: St, n: JV, c: Cfg) -> St;
pub uninterp spec fn n_exit(s: St, n: JV, c: Cfg) -> St;
pub uninterp spec fn n_known(n: JV, c: Cfg) -> bool;
// what printing node n makes of state s: a node of a known kind is spelled as its kind demands; of another node the children are printed, in order
pub open spec fn walk(s: St, n: JV, c: Cfg) -> St decreases n, nkids(n) + 1 {
    let b = n_body(n_entry(s, n, c), n, c);
    n_exit(if n_known(n, c) { b } else { walks(b, n, c, nkids(n) as int) }, n, c)
}
// printing the first k children of n
pub open spec fn walks(s: St, n: JV, c: Cfg, k: int) -> St decreases n, k via walks_dec {
    if k <= 0 || k > nkids(n) { s } else { walk(walks(s, n, c, k - 1), kid(n, k - 1), c) }
}
#[via_fn]
proof fn walks_dec(s: St, n: JV, c: Cfg, k: int) { if 0 < k <= nkids(n) { lemma_kid_smaller(n, k - 1); } }
// ---- node_printer.rs ----
// NodePrinter and NodePrinterFactory mention each other, so the printer behind `Box<dyn NodePrinter<AST>>` stands here as one opaque type. Its
// methods carry the contracts of the trait in np_trait.vrs, and printer_for that of the factories, which the units ppv and pps prove for every printer of both languages.
#[verifier::external_body]
pub struct VxPrinter {}
impl VxPrinter {
    pub uninterp spec fn e(&self, s: St, n: JV, c: Cfg) -> St;
    pub uninterp spec fn b(&self, s: St, n: JV, c: Cfg) -> St;
    pub uninterp spec fn x(&self, s: St, n: JV, c: Cfg) -> St;
    pub uninterp spec fn wf(&self) -> bool;
    pub uninterp spec fn start(&self) -> bool;
    pub uninterp spec fn ready(&self, n: JV) -> bool;
    pub uninterp spec fn kids(&self) -> bool;
    #[verifier::external_body]
    pub fn on_entry(&mut self, _printer: &mut PrettyPrinter, _stream: &mut dyn Write, _factory: &dyn NodePrinterFactory<Value>, _node: &Value)
        requires pwf(*old(_printer)), old(self).wf(), old(self).start(),
        ensures did(old(_stream), *final(_printer), final(_stream), old(self).e(st(*old(_printer), old(_stream)), _node@, _factory.cfg())),
            final(self).wf(), final(self).ready(_node@), final(self).kids() == old(self).kids(),
            forall|s: St, c: Cfg| #[trigger] final(self).b(s, _node@, c) == old(self).b(s, _node@, c),
            forall|s: St, c: Cfg| #[trigger] final(self).x(s, _node@, c) == old(self).x(s, _node@, c),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn print_node(&mut self, _printer: &mut PrettyPrinter, _stream: &mut dyn Write, _factory: &dyn NodePrinterFactory<Value>, _node: &Value)
        requires pwf(*old(_printer)), old(self).wf(), old(self).ready(_node@),
        ensures did(old(_stream), *final(_printer), final(_stream), old(self).b(st(*old(_printer), old(_stream)), _node@, _factory.cfg())),
            final(self).wf(), final(self).kids() == old(self).kids(),
            forall|s: St, c: Cfg| #[trigger] final(self).x(s, _node@, c) == old(self).x(s, _node@, c),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn on_exit(&mut self, _printer: &mut PrettyPrinter, _stream: &mut dyn Write, _factory: &dyn NodePrinterFactory<Value>, _node: &Value)
        requires pwf(*old(_printer)), old(self).wf(),
        ensures did(old(_stream), *final(_printer), final(_stream), old(self).x(st(*old(_printer), old(_stream)), _node@, _factory.cfg())),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn visit_children(&mut self) -> (r: bool)
        ensures r == old(self).kids(), final(self).wf() == old(self).wf(), forall|s: St, n: JV, c: Cfg| #[trigger] final(self).x(s, n, c) == old(self).x(s, n, c),
    { unimplemented!() }
}
pub open spec fn prints(r: VxPrinter, n: JV, c: Cfg) -> bool {
    r.wf() && r.start() && r.kids() == !n_known(n, c) && (forall|s: St| #[trigger] r.e(s, n, c) == n_entry(s, n, c)) && (forall|s: St| #[trigger] r.b(s, n, c) == n_body(s, n, c)) && (forall|s: St| #[trigger] r.x(s, n, c) == n_exit(s, n, c))
}
pub trait NodePrinterFactory<A: View<V = JV>> {
    spec fn cfg(&self) -> Cfg;
    fn printer_for(&self, node: &A) -> (r: Box<VxPrinter>) ensures prints(*r, node@, self.cfg());
}
// ---- pretty_print_visitor.rs ----
//@item mutagenyx_lib/src/pretty_print_visitor.rs PrettyPrintVisitor %% Box<dyn NodePrinter<AST>> ==> Box<VxPrinter> %% <'a, AST> ==> <'a> %% <AST> ==> <Value>
impl<'a> PrettyPrintVisitor<'a> {
    pub closed spec fn stack(self) -> Seq<Box<VxPrinter>> { self.stack@ }
    pub closed spec fn c(self) -> Cfg { self.node_printer_factory.cfg() }
    pub closed spec fn st(self) -> St { st(*self.pretty_printer, self.out_stream) }
    pub closed spec fn good(self) -> bool { self.out_stream.good() }
    pub closed spec fn pwf(self) -> bool { pwf(*self.pretty_printer) }
    pub open spec fn top(self) -> VxPrinter { *self.stack().last() }
    // the same visitor, its printers but the last k as they were, after printing that leaves state s
    #[verifier::prophetic]
    pub closed spec fn to(self, v: PrettyPrintVisitor<'a>, s: St) -> bool {
        self.good() == v.good() && v.pwf() && (self.good() ==> v.st() == s) && v.node_printer_factory == self.node_printer_factory
            && *final(v.pretty_printer) == *final(self.pretty_printer) && final(v.out_stream).text() == final(self.out_stream).text() && final(v.out_stream).good() == final(self.out_stream).good()
    }
//@fn mutagenyx_lib/src/pretty_print_visitor.rs PrettyPrintVisitor::new props=C24,C25
//@ret r
//@spec
    ensures r.stack().len() == 0, *r.pretty_printer == *old(printer), *final(r.pretty_printer) == *final(printer), r.node_printer_factory == factory, // [C24,C25]
        r.out_stream.text() == old(stream).text(), r.out_stream.good() == old(stream).good(), // [C24,C25]
        final(r.out_stream).text() == final(stream).text(), final(r.out_stream).good() == final(stream).good(), // [C24,C25]
//@subst PrettyPrintVisitor<'a, AST> ==> PrettyPrintVisitor<'a>
//@subst <AST> ==> <Value>
//@end
//@fn mutagenyx_lib/src/pretty_print_visitor.rs Visitor@PrettyPrintVisitor::on_enter props=C24,C25
//@spec
    requires old(self).pwf(),
    ensures old(self).to(*final(self), n_entry(old(self).st(), node@, old(self).c())), // [C24,C25]
        final(self).stack().len() == old(self).stack().len() + 1, forall|i: int| 0 <= i < old(self).stack().len() ==> #[trigger] final(self).stack()[i] == old(self).stack()[i],
        entered(final(self).top(), node@, old(self).c()),
//@subst &AST ==> &Value
//@subst &N ==> &Value
//@end
//@fn mutagenyx_lib/src/pretty_print_visitor.rs Visitor@PrettyPrintVisitor::have_permission_to_visit props=C24,C25 default=mutagenyx_lib/src/visitor.rs:Visitor::have_permission_to_visit
//@ret r
//@spec
    ensures r, // [C24,C25]
//@subst &AST ==> &Value
//@subst &N ==> &Value
//@end
//@fn mutagenyx_lib/src/pretty_print_visitor.rs Visitor@PrettyPrintVisitor::visit props=C24,C25 default=mutagenyx_lib/src/visitor.rs:Visitor::visit
//@ret r
//@spec
    requires old(self).pwf(), old(self).stack().len() > 0, entered(old(self).top(), node@, old(self).c()),
    ensures !r, old(self).to(*final(self), n_body(old(self).st(), node@, old(self).c())), // [C24,C25]
        final(self).stack().len() == old(self).stack().len(), forall|i: int| 0 <= i < old(self).stack().len() - 1 ==> #[trigger] final(self).stack()[i] == old(self).stack()[i],
        printed(final(self).top(), node@, old(self).c()),
//@subst &AST ==> &Value
//@subst &N ==> &Value
//@end
//@fn mutagenyx_lib/src/pretty_print_visitor.rs Visitor@PrettyPrintVisitor::visit_children props=C24,C25 default=mutagenyx_lib/src/visitor.rs:Visitor::visit_children
//@ret r
//@spec
    requires old(self).pwf(), old(self).stack().len() > 0, printed(old(self).top(), _node@, old(self).c()),
    ensures r == !n_known(_node@, old(self).c()), old(self).to(*final(self), old(self).st()), // [C24,C25]
        final(self).stack().len() == old(self).stack().len(), forall|i: int| 0 <= i < old(self).stack().len() - 1 ==> #[trigger] final(self).stack()[i] == old(self).stack()[i],
        leaves(final(self).top(), _node@, old(self).c()),
//@subst &AST ==> &Value
//@subst &N ==> &Value
//@end
//@fn mutagenyx_lib/src/pretty_print_visitor.rs Visitor@PrettyPrintVisitor::on_start_visit_children props=C24,C25 default=mutagenyx_lib/src/visitor.rs:Visitor::on_start_visit_children
//@spec
    requires old(self).pwf(),
    ensures old(self).to(*final(self), old(self).st()), final(self).stack() == old(self).stack(), // [C24,C25]
//@subst &AST ==> &Value
//@subst &N ==> &Value
//@end
//@fn mutagenyx_lib/src/pretty_print_visitor.rs Visitor@PrettyPrintVisitor::on_end_visit_children props=C24,C25 default=mutagenyx_lib/src/visitor.rs:Visitor::on_end_visit_children
//@spec
    requires old(self).pwf(),
    ensures old(self).to(*final(self), old(self).st()), final(self).stack() == old(self).stack(), // [C24,C25]
//@subst &AST ==> &Value
//@subst &N ==> &Value
//@end
//@fn mutagenyx_lib/src/pretty_print_visitor.rs Visitor@PrettyPrintVisitor::on_exit props=C24,C25
//@spec
    requires old(self).pwf(), old(self).stack().len() > 0, leaves(old(self).top(), node@, old(self).c()),
    ensures old(self).to(*final(self), n_exit(old(self).st(), node@, old(self).c())), // [C24,C25]
        final(self).stack() == old(self).stack().drop_last(), // [C24,C25]
//@subst &AST ==> &Value
//@subst &N ==> &Value
//@end
}
// where the printer of node n stands: after entering it, after printing it, and up to leaving it
pub open spec fn leaves(r: VxPrinter, n: JV, c: Cfg) -> bool { r.wf() && forall|s: St| #[trigger] r.x(s, n, c) == n_exit(s, n, c) }
pub open spec fn printed(r: VxPrinter, n: JV, c: Cfg) -> bool { leaves(r, n, c) && r.kids() == !n_known(n, c) }
pub open spec fn entered(r: VxPrinter, n: JV, c: Cfg) -> bool { printed(r, n, c) && r.ready(n) && forall|s: St| #[trigger] r.b(s, n, c) == n_body(s, n, c) }
// ---- ast.rs and node_printer_helpers.rs ----
pub struct ASTTraverser {}
impl ASTTraverser {
//@fn mutagenyx_lib/src/ast.rs ASTTraverser::traverse props=C24,C25 loops=1 attr=loop_isolation(false)
//@ret r
//@spec
    requires old(visitor).pwf(),
    ensures !r, final(visitor).stack() == old(visitor).stack(), old(visitor).to(*final(visitor), walk(old(visitor).st(), tree_node@, old(visitor).c())), // [C24,C25]
    decreases tree_node@,
//@subst traverse<N, A: SimpleAST<N> + ?Sized, V: Visitor<N> + ?Sized> ==> traverse
//@subst tree_node: &A ==> tree_node: &Value
//@subst visitor: &mut V ==> visitor: &mut PrettyPrintVisitor<'_>
//@entry
        let ghost v0 = *visitor;
        let ghost n = tree_node@;
        let ghost c = v0.c();
//@loop 0
                invariant visitor.pwf(), vx_it0.seq().len() == nkids(n), visitor.stack().len() == v0.stack().len() + 1, visitor.stack().drop_last() =~= v0.stack(), leaves(visitor.top(), n, c),
                    forall|i: int| 0 <= i < vx_it0.seq().len() ==> (#[trigger] vx_it0.seq()[i])@ == kid(n, i),
                    v0.to(*visitor, walks(n_body(n_entry(v0.st(), n, c), n, c), n, c, vx_it0.index() as int)),
//@loopstart 0
                    proof { lemma_kid_smaller(n, vx_it0.index() as int); }
//@end
}
//@fn mutagenyx_lib/src/node_printer_helpers.rs traverse_sub_node_and_print props=C24,C25
//@spec
    requires pwf(*old(printer)),
    ensures did(old(stream), *final(printer), final(stream), walk(st(*old(printer), old(stream)), node@, factory.cfg())), // [C24,C25]
//@subst <AST: SimpleAST<AST>> ==> 
//@subst &AST ==> &Value
//@subst <AST> ==> <Value>
//@subst PrettyPrintVisitor::<Value>::new ==> PrettyPrintVisitor::new
//@end
/*@LITFNS@*/
/*@LITS@*/
}
fn main() {}
