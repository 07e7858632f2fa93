// ---- the contract of the Visitor and VisitorMut traits (visitor.rs): a visitor is a transition system on its own state ----
pub trait Visitor<N: View<V = JV>>: Sized {
    spec fn vinv(&self) -> bool;
    #[verifier::prophetic]
    spec fn s_enter(a: Self, n: JV, b: Self) -> bool;
    spec fn s_permits(a: Self, n: JV) -> bool;
    #[verifier::prophetic]
    spec fn s_visit(a: Self, n: JV, stop: bool, b: Self) -> bool;
    #[verifier::prophetic]
    spec fn s_children(a: Self, n: JV, go: bool, b: Self) -> bool;
    #[verifier::prophetic]
    spec fn s_start(a: Self, n: JV, b: Self) -> bool;
    #[verifier::prophetic]
    spec fn s_end(a: Self, n: JV, b: Self) -> bool;
    #[verifier::prophetic]
    spec fn s_exit(a: Self, n: JV, b: Self) -> bool;
    fn on_enter(&mut self, node: &N)
        requires old(self).vinv(),
        ensures final(self).vinv(), Self::s_enter(*old(self), node@, *final(self)),
    ;
    fn have_permission_to_visit(&self, node: &N) -> (r: bool)
        requires self.vinv(),
        ensures r == Self::s_permits(*self, node@),
    ;
    fn visit(&mut self, node: &N) -> (r: bool)
        requires old(self).vinv(),
        ensures final(self).vinv(), Self::s_visit(*old(self), node@, r, *final(self)), // [C01,C02,C17]
    ;
    fn visit_children(&mut self, node: &N) -> (r: bool)
        requires old(self).vinv(),
        ensures final(self).vinv(), Self::s_children(*old(self), node@, r, *final(self)), // [C01,C02,C17]
    ;
    fn on_start_visit_children(&mut self, node: &N)
        requires old(self).vinv(),
        ensures final(self).vinv(), Self::s_start(*old(self), node@, *final(self)), // [C01,C02,C17]
    ;
    fn on_end_visit_children(&mut self, node: &N)
        requires old(self).vinv(),
        ensures final(self).vinv(), Self::s_end(*old(self), node@, *final(self)), // [C01,C02,C17]
    ;
    fn on_exit(&mut self, node: &N)
        requires old(self).vinv(),
        ensures final(self).vinv(), Self::s_exit(*old(self), node@, *final(self)),
    ;
}
pub open spec fn vx_tr<V>(m: V) -> bool { true }
// the traversal protocol: enter, then (with permission) visit, then (unless stopped, and if asked) start, every child in order, end; then exit
#[verifier::prophetic]
pub open spec fn trav<V: Visitor<Value>>(s: V, t: JV, stop: bool, s2: V) -> bool
    decreases t, nkids(t) + 1
{
    exists|a: V, b: V| #[trigger] V::s_enter(s, t, a) && trav_in(a, t, stop, b) && #[trigger] V::s_exit(b, t, s2)
}
#[verifier::prophetic]
pub open spec fn trav_in<V: Visitor<Value>>(a: V, t: JV, stop: bool, b: V) -> bool
    decreases t, nkids(t) + 1, 0int
{
    if !V::s_permits(a, t) { !stop && b == a }
    else {
        ||| stop && V::s_visit(a, t, true, b)
        ||| exists|c: V| #[trigger] V::s_visit(a, t, false, c) && V::s_children(c, t, false, b) && !stop
        ||| exists|c: V, d: V, e: V, f: V| #[trigger] V::s_visit(a, t, false, c) && #[trigger] V::s_children(c, t, true, d) && #[trigger] V::s_start(d, t, e) && travs(e, t, 0, stop, f) && #[trigger] V::s_end(f, t, b)
    }
}
// the children from number i on
#[verifier::prophetic]
pub open spec fn travs<V: Visitor<Value>>(s: V, t: JV, i: int, stop: bool, s2: V) -> bool
    decreases t, nkids(t) - i
    via travs_dec::<V>
{
    if i < 0 || i >= nkids(t) { !stop && s2 == s }
    else {
        ||| stop && trav(s, kid(t, i), true, s2)
        ||| exists|m: V| #[trigger] vx_tr(m) && trav(s, kid(t, i), false, m) && travs(m, t, i + 1, stop, s2)
    }
}
#[via_fn]
proof fn travs_dec<V: Visitor<Value>>(s: V, t: JV, i: int, stop: bool, s2: V)
{
    if 0 <= i < nkids(t) { lemma_kid_smaller(t, i); }
}
pub proof fn lemma_travs_step<V: Visitor<Value>>(s: V, t: JV, i: int, m: V, stop: bool, s2: V)
    requires 0 <= i < nkids(t), trav(s, kid(t, i), false, m), travs(m, t, i + 1, stop, s2),
    ensures travs(s, t, i, stop, s2),
{ assert(vx_tr(m)); }
// A modifying visitor may change a node when it stops the traversal there or leaves the node; before that it leaves the node as it is.
pub trait VisitorMut<N: View<V = JV>>: Sized {
    spec fn vinv(&self) -> bool;
    #[verifier::prophetic]
    spec fn s_enter(a: Self, n: JV, b: Self) -> bool;
    spec fn s_permits(a: Self, n: JV) -> bool;
    #[verifier::prophetic]
    spec fn s_visit(a: Self, n: JV, n2: JV, stop: bool, b: Self) -> bool;
    #[verifier::prophetic]
    spec fn s_children(a: Self, n: JV, go: bool, b: Self) -> bool;
    #[verifier::prophetic]
    spec fn s_start(a: Self, n: JV, b: Self) -> bool;
    #[verifier::prophetic]
    spec fn s_end(a: Self, n: JV, b: Self) -> bool;
    #[verifier::prophetic]
    spec fn s_exit(a: Self, n: JV, n2: JV, b: Self) -> bool;
    fn on_enter(&mut self, node: &mut N)
        requires old(self).vinv(),
        ensures final(self).vinv(), Self::s_enter(*old(self), old(node)@, *final(self)),
            final(node)@ == old(node)@, // [C03]
    ;
    fn have_permission_to_visit(&self, node: &N) -> (r: bool)
        requires self.vinv(),
        ensures r == Self::s_permits(*self, node@),
    ;
    fn visit_mut(&mut self, node: &mut N) -> (r: bool)
        requires old(self).vinv(),
        ensures final(self).vinv(), Self::s_visit(*old(self), old(node)@, final(node)@, r, *final(self)), // [C01,C02,C03]
            !r ==> final(node)@ == old(node)@, // [C03]
    ;
    fn visit_children(&mut self, node: &mut N) -> (r: bool)
        requires old(self).vinv(),
        ensures final(self).vinv(), Self::s_children(*old(self), old(node)@, r, *final(self)), // [C01,C02]
            final(node)@ == old(node)@, // [C03]
    ;
    fn on_start_visit_children(&mut self, node: &N)
        requires old(self).vinv(),
        ensures final(self).vinv(), Self::s_start(*old(self), node@, *final(self)), // [C01,C02]
    ;
    fn on_end_visit_children(&mut self, node: &N)
        requires old(self).vinv(),
        ensures final(self).vinv(), Self::s_end(*old(self), node@, *final(self)), // [C01,C02]
    ;
    fn on_exit(&mut self, node: &mut N)
        requires old(self).vinv(),
        ensures final(self).vinv(), Self::s_exit(*old(self), old(node)@, final(node)@, *final(self)), // [C03]
    ;
}
#[verifier::prophetic]
pub open spec fn travm<V: VisitorMut<Value>>(s: V, t: JV, t2: JV, stop: bool, s2: V) -> bool
    decreases t, nkids(t) + 1
{
    exists|a: V, y: JV, b: V| #[trigger] V::s_enter(s, t, a) && travm_in(a, t, y, stop, b) && #[trigger] V::s_exit(b, y, t2, s2)
}
#[verifier::prophetic]
pub open spec fn travm_in<V: VisitorMut<Value>>(a: V, t: JV, y: JV, stop: bool, b: V) -> bool
    decreases t, nkids(t) + 1, 0int
{
    if !V::s_permits(a, t) { !stop && b == a && y == t }
    else {
        ||| stop && V::s_visit(a, t, y, true, b)
        ||| exists|c: V| #[trigger] V::s_visit(a, t, t, false, c) && V::s_children(c, t, false, b) && !stop && y == t
        ||| exists|c: V, d: V, e: V, f: V| #[trigger] V::s_visit(a, t, t, false, c) && #[trigger] V::s_children(c, t, true, d) && #[trigger] V::s_start(d, t, e)
            && same_shape(t, y) && travms(e, t, y, 0, stop, f) && #[trigger] V::s_end(f, y, b)
    }
}
#[verifier::prophetic]
pub open spec fn travms<V: VisitorMut<Value>>(s: V, t: JV, y: JV, i: int, stop: bool, s2: V) -> bool
    decreases t, nkids(t) - i
    via travms_dec::<V>
{
    if i < 0 || i >= nkids(t) { !stop && s2 == s }
    else {
        ||| stop && travm(s, kid(t, i), kid(y, i), true, s2) && forall|j: int| i < j < nkids(t) ==> #[trigger] kid(y, j) == kid(t, j)
        ||| exists|m: V| #[trigger] vx_tr(m) && travm(s, kid(t, i), kid(y, i), false, m) && travms(m, t, y, i + 1, stop, s2)
    }
}
#[via_fn]
proof fn travms_dec<V: VisitorMut<Value>>(s: V, t: JV, y: JV, i: int, stop: bool, s2: V)
{
    if 0 <= i < nkids(t) { lemma_kid_smaller(t, i); }
}
pub proof fn lemma_travms_step<V: VisitorMut<Value>>(s: V, t: JV, y: JV, i: int, m: V, stop: bool, s2: V)
    requires 0 <= i < nkids(t), travm(s, kid(t, i), kid(y, i), false, m), travms(m, t, y, i + 1, stop, s2),
    ensures travms(s, t, y, i, stop, s2),
{ assert(vx_tr(m)); }
pub open spec fn agrees(y: JV, ks: Seq<JV>) -> bool { forall|j: int| 0 <= j < ks.len() ==> #[trigger] kid(y, j) == ks[j] }
