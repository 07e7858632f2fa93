// ---- the Id trait (id.rs), nodes by identifier ----
pub type AST = Value;
pub type IF = spec_fn(JV) -> Option<u64>;
pub trait Id<AST: View<V = JV>> {
    spec fn id(&self, n: JV) -> Option<u64>;
    fn get_id(&self, node: &AST) -> (r: Option<u64>)
        ensures r == self.id(node@),
    ;
}
pub open spec fn idd<A: View<V = JV>>(m: &dyn Id<A>) -> IF { |n: JV| m.id(n) }
// t or a node inside t has the identifier
pub open spec fn occurs(f: IF, t: JV, id: u64) -> bool
    decreases t, nkids(t) + 1
{ f(t) == Some(id) || occurs_from(f, t, id, 0) }
pub open spec fn occurs_from(f: IF, t: JV, id: u64, j: int) -> bool
    decreases t, nkids(t) - j
    via occurs_dec
{ 0 <= j < nkids(t) && (occurs(f, kid(t, j), id) || occurs_from(f, t, id, j + 1)) }
#[via_fn]
proof fn occurs_dec(f: IF, t: JV, id: u64, j: int) { if 0 <= j < nkids(t) { lemma_kid_smaller(t, j); } }
// the first such node in document order
pub open spec fn found(f: IF, t: JV, id: u64) -> JV
    decreases t, nkids(t) + 1
{ if f(t) == Some(id) { t } else { found_from(f, t, id, 0) } }
pub open spec fn found_from(f: IF, t: JV, id: u64, j: int) -> JV
    decreases t, nkids(t) - j
    via found_dec
{ if 0 <= j < nkids(t) { if occurs(f, kid(t, j), id) { found(f, kid(t, j), id) } else { found_from(f, t, id, j + 1) } } else { t } }
#[via_fn]
proof fn found_dec(f: IF, t: JV, id: u64, j: int) { if 0 <= j < nkids(t) { lemma_kid_smaller(t, j); } }
// t with x in place of that node
pub open spec fn put(f: IF, t: JV, id: u64, x: JV) -> JV
    decreases t, nkids(t) + 1
{ if f(t) == Some(id) { x } else { put_from(f, t, id, x, 0) } }
pub open spec fn put_from(f: IF, t: JV, id: u64, x: JV, j: int) -> JV
    decreases t, nkids(t) - j
    via put_dec
{ if 0 <= j < nkids(t) { if occurs(f, kid(t, j), id) { set_kid(t, j, put(f, kid(t, j), id, x)) } else { put_from(f, t, id, x, j + 1) } } else { t } }
#[via_fn]
proof fn put_dec(f: IF, t: JV, id: u64, x: JV, j: int) { if 0 <= j < nkids(t) { lemma_kid_smaller(t, j); } }
pub type NodePath = Vec<u64>;
