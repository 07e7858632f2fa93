// ---- node_finder.rs, commenter.rs: contracts of the traits ----
pub trait NodeFinder<AST: View<V = JV>> {
    // a statement list (or single-statement body) of n itself holds the node
    spec fn member(&self, n: JV, id: u64, f: IF) -> bool;
    fn node_is_a_direct_member(&self, node: &mut AST, node_id: u64, id_maker: &dyn Id<AST>) -> (r: bool)
        ensures r == self.member(old(node)@, node_id, idd(id_maker)), final(node)@ == old(node)@, // [C17]
    ;
}
pub trait NodeFinderFactory<AST: View<V = JV>> {
    spec fn f_member(&self, n: JV, id: u64, f: IF) -> bool;
    fn node_finder_for(&self, node: &AST) -> (r: Box<dyn NodeFinder<AST>>)
        ensures forall|id: u64, f: IF| #[trigger] r.member(node@, id, f) == self.f_member(node@, id, f), // [C17]
    ;
}
pub trait Commenter<AST: View<V = JV>> {
    // n with the comment placed
    spec fn after(&self, n: JV, id: u64, c: JV, f: IF) -> JV;
    fn insert_comment(&self, node: &mut AST, node_id: u64, comment_node: AST, id_maker: &dyn Id<AST>)
        ensures final(node)@ == self.after(old(node)@, node_id, comment_node@, idd(id_maker)), // [C17]
    ;
}
pub trait CommenterFactory<AST: View<V = JV>> {
    spec fn f_after(&self, n: JV, id: u64, c: JV, f: IF) -> JV;
    fn commenter_for(&self, node: &AST) -> (r: Box<dyn Commenter<AST>>)
        ensures forall|id: u64, c: JV, f: IF| #[trigger] r.after(node@, id, c, f) == self.f_after(node@, id, c, f), // [C17]
    ;
}
// the first element of s that holds the node; s.len() when none does
pub open spec fn holder(f: IF, s: Seq<JV>, id: u64, i: int) -> int
    decreases s.len() - i
{ if i >= s.len() { s.len() as int } else if occurs(f, s[i], id) { i } else { holder(f, s, id, i + 1) } }
pub proof fn lemma_holder(f: IF, s: Seq<JV>, id: u64, i: int)
    requires 0 <= i <= s.len(),
    ensures i <= holder(f, s, id, i) <= s.len(), holder(f, s, id, i) < s.len() ==> occurs(f, s[holder(f, s, id, i)], id),
        forall|j: int| i <= j < holder(f, s, id, i) ==> !occurs(f, #[trigger] s[j], id),
    decreases s.len() - i,
{ if i < s.len() && !occurs(f, s[i], id) { lemma_holder(f, s, id, i + 1); } }
pub open spec fn holds(f: IF, s: Seq<JV>, id: u64) -> bool { exists|i: int| 0 <= i < s.len() && occurs(f, #[trigger] s[i], id) }
// the comment directly in front of the first element that holds the node
pub open spec fn in_front(f: IF, s: Seq<JV>, id: u64, c: JV) -> Seq<JV> { if holds(f, s, id) { s.insert(holder(f, s, id, 0), c) } else { s } }
//@fn mutagenyx_lib/src/json_finder_helpers.rs found_node_id_in_array props=C17 loops=1
//@ret r
//@spec
    ensures r == holds(idd(id_maker), jvs(old(array)@), node_id), final(array)@ == old(array)@, // [C17]
//@loop 0
        invariant i <= array@.len(), array@ == old(array)@, forall|j: int| 0 <= j < i ==> !occurs(idd(id_maker), #[trigger] jvs(array@)[j], node_id),
        decreases array@.len() - i,
//@loopstart 0
        proof { assert(jvs(array@)[i as int] == array@[i as int]@); }
//@end
//@fn mutagenyx_lib/src/json_comment_helpers.rs inserted_comment_in_array props=C17 loops=1
//@ret r
//@spec
    ensures r == holds(idd(id_maker), jvs(old(array)@), node_id), jvs(final(array)@) == in_front(idd(id_maker), jvs(old(array)@), node_id, comment@), // [C17]
//@entry
    let ghost s = jvs(array@); let ghost f = idd(id_maker);
    proof { lemma_holder(f, s, node_id, 0); }
//@loop 0
        invariant i <= array@.len(), array@ == old(array)@, s == jvs(array@), f == idd(id_maker), forall|j: int| 0 <= j < i ==> !occurs(f, #[trigger] s[j], node_id),
            0 <= holder(f, s, node_id, 0) <= s.len(), holder(f, s, node_id, 0) < s.len() ==> occurs(f, s[holder(f, s, node_id, 0)], node_id),
            forall|j: int| 0 <= j < holder(f, s, node_id, 0) ==> !occurs(f, #[trigger] s[j], node_id),
        decreases array@.len() - i,
//@loopstart 0
        proof { assert(s[i as int] == array@[i as int]@); }
//@end
// ---- json_comment_inserter.rs ----
pub type MF = spec_fn(JV, u64, IF) -> bool;
pub type AF = spec_fn(JV, u64, JV, IF) -> JV;
pub open spec fn mff(x: Box<dyn NodeFinderFactory<Value>>) -> MF { |n: JV, id: u64, f: IF| x.f_member(n, id, f) }
pub open spec fn aff(x: Box<dyn CommenterFactory<Value>>) -> AF { |n: JV, id: u64, c: JV, f: IF| x.f_after(n, id, c, f) }
// t with c placed at the innermost node of path[..=k] that directly holds the last node of the path
pub open spec fn place_from(mf: MF, af: AF, f: IF, t: JV, c: JV, path: Seq<u64>, k: int) -> JV
    decreases k + 1
{
    if k < 0 || k >= path.len() { t }
    else if occurs(f, t, path[k]) && mf(found(f, t, path[k]), path.last(), f) { put(f, t, path[k], af(found(f, t, path[k]), path.last(), c, f)) }
    else { place_from(mf, af, f, t, c, path, k - 1) }
}
pub open spec fn place(mf: MF, af: AF, f: IF, t: JV, c: JV, path: Seq<u64>) -> JV { place_from(mf, af, f, t, c, path, path.len() - 2) }
pub proof fn lemma_put_found(f: IF, t: JV, id: u64)
    ensures occurs(f, t, id) ==> put(f, t, id, found(f, t, id)) == t,
    decreases t, nkids(t) + 1
{ if f(t) != Some(id) && occurs(f, t, id) { lemma_put_found_from(f, t, id, 0); } }
pub proof fn lemma_put_found_from(f: IF, t: JV, id: u64, j: int)
    requires 0 <= j <= nkids(t),
    ensures occurs_from(f, t, id, j) ==> put_from(f, t, id, found_from(f, t, id, j), j) == t,
    decreases t, nkids(t) - j
{
    if j < nkids(t) {
        lemma_kid_smaller(t, j);
        lemma_put_found(f, kid(t, j), id);
        if occurs(f, kid(t, j), id) { lemma_set_kid(t, j, kid(t, j)); } else { lemma_put_found_from(f, t, id, j + 1); }
    }
}
#[verifier::external_body]
pub fn vx_reverse(v: &mut Vec<u64>) ensures final(v)@ == old(v)@.reverse() { v.reverse() }
//@item mutagenyx_lib/src/json_comment_inserter.rs JSONCommentInserter
impl JSONCommentInserter {
    pub closed spec fn mf(self) -> MF { mff(self.finder_factory) }
    pub closed spec fn af(self) -> AF { aff(self.commenter_factory) }
    pub closed spec fn idf(self) -> IF { |n: JV| self.id_maker.id(n) }
//@fn mutagenyx_lib/src/json_comment_inserter.rs JSONCommentInserter::new props=C17
//@ret r
//@spec
    ensures r.mf() == mff(finder), r.af() == aff(commenter), r.idf() == (|n: JV| id_maker.id(n)),
//@end
//@fn mutagenyx_lib/src/json_comment_inserter.rs JSONCommentInserter::insert_comment_by_path props=C17 loops=1 boxref
//@spec
    ensures final(ast)@ == place(self.mf(), self.af(), self.idf(), old(ast)@, comment_node@, node_path@), // [C17]
//@subst reversed_path.reverse() ==> vx_reverse(&mut reversed_path)
//@beforeloop 0
        let ghost mf = self.mf(); let ghost af = self.af(); let ghost f = self.idf(); let ghost t = ast@; let ghost c = comment_node@; let ghost p = node_path@; let ghost n = p.len() as int;
        proof { assert(idd(id_maker_ref) =~= f); }
//@loop 0
            invariant 1 <= i <= reversed_path@.len(), n == p.len(), reversed_path@ == p.reverse(), p.len() > 0, ast@ == t, comment_node@ == c, t == old(ast)@, p == node_path@, f == self.idf(),
                mf == self.mf(), af == self.af(), idd(id_maker_ref) == f,
                place(mf, af, f, t, c, p) == place_from(mf, af, f, t, c, p, n - 1 - i),
            decreases reversed_path@.len() - i,
//@loopstart 0
            proof { assert(reversed_path@[i as int] == p[n - 1 - i]); assert(reversed_path@[0] == p.last()); lemma_put_found(f, t, p[n - 1 - i]); }
//@end
}
