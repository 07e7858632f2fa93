// the order on algorithms; sorting gives a sequence that depends only on which elements there are
pub uninterp spec fn sorted_of(m: vstd::multiset::Multiset<MT>) -> Seq<MT>;
pub trait VxSort {
    spec fn elems(&self) -> Seq<MT>;
    fn vx_sort(&mut self)
        ensures final(self).elems().to_multiset() == old(self).elems().to_multiset(), forall|t: MT| #[trigger] final(self).elems().contains(t) == old(self).elems().contains(t), final(self).elems() == sorted_of(old(self).elems().to_multiset());
    // with a comparison of its own: only the elements are known
    fn vx_sort_by(&mut self)
        ensures final(self).elems().to_multiset() == old(self).elems().to_multiset(), forall|t: MT| #[trigger] final(self).elems().contains(t) == old(self).elems().contains(t);
}
impl VxSort for Vec<MT> {
    open spec fn elems(&self) -> Seq<MT> { self@ }
    #[verifier::external_body]
    fn vx_sort(&mut self) { unimplemented!() }
    #[verifier::external_body]
    fn vx_sort_by(&mut self) { unimplemented!() }
}
//@fn mutagenyx_lib/src/mutation.rs get_all_mutation_algorithms props=C09 loops=1
//@ret r
//@spec
    ensures forall|t: MT| #[trigger] r@.contains(t), // [C09]
//@subst vx_it0: map ==> vx_it0: map.vx_into_vec()
//@beforeloop 0
    let ghost m0 = map@;
//@loop 0
        invariant
            forall|t: MT| #[trigger] m0.dom().contains(t),
            forall|k: MT| #[trigger] m0.dom().contains(k) ==> algorithms@.contains(k) || exists|i: int| vx_it0.index() <= i < vx_it0.seq().len() && (#[trigger] vx_it0.seq()[i]).0 == k, // [C09]
//@loopstart 0
        let ghost a1 = algorithms@; let ghost sq = vx_it0.seq(); let ghost j0 = vx_it0.index() as int;
        proof { assert(sq[j0].0 == key); }
//@loopend 0
        proof {
            assert forall|k: MT| #[trigger] m0.dom().contains(k) implies algorithms@.contains(k) || exists|i: int| j0 < i < sq.len() && (#[trigger] sq[i]).0 == k by {
                assert(algorithms@[a1.len() as int] == key);
                if a1.contains(k) { let x = choose|x: int| 0 <= x < a1.len() && a1[x] == k; assert(algorithms@[x] == k); }
                else { let i = choose|i: int| j0 <= i < sq.len() && (#[trigger] sq[i]).0 == k; if i > j0 { assert(sq[i].0 == k); } }
            }
        }
//@afterloop 0
    proof { assert forall|t: MT| #[trigger] algorithms@.contains(t) by { assert(m0.dom().contains(t)); } assert(algorithms.elems() == algorithms@); }
//@end
