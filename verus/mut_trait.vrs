// The contract of the Mutator trait (mutagenyx_lib/src/mutator.rs); every implementation is checked against it.
pub trait Mutator<N: View<V = JV>> {
    // representation invariant, algorithm and current comment of the mutator
    spec fn mwf(&self) -> bool;
    spec fn typ(&self) -> MutationType;
    spec fn comment(&self) -> Option<N>;
    fn is_mutable_node(&mut self, node: &N, rand: &mut Pcg64) -> (r: bool)
        requires old(self).mwf(),
        ensures
            r ==> m_mutable(old(self).typ(), node@), // [C10,C08]
            m_mutable(old(self).typ(), node@) ==> r, // [C10]
            final(self).mwf(), final(self).typ() == old(self).typ(), final(self).comment() == old(self).comment(),
            *final(rand) == *old(rand), // [C02]
    ;
    fn mutate(&mut self, node: &mut N, rand: &mut Pcg64) -> (r: Result<MutatorResult, MutagenyxError>)
        requires old(self).mwf(), m_mutable(old(self).typ(), old(node)@),
        ensures
            m_sane(old(self).typ(), old(node)@) ==> r is Ok, // [C08]
            r is Ok ==> m_rel(old(self).typ(), old(node)@, final(node)@, r->Ok_0.mutated_node_id), // [C03,C04,C05,C06,C07]
            r is Ok ==> r->Ok_0.mutation_type == Some(old(self).typ()), // [C09]
            final(self).mwf(), final(self).typ() == old(self).typ(),
            r is Ok ==> final(self).comment() is Some && is_comment(final(self).comment()->0@), // [C17]
    ;
    fn implements(&self) -> (r: MutationType)
        ensures r == self.typ(), // [C09]
    ;
    fn get_comment_node(&self) -> (r: Option<N>)
        ensures r is Some <==> self.comment() is Some, r is Some ==> r->0@ == self.comment()->0@, // [C17]
    ;
}
