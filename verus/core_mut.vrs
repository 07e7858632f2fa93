pub type NodePathMap = PathMap;
global size_of usize == 8;
// the algorithms, left abstract here: units sol and vy prove that every implementation meets the Mutator contract below
pub type MT = MutationType;
pub uninterp spec fn m_mutable(t: MT, v: JV) -> bool;
pub uninterp spec fn m_sane(t: MT, v: JV) -> bool;
pub uninterp spec fn m_rel(t: MT, a: JV, b: JV, id: Option<u64>) -> bool;
pub uninterp spec fn is_comment(v: JV) -> bool;
impl Clone for MutatorResult {
    #[verifier::external_body]
    fn clone(&self) -> (r: MutatorResult) ensures r == *self { unimplemented!() }
}
// ---- HashMap<MutationType, V> ----
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct MtMap<V> { _p: std::marker::PhantomData<V> }
impl<V> View for MtMap<V> { type V = Map<MT, V>; uninterp spec fn view(&self) -> Map<MT, V>; }
impl<V> MtMap<V> {
    #[verifier::external_body]
    pub fn new() -> (r: MtMap<V>) ensures r@ == Map::<MT, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &MT) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &MT) -> (r: Option<&mut V>)
        ensures r is Some <==> old(self)@.dom().contains(*k), r is None ==> final(self)@ == old(self)@,
            r is Some ==> *(r->0) == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(r->0)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: MT, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    // all entries once, in an arbitrary order
    #[verifier::external_body]
    pub fn vx_iter_mut(&mut self) -> (r: Vec<(&MT, &mut V)>)
        ensures
            final(self)@.dom() == old(self)@.dom(),
            forall|i: int| 0 <= i < r@.len() ==> old(self)@.dom().contains(*(#[trigger] r@[i]).0) && old(self)@[*r@[i].0] == *r@[i].1,
            forall|i: int| 0 <= i < r@.len() ==> final(self)@[*(#[trigger] r@[i]).0] == *final(r@[i].1),
            forall|k: MT| #[trigger] old(self)@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]).0 == k,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> *(#[trigger] r@[i]).0 != *(#[trigger] r@[j]).0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_vec(self) -> (r: Vec<(MT, V)>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> self@.dom().contains((#[trigger] r@[i]).0) && self@[r@[i].0] == r@[i].1,
            forall|k: MT| #[trigger] self@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == k,
    { unimplemented!() }
}
// assumption: a tree has fewer than 2^64 nodes, so a count of nodes does not overflow
pub axiom fn ax_count(n: u64) ensures n < u64::MAX;
// ---- HashMap<u64, Vec<u64>> ----
#[verifier::external_body]
pub struct PathMap { _p: u8 }
impl View for PathMap { type V = Map<u64, Seq<u64>>; uninterp spec fn view(&self) -> Map<u64, Seq<u64>>; }
impl PathMap {
    #[verifier::external_body]
    pub fn new() -> (r: PathMap) ensures r@ == Map::<u64, Seq<u64>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: u64, v: Vec<u64>) -> (r: Option<Vec<u64>>) ensures final(self)@ == old(self)@.insert(k, v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &u64) -> (r: Option<&Vec<u64>>) ensures r is Some <==> self@.dom().contains(*k), r is Some ==> r->0@ == self@[*k] { unimplemented!() }
}
