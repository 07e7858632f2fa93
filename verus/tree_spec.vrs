// ---- the children of a JSON node ----
// the keys of an object in the order in which serde_json's map visits them (any fixed order that depends on the keys only)
pub uninterp spec fn okeys(d: Set<Seq<char>>) -> Seq<Seq<char>>;
pub axiom fn ax_okeys(d: Set<Seq<char>>)
    ensures
        okeys(d).no_duplicates(), forall|i: int| 0 <= i < okeys(d).len() ==> d.contains(#[trigger] okeys(d)[i]),
        forall|k: Seq<char>| d.contains(k) ==> okeys(d).contains(k);
pub open spec fn nkids(v: JV) -> nat { match v { JV::Arr(s) => s.len(), JV::Obj(m) => okeys(m.dom()).len(), _ => 0 } }
pub open spec fn kid(v: JV, i: int) -> JV { match v { JV::Arr(s) => s[i], JV::Obj(m) => m[okeys(m.dom())[i]], _ => v } }
pub open spec fn set_kid(v: JV, i: int, x: JV) -> JV {
    match v { JV::Arr(s) => JV::Arr(s.update(i, x)), JV::Obj(m) => JV::Obj(m.insert(okeys(m.dom())[i], x)), _ => v }
}
pub proof fn lemma_kid_smaller(v: JV, i: int)
    requires 0 <= i < nkids(v),
    ensures decreases_to!(v => kid(v, i)),
{
    match v {
        JV::Arr(s) => { assert(decreases_to!(s => s[i])); }
        JV::Obj(m) => { ax_okeys(m.dom()); vstd::map::axiom_map_index_decreases(m, okeys(m.dom())[i]); }
        _ => {}
    }
}
pub proof fn lemma_set_kid(v: JV, i: int, x: JV)
    requires 0 <= i < nkids(v),
    ensures nkids(set_kid(v, i, x)) == nkids(v), kid(set_kid(v, i, x), i) == x,
        forall|j: int| 0 <= j < nkids(v) && j != i ==> #[trigger] kid(set_kid(v, i, x), j) == kid(v, j),
        x == kid(v, i) ==> set_kid(v, i, x) == v,
{
    match v {
        JV::Arr(s) => { assert(s.update(i, s[i]) =~= s); }
        JV::Obj(m) => {
            ax_okeys(m.dom());
            let k = okeys(m.dom())[i];
            assert(m.insert(k, x).dom() =~= m.dom());
            assert(m.insert(k, m[k]) =~= m);
        }
        _ => {}
    }
}
// v with all its children replaced
pub open spec fn kids_of(v: JV) -> Seq<JV> { Seq::new(nkids(v), |i: int| kid(v, i)) }
pub open spec fn same_shape(v: JV, w: JV) -> bool {
    match v {
        JV::Arr(s) => w is Arr && w->Arr_0.len() == s.len(),
        JV::Obj(m) => w is Obj && w->Obj_0.dom() == m.dom(),
        _ => w == v,
    }
}
pub proof fn lemma_shape_eq(t: JV, y: JV)
    requires same_shape(t, y), forall|j: int| 0 <= j < nkids(t) ==> #[trigger] kid(y, j) == kid(t, j),
    ensures y == t,
{
    match t {
        JV::Arr(s) => { assert forall|j: int| 0 <= j < s.len() implies s[j] == y->Arr_0[j] by { assert(kid(y, j) == kid(t, j)); } assert(y->Arr_0 =~= s); }
        JV::Obj(m) => {
            ax_okeys(m.dom());
            assert forall|k: Seq<char>| m.dom().contains(k) implies m[k] == y->Obj_0[k] by {
                assert(okeys(m.dom()).contains(k));
                let j = choose|j: int| 0 <= j < okeys(m.dom()).len() && okeys(m.dom())[j] == k;
                assert(kid(y, j) == kid(t, j));
            }
            assert(y->Obj_0 =~= m);
        }
        _ => {}
    }
}
pub proof fn lemma_shape_upd(t: JV, y: JV, i: int)
    requires same_shape(t, y), 0 <= i < nkids(t), forall|j: int| 0 <= j < nkids(t) && j != i ==> #[trigger] kid(y, j) == kid(t, j),
    ensures y == set_kid(t, i, kid(y, i)),
{
    let z = set_kid(t, i, kid(y, i));
    lemma_set_kid(t, i, kid(y, i));
    assert(same_shape(z, y)) by { if t is Obj { ax_okeys(t->Obj_0.dom()); assert(z->Obj_0.dom() =~= t->Obj_0.dom()); } }
    assert forall|j: int| 0 <= j < nkids(z) implies #[trigger] kid(y, j) == kid(z, j) by { if j != i { assert(kid(z, j) == kid(t, j)); } }
    lemma_shape_eq(z, y);
}

impl JMap {
    #[verifier::external_body]
    pub fn vx_values(&self) -> (r: Vec<&Value>)
        ensures r@.len() == okeys(self@.dom()).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self@[okeys(self@.dom())[i]],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_values_mut(&mut self) -> (r: Vec<&mut Value>)
        ensures final(self)@.dom() == old(self)@.dom(), r@.len() == okeys(old(self)@.dom()).len(),
            forall|i: int| 0 <= i < r@.len() ==> (*(#[trigger] r@[i]))@ == old(self)@[okeys(old(self)@.dom())[i]],
            forall|i: int| 0 <= i < r@.len() ==> #[trigger] final(self)@[okeys(old(self)@.dom())[i]] == (*final(r@[i]))@,
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_vec_iter_mut<T>(v: &mut Vec<T>) -> (r: Vec<&mut T>)
    ensures r@.len() == old(v)@.len(), final(v)@.len() == old(v)@.len(),
        forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == old(v)@[i],
        forall|i: int| 0 <= i < r@.len() ==> #[trigger] final(v)@[i] == *final(r@[i]),
{ unimplemented!() }
