// ---- json.rs: nodes by identifier ----
impl JMap {
    #[verifier::external_body]
    pub fn vx_entries(&self) -> (r: Vec<(&str, &Value)>)
        ensures r@.len() == okeys(self@.dom()).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).1@ == self@[okeys(self@.dom())[i]],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_entries_mut(&mut self) -> (r: Vec<(&str, &mut Value)>)
        ensures final(self)@.dom() == old(self)@.dom(), r@.len() == okeys(old(self)@.dom()).len(),
            forall|i: int| 0 <= i < r@.len() ==> (*(#[trigger] r@[i]).1)@ == old(self)@[okeys(old(self)@.dom())[i]],
            forall|i: int| 0 <= i < r@.len() ==> #[trigger] final(self)@[okeys(old(self)@.dom())[i]] == (*final(r@[i].1))@,
    { unimplemented!() }
}
impl Value {
//@fn mutagenyx_lib/src/json.rs JSONMutate@Value::get_node_with_id props=C17 loops=2
//@ret r
//@spec
    ensures r is Some <==> occurs(idd(id_maker), self@, id), r is Some ==> r->0@ == found(idd(id_maker), self@, id), // [C17]
    decreases self@,
//@subst vx_it1: self.as_object().unwrap() ==> vx_it1: self.as_object().unwrap().vx_entries()
//@loop 0
            invariant self@ is Arr, vx_it0.seq().len() == nkids(self@), forall|i: int| 0 <= i < nkids(self@) ==> (#[trigger] vx_it0.seq()[i])@ == kid(self@, i),
                idd(id_maker)(self@) != Some(id),
                occurs(idd(id_maker), self@, id) == occurs_from(idd(id_maker), self@, id, vx_it0.index() as int), found(idd(id_maker), self@, id) == found_from(idd(id_maker), self@, id, vx_it0.index() as int),
//@loopstart 0
                proof { lemma_kid_smaller(self@, vx_it0.index() as int); }
//@loop 1
            invariant self@ is Obj, vx_it1.seq().len() == nkids(self@), forall|i: int| 0 <= i < nkids(self@) ==> (#[trigger] vx_it1.seq()[i]).1@ == kid(self@, i),
                idd(id_maker)(self@) != Some(id),
                occurs(idd(id_maker), self@, id) == occurs_from(idd(id_maker), self@, id, vx_it1.index() as int), found(idd(id_maker), self@, id) == found_from(idd(id_maker), self@, id, vx_it1.index() as int),
//@loopstart 1
                proof { lemma_kid_smaller(self@, vx_it1.index() as int); }
//@end
//@fn mutagenyx_lib/src/json.rs JSONMutate@Value::get_node_with_id_mut props=C17 loops=2 ownvec0 ownvec1 attr=loop_isolation(false)
//@ret r
//@spec
    ensures r is Some <==> occurs(idd(id_maker), old(self)@, id), r is None ==> final(self)@ == old(self)@,
        r is Some ==> (*(r->0))@ == found(idd(id_maker), old(self)@, id) && final(self)@ == put(idd(id_maker), old(self)@, id, (*final(r->0))@), // [C17]
    decreases old(self)@,
//@subst = self.as_array_mut().unwrap() ==> = vx_vec_iter_mut(self.as_array_mut().unwrap())
//@subst = self.as_object_mut().unwrap() ==> = self.as_object_mut().unwrap().vx_entries_mut()
//@entry
        let ghost t = self@; let ghost f = idd(id_maker);
//@loop 0
            invariant f == idd(id_maker), t is Arr, vx_c0.len() == nkids(t), vx_k0 + vx_v0@.len() == vx_c0.len(), vx_v0@ == vx_c0.skip(vx_k0),
                forall|i: int| 0 <= i < nkids(t) ==> (*(#[trigger] vx_c0[i]))@ == kid(t, i),
                0 <= vx_k0, forall|i: int| 0 <= i < vx_k0 ==> (*final((#[trigger] vx_c0[i])))@ == kid(t, i),
                f(t) != Some(id), occurs(f, t, id) == occurs_from(f, t, id, vx_k0), found(f, t, id) == found_from(f, t, id, vx_k0),
                forall|x: JV| #[trigger] put(f, t, id, x) == put_from(f, t, id, x, vx_k0),
            decreases vx_v0@.len(),
//@loopstart 0
                let ghost i = (vx_k0 - 1) as int;
                proof { lemma_kid_smaller(t, i); assert(vx_s0[0] == vx_c0[i]); assert(vx_v0@ =~= vx_c0.skip(vx_k0)); }
//@loop 1
            invariant f == idd(id_maker), t is Obj, vx_c1.len() == nkids(t), vx_k1 + vx_v1@.len() == vx_c1.len(), vx_v1@ == vx_c1.skip(vx_k1),
                forall|i: int| 0 <= i < nkids(t) ==> (*(#[trigger] vx_c1[i]).1)@ == kid(t, i),
                0 <= vx_k1, forall|i: int| 0 <= i < vx_k1 ==> (*final((#[trigger] vx_c1[i]).1))@ == kid(t, i),
                f(t) != Some(id), occurs(f, t, id) == occurs_from(f, t, id, vx_k1), found(f, t, id) == found_from(f, t, id, vx_k1),
                forall|x: JV| #[trigger] put(f, t, id, x) == put_from(f, t, id, x, vx_k1),
            decreases vx_v1@.len(),
//@loopstart 1
                let ghost i = (vx_k1 - 1) as int;
                proof { lemma_kid_smaller(t, i); assert(vx_s1[0] == vx_c1[i]); assert(vx_v1@ =~= vx_c1.skip(vx_k1)); }
//@before Some 1
                    proof {
                        let x = (*final(sub_node))@;
                        assert(has_resolved(vx_v0));
                        assert forall|j: int| i < j < nkids(t) implies (*final((#[trigger] vx_c0[j])))@ == kid(t, j) by {
                            assert(vx_v0@[j - i - 1] == vx_c0[j]); assert(has_resolved(vx_v0@[j - i - 1]));  }
                        assert forall|w: Seq<Value>| w.len() == nkids(t) && (forall|j: int| 0 <= j < nkids(t) ==> #[trigger] w[j] == *final(vx_c0[j])) implies JV::Arr(#[trigger] jvs(w)) == put(f, t, id, x) by {
                            let y = JV::Arr(jvs(w));
                            assert forall|j: int| 0 <= j < nkids(t) && j != i implies #[trigger] kid(y, j) == kid(t, j) by { let e = vx_c0[j]; assert(w[j] == *final(e)); }
                            assert(w[i] == *final(vx_c0[i]));
                            lemma_shape_upd(t, y, i);
                        }
                    }
//@before Some 2
                    proof {
                        let x = (*final(sub_node))@;
                        assert(has_resolved(vx_v1));
                        assert forall|j: int| i < j < nkids(t) implies (*final((#[trigger] vx_c1[j]).1))@ == kid(t, j) by {
                            assert(vx_v1@[j - i - 1] == vx_c1[j]); assert(has_resolved(vx_v1@[j - i - 1])); assert(has_resolved(vx_v1@[j - i - 1].1)); }
                        assert forall|m: Map<Seq<char>, JV>| #[trigger] m.dom() == t->Obj_0.dom() && (forall|j: int| 0 <= j < nkids(t) ==> #[trigger] m[okeys(m.dom())[j]] == (*final(vx_c1[j].1))@) implies JV::Obj(m) == put(f, t, id, x) by {
                            let y = JV::Obj(m);
                            assert forall|j: int| 0 <= j < nkids(t) && j != i implies #[trigger] kid(y, j) == kid(t, j) by { let e = vx_c1[j]; assert(m[okeys(m.dom())[j]] == (*final(e.1))@); }
                            assert(m[okeys(m.dom())[i]] == (*final(vx_c1[i].1))@);
                            lemma_shape_upd(t, y, i);
                        }
                    }
//@afterloop 0
            proof {
                assert forall|w: Seq<Value>| w.len() == nkids(t) && (forall|j: int| 0 <= j < nkids(t) ==> #[trigger] w[j] == *final(vx_c0[j])) implies JV::Arr(#[trigger] jvs(w)) == t by {
                    let y = JV::Arr(jvs(w));
                    assert forall|j: int| 0 <= j < nkids(t) implies #[trigger] kid(y, j) == kid(t, j) by { let e = vx_c0[j]; assert(w[j] == *final(e)); }
                    lemma_shape_eq(t, y);
                }
            }
//@afterloop 1
            proof {
                assert forall|m: Map<Seq<char>, JV>| #[trigger] m.dom() == t->Obj_0.dom() && (forall|j: int| 0 <= j < nkids(t) ==> #[trigger] m[okeys(m.dom())[j]] == (*final(vx_c1[j].1))@) implies JV::Obj(m) == t by {
                    let y = JV::Obj(m);
                    assert forall|j: int| 0 <= j < nkids(t) implies #[trigger] kid(y, j) == kid(t, j) by { let e = vx_c1[j]; assert(m[okeys(m.dom())[j]] == (*final(e.1))@); }
                    lemma_shape_eq(t, y);
                }
            }
//@end
}
