// ---- preferences.rs ----
//@item mutagenyx_lib/src/preferences.rs PreferenceValue %% HashMap<String, PreferenceValue> ==> StrMap<PreferenceValue>
//@item mutagenyx_lib/src/preferences.rs Preferences %% HashMap<String, PreferenceValue> ==> StrMap<PreferenceValue> %% map: ==> pub map:
impl Clone for PreferenceValue {
    #[verifier::external_body]
    fn clone(&self) -> (r: PreferenceValue) ensures r == *self { unimplemented!() }
}
impl Clone for Preferences {
    #[verifier::external_body]
    fn clone(&self) -> (r: Preferences) ensures r == *self { unimplemented!() }
}
impl<V> StrMap<V> {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: StrMap<V>) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_refs(&self) -> (r: Vec<(&String, &V)>) ensures refs_of(r@, self@) { unimplemented!() }
}
pub open spec fn refs_of<V>(r: Seq<(&String, &V)>, m: Map<Seq<char>, V>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> m.dom().contains((#[trigger] r[i]).0@) && m[r[i].0@] == *r[i].1
    &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0@ == k
}
pub open spec fn jrefs_of(r: Seq<(&String, &Value)>, m: Map<Seq<char>, JV>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> m.dom().contains((#[trigger] r[i]).0@) && m[r[i].0@] == r[i].1@
    &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0@ == k
}
impl JMap {
    #[verifier::external_body]
    pub fn vx_refs(&self) -> (r: Vec<(&String, &Value)>) ensures jrefs_of(r@, self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: JMap) ensures r@ == Map::<Seq<char>, JV>::empty() { unimplemented!() }
}
impl Value {
    // serde_json: an integer beyond 64 bits is read as the nearest float
    #[verifier::external_body]
    pub fn as_f64(&self) -> (r: Option<f64>)
        ensures r is Some <==> self@ is Num, r is Some && self@->Num_0 is Float ==> fbits(r->0) == self@->Num_0->Float_0 && finite(r->0),
    { unimplemented!() }
}
// the JSON value j says what the preference value p says
pub open spec fn same(p: PreferenceValue, j: JV) -> bool
    decreases j,
{
    match p {
        PreferenceValue::Int(i) => j == JV::Num(NumV::Int(i as int)),
        PreferenceValue::Float(f) => finite(f) && j == JV::Num(NumV::Float(fbits(f))),
        PreferenceValue::String(s) => j == JV::Str(s@),
        PreferenceValue::Boolean(b) => j == JV::Bool(b),
        PreferenceValue::Null => j == JV::Null,
        PreferenceValue::Array(a) => j is Arr && a@.len() == j->Arr_0.len() && forall|i: int| 0 <= i < a@.len() ==> same(#[trigger] a@[i], j->Arr_0[i]),
        PreferenceValue::Map(m) => j is Obj && m@.dom() == j->Obj_0.dom() && forall|k: Seq<char>| j->Obj_0.dom().contains(k) ==> same(#[trigger] m@[k], j->Obj_0[k]),
    }
}
// every integer fits in 64 bits with sign
pub open spec fn ints_fit(j: JV) -> bool
    decreases j,
{
    match j {
        JV::Num(n) => n is Int ==> i64::MIN <= n->Int_0 <= i64::MAX,
        JV::Arr(a) => forall|i: int| 0 <= i < a.len() ==> ints_fit(#[trigger] a[i]),
        JV::Obj(m) => forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> ints_fit(m[k]),
        _ => true,
    }
}
// every key of every object is plain: without '/' and '~'
pub open spec fn keys_plain(j: JV) -> bool
    decreases j,
{
    match j {
        JV::Arr(a) => forall|i: int| 0 <= i < a.len() ==> keys_plain(#[trigger] a[i]),
        JV::Obj(m) => forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> plain(k) && keys_plain(m[k]),
        _ => true,
    }
}
pub open spec fn map_same(m: Map<Seq<char>, PreferenceValue>, j: JV) -> bool {
    j is Obj && m.dom() == j->Obj_0.dom() && forall|k: Seq<char>| j->Obj_0.dom().contains(k) ==> same(#[trigger] m[k], j->Obj_0[k])
}
pub open spec fn arr_same(a: Seq<PreferenceValue>, j: JV) -> bool {
    j is Arr && a.len() == j->Arr_0.len() && forall|i: int| 0 <= i < a.len() ==> same(#[trigger] a[i], j->Arr_0[i])
}
// nothing but j says the same as p
pub proof fn lemma_same_unique(p: PreferenceValue, a: JV, b: JV) // [C12]
    requires same(p, a), same(p, b),
    ensures a == b, // [C12]
    decreases a,
{
    match p {
        PreferenceValue::Array(s) => {
            assert forall|i: int| 0 <= i < s@.len() implies a->Arr_0[i] == b->Arr_0[i] by { let x = s@[i]; assert(decreases_to!(a->Arr_0 => a->Arr_0[i])); lemma_same_unique(x, a->Arr_0[i], b->Arr_0[i]); }
            assert(a->Arr_0 =~= b->Arr_0);
        }
        PreferenceValue::Map(m) => {
            assert forall|k: Seq<char>| a->Obj_0.dom().contains(k) implies a->Obj_0[k] == b->Obj_0[k] by { let x = m@[k]; vstd::map::axiom_map_index_decreases(a->Obj_0, k); lemma_same_unique(x, a->Obj_0[k], b->Obj_0[k]); }
            assert(a->Obj_0 =~= b->Obj_0);
        }
        _ => {}
    }
}
pub trait VxTryFrom<T>: Sized {
    spec fn tf(t: T, r: Self) -> bool;
    spec fn tok(t: T) -> bool;
    fn vx_try_from(t: T) -> (r: Result<Self, MutagenyxError>)
        ensures r is Ok ==> Self::tf(t, r->Ok_0), Self::tok(t) ==> r is Ok, !Self::tok(t) ==> r is Err;
}
impl VxTryFrom<Value> for PreferenceValue {
    open spec fn tf(t: Value, r: PreferenceValue) -> bool { ints_fit(t@) ==> same(r, t@) }
    open spec fn tok(t: Value) -> bool { true }
//@fn mutagenyx_lib/src/preferences.rs TryFrom<Value>@PreferenceValue::try_from name=vx_try_from props=C12 loops=2 attr=exec_allows_no_decreases_clause
//@ret r
//@subst Result<Self, Self::Error> ==> Result<Self, MutagenyxError>
//@subst HashMap<String, PreferenceValue> ==> StrMap<PreferenceValue>
//@subst vx_it0: m ==> vx_it0: m.vx_refs()
//@loop 0
            invariant
                jrefs_of(vx_it0.seq(), value@->Obj_0), value@ is Obj,
                forall|k: Seq<char>| #[trigger] new_map@.dom().contains(k) <==> exists|j: int| 0 <= j < vx_it0.index() && (#[trigger] vx_it0.seq()[j]).0@ == k,
                ints_fit(value@) ==> forall|k: Seq<char>| #[trigger] new_map@.dom().contains(k) ==> same(new_map@[k], value@->Obj_0[k]),
//@loopstart 0
                let ghost j0 = vx_it0.index() as int; let ghost sq = vx_it0.seq(); let ghost n1 = new_map@;
                proof { assert(sq[j0].0 == key && sq[j0].1 == mvalue); assert(value@->Obj_0.dom().contains(key@)); }
//@loopend 0
                proof {
                    assert forall|k: Seq<char>| #[trigger] new_map@.dom().contains(k) <==> exists|j: int| 0 <= j < j0 + 1 && (#[trigger] sq[j]).0@ == k by {
                        assert(new_map@.dom().contains(k) <==> n1.dom().contains(k) || k == key@);
                        if exists|j: int| 0 <= j < j0 + 1 && (#[trigger] sq[j]).0@ == k { let j = choose|j: int| 0 <= j < j0 + 1 && (#[trigger] sq[j]).0@ == k; if j < j0 { assert(sq[j].0@ == k); } }
                        if k == key@ { assert(sq[j0].0@ == k); }
                        if n1.dom().contains(k) { let j = choose|j: int| 0 <= j < j0 && (#[trigger] sq[j]).0@ == k; assert(sq[j].0@ == k); }
                    }
                }
//@afterloop 0
            proof { assert(new_map@.dom() =~= value@->Obj_0.dom()); }
//@loop 1
            invariant
                value@ is Arr, vx_it1.seq().len() == value@->Arr_0.len(), forall|i: int| 0 <= i < vx_it1.seq().len() ==> (#[trigger] vx_it1.seq()[i])@ == value@->Arr_0[i],
                new_array@.len() == vx_it1.index(), ints_fit(value@) ==> forall|i: int| 0 <= i < vx_it1.index() ==> same(#[trigger] new_array@[i], value@->Arr_0[i]),
//@loopstart 1
                proof { assert(ints_fit(value@) ==> ints_fit(value@->Arr_0[vx_it1.index() as int])); }
//@end
}
// the object built from the first n entries has the values of j at their keys
pub open spec fn part_of(m: Map<Seq<char>, JV>, j: Map<Seq<char>, JV>, e: Seq<(String, PreferenceValue)>, n: int) -> bool {
    &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) <==> exists|i: int| 0 <= i < n && (#[trigger] e[i]).0@ == k
    &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> m[k] == j[k]
}
pub proof fn lemma_part(a: Map<Seq<char>, JV>, j: Map<Seq<char>, JV>, e: Seq<(String, PreferenceValue)>, n: int, b: Map<Seq<char>, JV>)
    requires 0 <= n < e.len(), part_of(a, j, e, n), b == a.insert(e[n].0@, j[e[n].0@]),
    ensures part_of(b, j, e, n + 1),
{
    let kk = e[n].0@;
    assert forall|k: Seq<char>| #[trigger] b.dom().contains(k) <==> exists|i: int| 0 <= i < n + 1 && (#[trigger] e[i]).0@ == k by {
        assert(b.dom().contains(k) <==> a.dom().contains(k) || k == kk);
        if exists|i: int| 0 <= i < n + 1 && (#[trigger] e[i]).0@ == k { let i = choose|i: int| 0 <= i < n + 1 && (#[trigger] e[i]).0@ == k; if i < n { assert(e[i].0@ == k); } }
        if k == kk { assert(e[n].0@ == k); }
        if a.dom().contains(k) { let i = choose|i: int| 0 <= i < n && (#[trigger] e[i]).0@ == k; assert(e[i].0@ == k); }
    }
}
impl VxTryFrom<PreferenceValue> for Value {
    open spec fn tf(p: PreferenceValue, r: Value) -> bool { forall|j: JV| #[trigger] same(p, j) && keys_plain(j) ==> r@ == j }
    open spec fn tok(t: PreferenceValue) -> bool { true }
//@fn mutagenyx_lib/src/preferences.rs TryFrom<PreferenceValue>@Value::try_from name=vx_try_from props=C12 loops=2 attr=exec_allows_no_decreases_clause
//@ret r
//@subst Result<Self, Self::Error> ==> Result<Self, MutagenyxError>
//@subst vx_it0: o ==> vx_it0: o.vx_into_vec()
//@beforeloop 0
                let ghost o0 = o@;
//@loop 0
                invariant
                    map_entries(vx_it0.seq(), o0), jobject@ is Obj,
                    forall|j: JV| #[trigger] map_same(o0, j) && keys_plain(j) ==> part_of(jobject@->Obj_0, j->Obj_0, vx_it0.seq(), vx_it0.index() as int),
//@loopstart 0
                    let ghost j0 = vx_it0.index() as int; let ghost sq = vx_it0.seq(); let ghost n1 = jobject@->Obj_0;
                    proof { assert(sq[j0].0@ == k@ && sq[j0].1 == v && o0.dom().contains(k@)); }
//@loopend 0
                    proof {
                        assert forall|j: JV| #[trigger] map_same(o0, j) && keys_plain(j) implies part_of(jobject@->Obj_0, j->Obj_0, sq, j0 + 1) by {
                            assert(j->Obj_0.dom().contains(k@)); assert(same(o0[k@], j->Obj_0[k@]));
                            lemma_part(n1, j->Obj_0, sq, j0, jobject@->Obj_0);
                        }
                    }
//@afterloop 0
                proof {
                    assert forall|j: JV| #[trigger] same(value, j) && keys_plain(j) implies jobject@ == j by {
                        assert(map_same(o0, j)); assert(jobject@->Obj_0.dom() =~= j->Obj_0.dom()); assert(jobject@->Obj_0 =~= j->Obj_0);
                    }
                }
//@beforeloop 1
                let ghost a0 = a@;
//@loop 1
                invariant
                    vx_it1.seq() == a0, jarray@ is Arr, jarray@->Arr_0.len() == vx_it1.index(),
                    forall|j: JV| #[trigger] arr_same(a0, j) && keys_plain(j) ==> forall|i: int| 0 <= i < vx_it1.index() ==> #[trigger] jarray@->Arr_0[i] == j->Arr_0[i],
//@loopstart 1
                    let ghost j0 = vx_it1.index() as int; let ghost n1 = jarray@->Arr_0;
                    proof { assert(a0[j0] == v); }
//@loopend 1
                    proof {
                        assert forall|j: JV| #[trigger] arr_same(a0, j) && keys_plain(j) implies forall|i: int| 0 <= i < j0 + 1 ==> #[trigger] jarray@->Arr_0[i] == j->Arr_0[i] by {
                            assert(same(a0[j0], j->Arr_0[j0])); assert(keys_plain(j->Arr_0[j0]));
                        }
                    }
//@afterloop 1
                proof {
                    assert forall|j: JV| #[trigger] same(value, j) && keys_plain(j) implies jarray@ == j by {
                        assert(arr_same(a0, j)); assert(jarray@->Arr_0 =~= j->Arr_0);
                    }
                }
//@end
}

impl VxTryFrom<Value> for Preferences {
    open spec fn tf(t: Value, r: Preferences) -> bool { ints_fit(t@) ==> map_same(r.map@, t@) }
    open spec fn tok(t: Value) -> bool { t@ is Obj }
//@fn mutagenyx_lib/src/preferences.rs TryFrom<Value>@Preferences::try_from name=vx_try_from props=C12 loops=1
//@ret r
//@subst Result<Self, Self::Error> ==> Result<Self, MutagenyxError>
//@subst HashMap<String, PreferenceValue> ==> StrMap<PreferenceValue>
//@subst vx_it0: value_map ==> vx_it0: value_map.vx_refs()
//@loop 0
            invariant
                jrefs_of(vx_it0.seq(), value@->Obj_0), value@ is Obj,
                forall|k: Seq<char>| #[trigger] new_map@.dom().contains(k) <==> exists|j: int| 0 <= j < vx_it0.index() && (#[trigger] vx_it0.seq()[j]).0@ == k,
                ints_fit(value@) ==> forall|k: Seq<char>| #[trigger] new_map@.dom().contains(k) ==> same(new_map@[k], value@->Obj_0[k]),
//@loopstart 0
                let ghost j0 = vx_it0.index() as int; let ghost sq = vx_it0.seq(); let ghost n1 = new_map@;
                proof { assert(sq[j0].0 == k && sq[j0].1 == mvalue); assert(value@->Obj_0.dom().contains(k@)); }
                let ghost kk = k@;
//@loopend 0
                proof {
                    assert forall|k: Seq<char>| #[trigger] new_map@.dom().contains(k) <==> exists|j: int| 0 <= j < j0 + 1 && (#[trigger] sq[j]).0@ == k by {
                        assert(new_map@.dom().contains(k) <==> n1.dom().contains(k) || k == kk);
                        if exists|j: int| 0 <= j < j0 + 1 && (#[trigger] sq[j]).0@ == k { let j = choose|j: int| 0 <= j < j0 + 1 && (#[trigger] sq[j]).0@ == k; if j < j0 { assert(sq[j].0@ == k); } }
                        if k == kk { assert(sq[j0].0@ == k); }
                        if n1.dom().contains(k) { let j = choose|j: int| 0 <= j < j0 && (#[trigger] sq[j]).0@ == k; assert(sq[j].0@ == k); }
                    }
                }
//@afterloop 0
            proof { assert(new_map@.dom() =~= value@->Obj_0.dom()); }
//@end
}
impl VxTryFrom<Preferences> for Value {
    open spec fn tf(p: Preferences, r: Value) -> bool { r@ is Obj && forall|j: JV| #[trigger] map_same(p.map@, j) && keys_plain(j) ==> r@ == j }
    open spec fn tok(t: Preferences) -> bool { true }
//@fn mutagenyx_lib/src/preferences.rs TryFrom<Preferences>@Value::try_from name=vx_try_from props=C12 loops=1
//@ret r
//@subst Result<Self, Self::Error> ==> Result<Self, MutagenyxError>
//@subst Map<String, Value> = Map::new() ==> JMap = JMap::new()
//@subst vx_it0: &value.map ==> vx_it0: value.map.vx_refs()
//@beforeloop 0
                let ghost o0 = value.map@; let ghost pr = value;
//@loop 0
                invariant
                    refs_of(vx_it0.seq(), o0), jvalue@ is Obj,
                    forall|j: JV| #[trigger] map_same(o0, j) && keys_plain(j) ==> rpart_of(jvalue@->Obj_0, j->Obj_0, vx_it0.seq(), vx_it0.index() as int),
//@loopstart 0
                    let ghost j0 = vx_it0.index() as int; let ghost sq = vx_it0.seq(); let ghost n1 = jvalue@->Obj_0;
                    proof { assert(sq[j0].0@ == key@ && *sq[j0].1 == *value && o0.dom().contains(key@)); }
//@loopend 0
                    proof {
                        assert forall|j: JV| #[trigger] map_same(o0, j) && keys_plain(j) implies rpart_of(jvalue@->Obj_0, j->Obj_0, sq, j0 + 1) by {
                            assert(j->Obj_0.dom().contains(key@)); assert(same(o0[key@], j->Obj_0[key@]));
                            lemma_rpart(n1, j->Obj_0, sq, j0, jvalue@->Obj_0);
                        }
                    }
//@afterloop 0
                proof {
                    assert forall|j: JV| #[trigger] map_same(pr.map@, j) && keys_plain(j) implies jvalue@ == j by {
                        assert(map_same(o0, j)); assert(jvalue@->Obj_0.dom() =~= j->Obj_0.dom()); assert(jvalue@->Obj_0 =~= j->Obj_0);
                    }
                }
//@end
}
pub open spec fn rpart_of(m: Map<Seq<char>, JV>, j: Map<Seq<char>, JV>, e: Seq<(&String, &PreferenceValue)>, n: int) -> bool {
    &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) <==> exists|i: int| 0 <= i < n && (#[trigger] e[i]).0@ == k
    &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> m[k] == j[k]
}
pub proof fn lemma_rpart(a: Map<Seq<char>, JV>, j: Map<Seq<char>, JV>, e: Seq<(&String, &PreferenceValue)>, n: int, b: Map<Seq<char>, JV>)
    requires 0 <= n < e.len(), rpart_of(a, j, e, n), b == a.insert(e[n].0@, j[e[n].0@]),
    ensures rpart_of(b, j, e, n + 1),
{
    let kk = e[n].0@;
    assert forall|k: Seq<char>| #[trigger] b.dom().contains(k) <==> exists|i: int| 0 <= i < n + 1 && (#[trigger] e[i]).0@ == k by {
        assert(b.dom().contains(k) <==> a.dom().contains(k) || k == kk);
        if exists|i: int| 0 <= i < n + 1 && (#[trigger] e[i]).0@ == k { let i = choose|i: int| 0 <= i < n + 1 && (#[trigger] e[i]).0@ == k; if i < n { assert(e[i].0@ == k); } }
        if k == kk { assert(e[n].0@ == k); }
        if a.dom().contains(k) { let i = choose|i: int| 0 <= i < n && (#[trigger] e[i]).0@ == k; assert(e[i].0@ == k); }
    }
}
pub open spec fn got(m: Map<Seq<char>, PreferenceValue>, k: Seq<char>) -> Option<PreferenceValue> { if m.dom().contains(k) { Some(m[k]) } else { None } }
pub open spec fn got_str(m: Map<Seq<char>, PreferenceValue>, k: Seq<char>) -> Option<Seq<char>> { if m.dom().contains(k) && m[k] is String { Some(m[k]->String_0@) } else { None } }
pub open spec fn got_arr(m: Map<Seq<char>, PreferenceValue>, k: Seq<char>) -> Option<Seq<PreferenceValue>> { if m.dom().contains(k) && m[k] is Array { Some(m[k]->Array_0@) } else { None } }
pub open spec fn got_map(m: Map<Seq<char>, PreferenceValue>, k: Seq<char>) -> Option<Map<Seq<char>, PreferenceValue>> { if m.dom().contains(k) && m[k] is Map { Some(m[k]->Map_0@) } else { None } }
pub open spec fn set_to(m: Map<Seq<char>, PreferenceValue>, k: Seq<char>, s: Seq<char>, n: Map<Seq<char>, PreferenceValue>) -> bool {
    n.dom().contains(k) && n[k] is String && n[k]->String_0@ == s && n == m.insert(k, n[k])
}
impl Preferences {
//@fn mutagenyx_lib/src/preferences.rs Preferences::new props=C12 
//@ret r
//@spec
        ensures r.map@ == Map::<Seq<char>, PreferenceValue>::empty(), // [C12]
//@subst HashMap<String, PreferenceValue> ==> StrMap<PreferenceValue>
//@end
//@fn mutagenyx_lib/src/preferences.rs Preferences::new_from_map props=C12 
//@ret r
//@spec
        ensures r.map == map, // [C12]
//@subst HashMap<String, PreferenceValue> ==> StrMap<PreferenceValue>
//@end
//@fn mutagenyx_lib/src/preferences.rs Preferences::set_value_for_key props=C12 
//@spec
        ensures final(self).map@ == old(self).map@.insert(key@, value), // [C12]
//@subst HashMap<String, PreferenceValue> ==> StrMap<PreferenceValue>
//@end
//@fn mutagenyx_lib/src/preferences.rs Preferences::get_value_for_key props=C12 
//@ret r
//@spec
        ensures r == got(self.map@, key@), // [C12]
//@subst HashMap<String, PreferenceValue> ==> StrMap<PreferenceValue>
//@end
//@fn mutagenyx_lib/src/preferences.rs Preferences::contains_key props=C12 
//@ret r
//@spec
        ensures r == self.map@.dom().contains(key@), // [C12]
//@subst HashMap<String, PreferenceValue> ==> StrMap<PreferenceValue>
//@end
//@fn mutagenyx_lib/src/preferences.rs Preferences::get_int_for_key props=C12 
//@ret r
//@spec
        ensures r == (match got(self.map@, key@) { Some(PreferenceValue::Int(i)) => Some(i), _ => None::<i64> }), // [C12]
//@subst HashMap<String, PreferenceValue> ==> StrMap<PreferenceValue>
//@end
//@fn mutagenyx_lib/src/preferences.rs Preferences::get_float_for_key props=C12 
//@ret r
//@spec
        ensures r == (match got(self.map@, key@) { Some(PreferenceValue::Float(i)) => Some(i), _ => None::<f64> }), // [C12]
//@subst HashMap<String, PreferenceValue> ==> StrMap<PreferenceValue>
//@end
//@fn mutagenyx_lib/src/preferences.rs Preferences::get_string_for_key props=C12 
//@ret r
//@spec
        ensures r is Some <==> got_str(self.map@, key@) is Some, r is Some ==> r->0@ == got_str(self.map@, key@)->0, // [C12]
//@subst HashMap<String, PreferenceValue> ==> StrMap<PreferenceValue>
//@end
//@fn mutagenyx_lib/src/preferences.rs Preferences::get_bool_for_key props=C12 
//@ret r
//@spec
        ensures r == (match got(self.map@, key@) { Some(PreferenceValue::Boolean(i)) => Some(i), _ => None::<bool> }), // [C12]
//@subst HashMap<String, PreferenceValue> ==> StrMap<PreferenceValue>
//@end
//@fn mutagenyx_lib/src/preferences.rs Preferences::get_map_for_key props=C12 
//@ret r
//@spec
        ensures r is Some <==> got_map(self.map@, key@) is Some, r is Some ==> r->0@ == got_map(self.map@, key@)->0, // [C12]
//@subst HashMap<String, PreferenceValue> ==> StrMap<PreferenceValue>
//@end
//@fn mutagenyx_lib/src/preferences.rs Preferences::get_array_for_key props=C12 
//@ret r
//@spec
        ensures r is Some <==> got_arr(self.map@, key@) is Some, r is Some ==> r->0@ == got_arr(self.map@, key@)->0, // [C12]
//@subst HashMap<String, PreferenceValue> ==> StrMap<PreferenceValue>
//@end
//@fn mutagenyx_lib/src/preferences.rs Preferences::get_preferences_for_key props=C12 
//@ret r
//@spec
        ensures r is Some <==> got_map(self.map@, key@) is Some, r is Some ==> r->0.map@ == got_map(self.map@, key@)->0, // [C12]
//@subst HashMap<String, PreferenceValue> ==> StrMap<PreferenceValue>
//@end
//@fn mutagenyx_lib/src/preferences.rs Preferences::set_int_for_key props=C12 
//@spec
        ensures final(self).map@ == old(self).map@.insert(key@, PreferenceValue::Int(i)), // [C12]
//@subst HashMap<String, PreferenceValue> ==> StrMap<PreferenceValue>
//@end
//@fn mutagenyx_lib/src/preferences.rs Preferences::set_float_for_key props=C12 
//@spec
        ensures final(self).map@ == old(self).map@.insert(key@, PreferenceValue::Float(f)), // [C12]
//@subst HashMap<String, PreferenceValue> ==> StrMap<PreferenceValue>
//@end
//@fn mutagenyx_lib/src/preferences.rs Preferences::set_bool_for_key props=C12 
//@spec
        ensures final(self).map@ == old(self).map@.insert(key@, PreferenceValue::Boolean(b)), // [C12]
//@subst HashMap<String, PreferenceValue> ==> StrMap<PreferenceValue>
//@end
//@fn mutagenyx_lib/src/preferences.rs Preferences::set_map_for_key props=C12 
//@spec
        ensures final(self).map@ == old(self).map@.insert(key@, PreferenceValue::Map(map)), // [C12]
//@subst HashMap<String, PreferenceValue> ==> StrMap<PreferenceValue>
//@end
//@fn mutagenyx_lib/src/preferences.rs Preferences::set_array_for_key props=C12 
//@spec
        ensures final(self).map@ == old(self).map@.insert(key@, PreferenceValue::Array(array)), // [C12]
//@subst HashMap<String, PreferenceValue> ==> StrMap<PreferenceValue>
//@end
//@fn mutagenyx_lib/src/preferences.rs Preferences::set_preferences_for_key props=C12 
//@spec
        ensures final(self).map@ == old(self).map@.insert(key@, PreferenceValue::Map(prefs.map)), // [C12]
//@subst HashMap<String, PreferenceValue> ==> StrMap<PreferenceValue>
//@end
//@fn mutagenyx_lib/src/preferences.rs Preferences::set_string_for_key props=C12 
//@spec
        ensures set_to(old(self).map@, key@, s@, final(self).map@), // [C12]
//@subst HashMap<String, PreferenceValue> ==> StrMap<PreferenceValue>
//@end
//@fn mutagenyx_lib/src/preferences.rs Preferences::len props=C12 
//@ret r
//@spec
        ensures r == self.map@.dom().len(), // [C12]
//@subst HashMap<String, PreferenceValue> ==> StrMap<PreferenceValue>
//@end
//@fn mutagenyx_lib/src/preferences.rs Preferences::is_empty props=C12 
//@ret r
//@spec
        ensures r == (self.map@ == Map::<Seq<char>, PreferenceValue>::empty()), // [C12]
//@subst HashMap<String, PreferenceValue> ==> StrMap<PreferenceValue>
//@end
}
