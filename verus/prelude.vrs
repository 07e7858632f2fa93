// ---- prelude: models of the external crates (assumed contracts), nothing of /repo is restated here ----
pub mod jvm {
 use super::*;
 verus! {
pub enum NumV { Int(int), Float(int) }
pub enum JV { Null, Bool(bool), Num(NumV), Str(Seq<char>), Arr(Seq<JV>), Obj(Map<Seq<char>, JV>) }
pub open spec fn jv_empty() -> JV { JV::Obj(Map::empty()) }
impl JV {
    pub open spec fn has(self, k: Seq<char>) -> bool { self is Obj && self->Obj_0.dom().contains(k) }
    pub open spec fn at(self, k: Seq<char>) -> JV { self->Obj_0[k] }
    pub open spec fn set(self, k: Seq<char>, v: JV) -> JV { JV::Obj(self->Obj_0.insert(k, v)) }
    pub open spec fn arr_at(self, k: Seq<char>) -> bool { self.has(k) && self.at(k) is Arr }
    pub open spec fn arr(self, k: Seq<char>) -> Seq<JV> { self.at(k)->Arr_0 }
    pub open spec fn str_at(self, k: Seq<char>) -> bool { self.has(k) && self.at(k) is Str }
    pub open spec fn str(self, k: Seq<char>) -> Seq<char> { self.at(k)->Str_0 }
    pub open spec fn is_str(self, k: Seq<char>, s: Seq<char>) -> bool { self.str_at(k) && self.str(k) == s }
    pub open spec fn big_at(self, k: Seq<char>) -> bool {
        self.has(k) && self.at(k) is Num && self.at(k)->Num_0 is Int && i64::MAX < self.at(k)->Num_0->Int_0 <= u64::MAX
    }
    pub open spec fn int_at(self, k: Seq<char>) -> bool {
        self.has(k) && self.at(k) is Num && self.at(k)->Num_0 is Int
            && i64::MIN <= self.at(k)->Num_0->Int_0 <= i64::MAX
    }
    pub open spec fn int(self, k: Seq<char>) -> int { self.at(k)->Num_0->Int_0 }
    pub open spec fn bool_at(self, k: Seq<char>) -> bool { self.has(k) && self.at(k) is Bool }
    pub open spec fn bool(self, k: Seq<char>) -> bool { self.at(k)->Bool_0 }
}

pub broadcast proof fn lemma_set_same(v: JV, k: Seq<char>)
    requires v.has(k),
    ensures #[trigger] v.set(k, v.at(k)) == v,
{ assert(v->Obj_0.insert(k, v->Obj_0[k]) =~= v->Obj_0); }
pub broadcast proof fn lemma_set_set(v: JV, k: Seq<char>, a: JV, b: JV)
    ensures #[trigger] v.set(k, a).set(k, b) == v.set(k, b),
{ assert(v->Obj_0.insert(k, a).insert(k, b) =~= v->Obj_0.insert(k, b)); }
}
}
pub use jvm::*;
pub mod jvsm {
 use super::*;
 verus! {
// serde_json::Value, opaque; all that is known about it are the contracts below
#[verifier::external_body]
pub struct Value { _p: u64 }
impl View for Value { type V = JV; uninterp spec fn view(&self) -> JV; }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Value {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Value) -> bool { self@ == o@ }
}
impl PartialEq for Value { #[verifier::external_body] fn eq(&self, o: &Value) -> (r: bool) { unimplemented!() } }
pub open spec fn jvs(v: Seq<Value>) -> Seq<JV> { v.map_values(|x: Value| x@) }
pub broadcast proof fn lemma_jvs_remove(v: Seq<Value>, i: int)
    requires 0 <= i < v.len(),
    ensures #[trigger] jvs(v.remove(i)) == jvs(v).remove(i),
{ assert(jvs(v.remove(i)) =~= jvs(v).remove(i)); }
pub broadcast proof fn lemma_jvs_insert(v: Seq<Value>, i: int, x: Value)
    requires 0 <= i <= v.len(),
    ensures #[trigger] jvs(v.insert(i, x)) == jvs(v).insert(i, x@),
{ assert(jvs(v.insert(i, x)) =~= jvs(v).insert(i, x@)); }
pub broadcast proof fn lemma_jvs_push(v: Seq<Value>, x: Value)
    ensures #[trigger] jvs(v.push(x)) == jvs(v).push(x@),
{ assert(jvs(v.push(x)) =~= jvs(v).push(x@)); }
pub broadcast proof fn lemma_jvs_update(v: Seq<Value>, i: int, x: Value)
    requires 0 <= i < v.len(),
    ensures #[trigger] jvs(v.update(i, x)) == jvs(v).update(i, x@),
{ assert(jvs(v.update(i, x)) =~= jvs(v).update(i, x@)); }
pub broadcast proof fn lemma_jvs_len(v: Seq<Value>)
    ensures #[trigger] jvs(v).len() == v.len(),
{ }
pub broadcast proof fn lemma_upd_upd<A>(v: Seq<A>, i: int, x: A, y: A)
    requires 0 <= i < v.len(),
    ensures #[trigger] v.update(i, x).update(i, y) == v.update(i, y),
{ assert(v.update(i, x).update(i, y) =~= v.update(i, y)); }
pub broadcast proof fn lemma_rem_ins<A>(v: Seq<A>, i: int, x: A)
    requires 0 <= i < v.len(),
    ensures #[trigger] v.remove(i).insert(i, x) == v.update(i, x),
{ assert(v.remove(i).insert(i, x) =~= v.update(i, x)); }
}
}
pub use jvsm::*;
broadcast use {jvm::lemma_set_same, jvm::lemma_set_set, jvsm::lemma_jvs_remove, jvsm::lemma_jvs_insert, jvsm::lemma_jvs_push, jvsm::lemma_jvs_update, jvsm::lemma_jvs_len, jvsm::lemma_rem_ins, jvsm::lemma_upd_upd};

pub type SolidityAST = Value;
pub type VyperAST = Value;
impl Clone for Value {
    #[verifier::external_body]
    fn clone(&self) -> (r: Value) ensures r@ == self@ { unimplemented!() }
}
// A key is "plain" when a JSON pointer made of '/' and the key addresses exactly that key of an object.
#[verifier::opaque]
pub open spec fn plain(k: Seq<char>) -> bool {
    &&& forall|i: int| 0 <= i < k.len() ==> k[i] != '/' && k[i] != '~'
}
// the value a JSON pointer addresses in an array (numeric token): unknown
pub uninterp spec fn arr_ptr(v: JV, p: Seq<char>) -> Option<JV>;
#[verifier::opaque]
pub open spec fn numeric(k: Seq<char>) -> bool { forall|i: int| 0 <= i < k.len() ==> '0' <= (#[trigger] k[i]) <= '9' }

pub trait JIndex: Sized {
    spec fn jhas(self, v: JV) -> bool;
    spec fn jat(self, v: JV) -> JV;
    spec fn jset(self, v: JV, x: JV) -> JV;
}
impl JIndex for &str {
    open spec fn jhas(self, v: JV) -> bool { v.has(self@) }
    open spec fn jat(self, v: JV) -> JV { v.at(self@) }
    open spec fn jset(self, v: JV, x: JV) -> JV { v.set(self@, x) }
}
impl JIndex for &String {
    open spec fn jhas(self, v: JV) -> bool { v.has(self@) }
    open spec fn jat(self, v: JV) -> JV { v.at(self@) }
    open spec fn jset(self, v: JV, x: JV) -> JV { v.set(self@, x) }
}
impl JIndex for usize {
    open spec fn jhas(self, v: JV) -> bool { v is Arr && self < v->Arr_0.len() }
    open spec fn jat(self, v: JV) -> JV { v->Arr_0[self as int] }
    open spec fn jset(self, v: JV, x: JV) -> JV { JV::Arr(v->Arr_0.update(self as int, x)) }
}
impl Value {
    #[verifier::external_body]
    pub fn get<I: JIndex>(&self, k: I) -> (r: Option<&Value>)
        ensures r is Some <==> k.jhas(self@), r is Some ==> r->0@ == k.jat(self@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<I: JIndex>(&mut self, k: I) -> (r: Option<&mut Value>)
        ensures r is Some <==> k.jhas(old(self)@),
            r is None ==> final(self)@ == old(self)@,
            r is Some ==> (*(r->0))@ == k.jat(old(self)@) && final(self)@ == k.jset(old(self)@, (*final(r->0))@),
    { unimplemented!() }
    // RFC 6901 on a one-token pointer "/key" for a plain key; anything else is unknown
    #[verifier::external_body]
    pub fn pointer(&self, p: &str) -> (r: Option<&Value>)
        ensures
            p@.len() > 0 && p@[0] == '/' && plain(p@.skip(1)) && !(self@ is Arr && numeric(p@.skip(1))) ==>
                (r is Some <==> self@.has(p@.skip(1))) && (r is Some ==> r->0@ == self@.at(p@.skip(1))),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pointer_mut(&mut self, p: &str) -> (r: Option<&mut Value>)
        ensures
            p@.len() > 0 && p@[0] == '/' && plain(p@.skip(1)) && !(old(self)@ is Arr && numeric(p@.skip(1))) ==> {
                &&& (r is Some <==> old(self)@.has(p@.skip(1)))
                &&& (r is Some ==> (*(r->0))@ == old(self)@.at(p@.skip(1)) && final(self)@ == old(self)@.set(p@.skip(1), (*final(r->0))@))
            },
            r is None ==> final(self)@ == old(self)@,
            p@.len() > 0 && old(self)@ is Obj ==> final(self)@ is Obj,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_array(&self) -> (r: Option<&Vec<Value>>)
        ensures r is Some <==> self@ is Arr, r is Some ==> jvs(r->0@) == self@->Arr_0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_array_mut(&mut self) -> (r: Option<&mut Vec<Value>>)
        ensures r is Some <==> old(self)@ is Arr,
            r is None ==> final(self)@ == old(self)@,
            r is Some ==> jvs((*(r->0))@) == old(self)@->Arr_0 && final(self)@ == JV::Arr(jvs((*final(r->0))@)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_object(&self) -> (r: Option<&JMap>)
        ensures r is Some <==> self@ is Obj, r is Some ==> r->0@ == self@->Obj_0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_object_mut(&mut self) -> (r: Option<&mut JMap>)
        ensures r is Some <==> old(self)@ is Obj,
            r is None ==> final(self)@ == old(self)@,
            r is Some ==> (*(r->0))@ == old(self)@->Obj_0 && final(self)@ == JV::Obj((*final(r->0))@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: Option<&str>)
        ensures r is Some <==> self@ is Str, r is Some ==> r->0@ == self@->Str_0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bool(&self) -> (r: Option<bool>)
        ensures r is Some <==> self@ is Bool, r is Some ==> r->0 == self@->Bool_0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_i64(&self) -> (r: Option<i64>)
        ensures
            r is Some <==> self@ is Num && self@->Num_0 is Int && i64::MIN <= self@->Num_0->Int_0 <= i64::MAX,
            r is Some ==> r->0 as int == self@->Num_0->Int_0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_u64(&self) -> (r: Option<u64>)
        ensures
            r is Some <==> self@ is Num && self@->Num_0 is Int && 0 <= self@->Num_0->Int_0 <= u64::MAX,
            r is Some ==> r->0 as int == self@->Num_0->Int_0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_object(&self) -> (r: bool) ensures r == self@ is Obj { unimplemented!() }
    #[verifier::external_body]
    pub fn is_array(&self) -> (r: bool) ensures r == self@ is Arr { unimplemented!() }
    #[verifier::external_body]
    pub fn is_null(&self) -> (r: bool) ensures r == self@ is Null { unimplemented!() }
    #[verifier::external_body]
    pub fn take(&mut self) -> (r: Value) ensures r@ == old(self)@, final(self)@ == JV::Null { unimplemented!() }
    #[verifier::external_body]
    pub fn from<T: ToJv>(t: T) -> (r: Value) ensures r@ == t.tojv() { unimplemented!() }
    #[verifier::external_body]
    pub fn String(s: String) -> (r: Value) ensures r@ == JV::Str(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn Array(s: Vec<Value>) -> (r: Value) ensures r@ == JV::Arr(jvs(s@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn Object(s: JMap) -> (r: Value) ensures r@ == JV::Obj(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_null() -> (r: Value) ensures r@ == JV::Null { unimplemented!() }
    #[verifier::external_body]
    pub fn is_string(&self) -> (r: bool) ensures r == self@ is Str { unimplemented!() }
}
// serde_json::Map<String, Value>
#[verifier::external_body]
pub struct JMap { _p: u64 }
impl View for JMap { type V = Map<Seq<char>, JV>; uninterp spec fn view(&self) -> Map<Seq<char>, JV>; }
impl JMap {
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: Value) -> (r: Option<Value>)
        ensures final(self)@ == old(self)@.insert(k@, v@),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_push_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { unimplemented!() }
// json![x]
pub trait ToJv { spec fn tojv(&self) -> JV; }
impl ToJv for &str { open spec fn tojv(&self) -> JV { JV::Str(self@) } }
impl ToJv for Vec<Value> { open spec fn tojv(&self) -> JV { JV::Arr(jvs(self@)) } }
impl ToJv for u64 { open spec fn tojv(&self) -> JV { JV::Num(NumV::Int(*self as int)) } }
impl ToJv for i64 { open spec fn tojv(&self) -> JV { JV::Num(NumV::Int(*self as int)) } }
impl ToJv for &Vec<String> { open spec fn tojv(&self) -> JV { JV::Arr(self@.map_values(|s: String| JV::Str(s@))) } }
impl ToJv for Vec<String> { open spec fn tojv(&self) -> JV { JV::Arr(self@.map_values(|s: String| JV::Str(s@))) } }
impl ToJv for Option<&str> { open spec fn tojv(&self) -> JV { match self { Some(s) => JV::Str(s@), None => JV::Null } } }
// a float is known by its bits; serde_json writes null for one that is not finite
pub uninterp spec fn fbits(f: f64) -> int;
pub uninterp spec fn finite(f: f64) -> bool;
impl ToJv for f64 { open spec fn tojv(&self) -> JV { if finite(*self) { JV::Num(NumV::Float(fbits(*self))) } else { JV::Null } } }
impl ToJv for bool { open spec fn tojv(&self) -> JV { JV::Bool(*self) } }
#[verifier::external_body]
pub fn vx_json<T: ToJv>(t: &T) -> (r: Value) ensures r@ == t.tojv() { unimplemented!() }
// `v[k] = x` on an object (serde_json IndexMut: panics when v is neither an object nor null)
#[verifier::external_body]
pub fn vx_index_set(v: &mut Value, k: &str, x: Value)
    requires old(v)@ is Obj,
    ensures final(v)@ == old(v)@.set(k@, x@),
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
// `v.swap(i, j)` of slices
pub trait VxSwap<T> {
    spec fn vx_seq(&self) -> Seq<T>;
    fn vx_swap(&mut self, i: usize, j: usize)
        requires i < old(self).vx_seq().len(), j < old(self).vx_seq().len(),
        ensures final(self).vx_seq() == old(self).vx_seq().update(i as int, old(self).vx_seq()[j as int]).update(j as int, old(self).vx_seq()[i as int]);
}
impl<T> VxSwap<T> for Vec<T> {
    open spec fn vx_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_swap(&mut self, i: usize, j: usize) { self.swap(i, j) }
}
// ---- std::string / formatting ----
#[verifier::external_body]
pub fn vx_format() -> (r: String) { unimplemented!() }
#[verifier::external_body]
pub fn vx_add(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_streq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
pub fn vx_some_is(a: Option<&str>, b: &str) -> (r: bool) ensures r == (a is Some && a->0@ == b@) { match a { Some(x) => vx_streq(x, b), None => false } }
pub fn vx_assert(b: bool) requires b {}
#[verifier::external_body]
pub fn vx_panic<T>() -> (r: T) requires false { unimplemented!() }
// decimal text of an integer / what Rust's integer parsers read from a text (both uninterpreted)
pub uninterp spec fn dec(n: int) -> Seq<char>;
pub uninterp spec fn parse_int(s: Seq<char>) -> Option<int>;
pub broadcast axiom fn ax_dec(n: int) ensures parse_int(#[trigger] dec(n)) == Some(n);
// the number serde_json reads from the decimal text of n: an integer where it fits in 64 bits, otherwise the nearest float
pub uninterp spec fn nearest_float(n: int) -> int;
pub open spec fn json_int(n: int) -> NumV { if i64::MIN <= n <= u64::MAX { NumV::Int(n) } else { NumV::Float(nearest_float(n)) } }
pub uninterp spec fn f64_text(x: f64) -> Seq<char>;
// any floating point literal (its value is dropped)
#[verifier::external_body]
pub fn vx_f64() -> (r: f64) { unimplemented!() }
pub trait VxDisp {
    spec fn vx_disp(&self) -> Seq<char>;
    spec fn vx_raw(&self) -> JV;
    fn vx_to_string(&self) -> (r: String) ensures r@ == self.vx_disp();
}
macro_rules! vx_disp { ($t:ty, $s:ident, $d:tt, $r:tt) => { verus! {
impl VxDisp for $t {
    open spec fn vx_disp(&self) -> Seq<char> { let $s = self; $d }
    open spec fn vx_raw(&self) -> JV { let $s = self; $r }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
} } }
vx_disp!(&str, s, { (*s)@ }, { arbitrary() });
vx_disp!(String, s, { s@ }, { arbitrary() });
vx_disp!(bool, s, { if *s { "true"@ } else { "false"@ } }, { JV::Bool(*s) });
vx_disp!(i128, s, { dec(*s as int) }, { JV::Num(json_int(*s as int)) });
vx_disp!(u128, s, { dec(*s as int) }, { JV::Num(json_int(*s as int)) });
vx_disp!(f64, s, { f64_text(*s) }, { arbitrary() });
vx_disp!(u64, s, { dec(*s as int) }, { JV::Num(NumV::Int(*s as int)) });
vx_disp!(i64, s, { dec(*s as int) }, { JV::Num(NumV::Int(*s as int)) });
vx_disp!(usize, s, { dec(*s as int) }, { JV::Num(NumV::Int(*s as int)) });
pub open spec fn parse_to(s: Seq<char>, lo: int, hi: int) -> Option<int> {
    match parse_int(s) { Some(n) => if lo <= n <= hi { Some(n) } else { None }, None => None }
}
// str methods; a byte range of a str is only modelled where all bytes in front of its ends are ASCII
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) < '\u{80}' }
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
pub trait VxStr {
    spec fn sv(&self) -> Seq<char>;
    fn vx_parse_i128(&self) -> (r: Result<i128, Foreign>) ensures r is Ok <==> parse_to(self.sv(), i128::MIN as int, i128::MAX as int) is Some, r is Ok ==> r->Ok_0 as int == parse_int(self.sv())->0;
    fn vx_parse_i64(&self) -> (r: Result<i64, Foreign>) ensures r is Ok <==> parse_to(self.sv(), i64::MIN as int, i64::MAX as int) is Some, r is Ok ==> r->Ok_0 as int == parse_int(self.sv())->0;
    fn vx_parse_u64(&self) -> (r: Result<u64, Foreign>) ensures r is Ok <==> parse_to(self.sv(), 0, u64::MAX as int) is Some, r is Ok ==> r->Ok_0 as int == parse_int(self.sv())->0;
    fn vx_parse_u32(&self) -> (r: Result<u32, Foreign>) ensures r is Ok <==> parse_to(self.sv(), 0, u32::MAX as int) is Some, r is Ok ==> r->Ok_0 as int == parse_int(self.sv())->0;
    fn vx_find_char(&self, c: char) -> (r: Option<usize>) ensures r is Some <==> self.sv().contains(c);
}
macro_rules! vx_strs { ($t:ty) => { verus! {
impl VxStr for $t {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_parse_i128(&self) -> (r: Result<i128, Foreign>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_parse_i64(&self) -> (r: Result<i64, Foreign>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_parse_u64(&self) -> (r: Result<u64, Foreign>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_parse_u32(&self) -> (r: Result<u32, Foreign>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_find_char(&self, c: char) -> (r: Option<usize>) { unimplemented!() }
}
} } }
vx_strs!(str);
vx_strs!(String);
#[verifier::external_body]
pub fn vx_str_slice<'a>(s: &'a str, start: usize, end: Option<usize>) -> (r: &'a str)
    requires
        end is Some ==> start <= end->0 <= s@.len() && ascii(s@.take(end->0 as int)),
        end is None ==> start <= s@.len() && ascii(s@.take(start as int)),
    ensures r@ == s@.subrange(start as int, if end is Some { end->0 as int } else { s@.len() as int }),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_strip_prefix<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>)
    ensures r is Some <==> starts(s@, p@), r is Some ==> r->0@ == s@.skip(p@.len() as int),
{ unimplemented!() }
// s.get(..n): the first n bytes, where they end at a character boundary
#[verifier::external_body]
pub fn vx_str_prefix<'a>(s: &'a str, n: usize) -> (r: Option<&'a str>)
    ensures r is Some ==> starts(s@, r->0@), n <= s@.len() && ascii(s@.take(n as int)) ==> r is Some && r->0@ == s@.take(n as int),
{ unimplemented!() }
// write!(f, "{}", text) on a formatter that only collects text
#[verifier::external_body]
pub struct Formatter<'a> { _p: std::marker::PhantomData<&'a u8> }
impl<'a> View for Formatter<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn vx_write<'a, T: VxDisp>(f: &mut Formatter<'a>, t: T) -> (r: Result<(), Foreign>) ensures final(f)@ == old(f)@ + t.vx_disp() { unimplemented!() }
pub open spec fn p2(n: int) -> int { vstd::arithmetic::power2::pow2(n as nat) as int }
#[verifier::external_body]
pub fn vx_pow2_i128(e: u32) -> (r: i128) requires e < 127 ensures r as int == p2(e as int) { unimplemented!() }
#[verifier::external_body]
pub fn vx_pow2_u128(e: u32) -> (r: u128) requires e < 128 ensures r as int == p2(e as int), r > 0 { unimplemented!() }
pub axiom fn ax_p2_127() ensures p2(127) == 0x8000_0000_0000_0000_0000_0000_0000_0000int;
pub axiom fn ax_p2_128() ensures p2(128) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000int;
pub axiom fn ax_p2_mono(a: int, b: int) requires 0 <= a <= b ensures 0 < p2(a) <= p2(b);
#[verifier::external_body]
pub struct VxB { _p: u8 }
pub trait VxBytes { fn vx_bytes(&self) -> VxB; }
macro_rules! vx_bytes { ($t:ty) => { verus! {
impl VxBytes for $t { #[verifier::external_body] fn vx_bytes(&self) -> VxB { unimplemented!() } }
} } }
vx_bytes!(usize); vx_bytes!(u64); vx_bytes!(i64); vx_bytes!(i128); vx_bytes!(u128); vx_bytes!(i8); vx_bytes!(f64);

// ---- rand / rand_pcg ----
#[verifier::external_body]
pub struct Pcg64 { _p: u64 }
impl Pcg64 {
    #[verifier::external_body]
    pub fn next_u64(&mut self) -> (r: u64) { unimplemented!() }
    // rand 0.7: panics unless lo < hi
    #[verifier::external_body]
    pub fn gen_range<T: VxNum>(&mut self, lo: T, hi: T) -> (r: T)
        requires lo.vlt(&hi),
        ensures lo.vle(&r), r.vlt(&hi),
    { unimplemented!() }
}
pub trait VxNum { spec fn vlt(&self, o: &Self) -> bool; spec fn vle(&self, o: &Self) -> bool; }
macro_rules! vx_num { ($t:ty) => { verus! {
impl VxNum for $t { open spec fn vlt(&self, o: &Self) -> bool { *self < *o } open spec fn vle(&self, o: &Self) -> bool { *self <= *o } }
} } }
// floating point ranges are not reasoned about
impl VxNum for f64 { open spec fn vlt(&self, o: &Self) -> bool { true } open spec fn vle(&self, o: &Self) -> bool { true } }
vx_num!(i128); vx_num!(u128); vx_num!(i8); vx_num!(i32); vx_num!(u32); vx_num!(u64); vx_num!(i64); vx_num!(usize); vx_num!(u8);
pub trait VxChoose<T> {
    fn choose(&self, rng: &mut Pcg64) -> (r: Option<&T>);
}
impl<T> VxChoose<T> for Vec<T> {
    #[verifier::external_body]
    fn choose(&self, rng: &mut Pcg64) -> (r: Option<&T>)
        ensures self@.len() > 0 ==> r is Some, r is Some ==> exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i] == *(r->0),
    { unimplemented!() }
}
pub open spec fn has_str(v: Seq<&'static str>, s: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == s }
pub trait VxStrVec {
    fn contains(&self, s: &&str) -> (r: bool);
}
impl VxStrVec for Vec<&'static str> {
    #[verifier::external_body]
    fn contains(&self, s: &&str) -> (r: bool)
        ensures r == has_str(self@, (*s)@),
    { unimplemented!() }
}

// ---- openssl / hex (results are opaque; they may fail) ----
#[verifier::external_body]
pub struct Hasher { _p: u64 }
pub struct MessageDigest { }
impl MessageDigest { pub fn sha256() -> MessageDigest { MessageDigest { } } }
impl Hasher {
    #[verifier::external_body]
    pub fn new(d: MessageDigest) -> (r: Result<Hasher, MutagenyxError>) ensures r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn update<T: ?Sized>(&mut self, b: &T) -> (r: Result<(), MutagenyxError>) ensures r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(&mut self) -> (r: Result<Vec<u8>, MutagenyxError>) ensures r is Ok { unimplemented!() }
}
pub mod hex {
    use super::*;
    verus! {
    #[verifier::external_body]
    pub fn encode<T>(b: T) -> (r: String) { unimplemented!() }
    }
}

// ---- HashMap<&str, V>, HashMap<String, V> ----
pub trait SKey { spec fn kv(&self) -> Seq<char>; }
impl SKey for &str { open spec fn kv(&self) -> Seq<char> { self@ } }
impl SKey for String { open spec fn kv(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
pub struct StrMap<V> { _p: std::marker::PhantomData<V> }
impl<V> View for StrMap<V> { type V = Map<Seq<char>, V>; uninterp spec fn view(&self) -> Map<Seq<char>, V>; }
impl<V> StrMap<V> {
    #[verifier::external_body]
    pub fn new() -> (r: StrMap<V>) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.dom().contains(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&V>) ensures r is Some <==> self@.dom().contains(k@), r is Some ==> *(r->0) == self@[k@] { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &str) -> (r: Option<&mut V>)
        ensures r is Some <==> old(self)@.dom().contains(k@), r is None ==> final(self)@ == old(self)@,
            r is Some ==> *(r->0) == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(r->0)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert<K: SKey>(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k.kv(), v) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<Seq<char>, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter(&self) -> (r: Vec<(&'static str, V)>) ensures
        forall|i: int| 0 <= i < r@.len() ==> self@.dom().contains((#[trigger] r@[i]).0@) && self@[r@[i].0@] == r@[i].1,
        forall|k: Seq<char>| #[trigger] self@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0@ == k,
    { unimplemented!() }
    // the entries, in an arbitrary order
    #[verifier::external_body]
    pub fn vx_into_vec(self) -> (r: Vec<(String, V)>) ensures map_entries(r@, self@) { unimplemented!() }
}
pub open spec fn map_entries<V>(r: Seq<(String, V)>, m: Map<Seq<char>, V>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> m.dom().contains((#[trigger] r[i]).0@) && m[r[i].0@] == r[i].1
    &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0@ == k
}
// assumption: no JSON array of an input has more than i32::MAX elements
pub axiom fn ax_small<T>(v: Seq<T>) ensures v.len() <= i32::MAX;
pub assume_specification [std::string::String::as_bytes] (_0: &std::string::String) -> &[u8];
// text functions of the standard library about which nothing is known but that they are functions: code that
// starts to use one has an obligation that fails, not one that cannot be stated
pub uninterp spec fn x_trim(k: int, s: Seq<char>) -> Seq<char>;
pub uninterp spec fn x_case(k: int, s: Seq<char>) -> Seq<char>;
pub assume_specification [str::trim] (s: &str) -> (r: &str) ensures r@ == x_trim(0, s@);
pub assume_specification [str::trim_start] (s: &str) -> (r: &str) ensures r@ == x_trim(1, s@);
pub assume_specification [str::trim_end] (s: &str) -> (r: &str) ensures r@ == x_trim(2, s@);
pub assume_specification [str::to_lowercase] (s: &str) -> (r: String) ensures r@ == x_case(0, s@);
pub assume_specification [str::to_uppercase] (s: &str) -> (r: String) ensures r@ == x_case(1, s@);
pub assume_specification [str::to_ascii_lowercase] (s: &str) -> (r: String) ensures r@ == x_case(2, s@);
pub assume_specification [str::to_ascii_uppercase] (s: &str) -> (r: String) ensures r@ == x_case(3, s@);
pub assume_specification [str::eq_ignore_ascii_case] (s: &str, o: &str) -> (r: bool) ensures r == (x_case(2, s@) == x_case(2, o@));
