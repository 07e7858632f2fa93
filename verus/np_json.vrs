impl Value {
    #[verifier::external_body]
    pub fn is_boolean(&self) -> (r: bool) ensures r == self@ is Bool { unimplemented!() }
//@fn mutagenyx_lib/src/json.rs JSONMutate@Value::get_float_for_key props=C24
//@ret r
//@spec
        requires plain(key@), !(self@ is Arr && numeric(key@)),
        ensures r is Some <==> self@.has(key@) && self@.at(key@) is Num, r is Some && self@.at(key@)->Num_0 is Float ==> fbits(r->0) == self@.at(key@)->Num_0->Float_0,
//@entry
        proof { vx_ptr(key@); }
//@end
}
impl<V> StrMap<V> {
    // m[k]
    #[verifier::external_body]
    pub fn vx_at(&self, k: &str) -> (r: &V) requires self@.dom().contains(k@) ensures *r == self@[k@] { unimplemented!() }
}
// floats of equal bits are written alike
pub uninterp spec fn float_text(bits: int) -> Seq<char>;
pub broadcast axiom fn ax_ftext(x: f64) ensures #[trigger] f64_text(x) == float_text(fbits(x));
// serde_json holds integers of up to 64 bits only
pub axiom fn ax_num(v: JV) ensures v is Num && v->Num_0 is Int ==> i64::MIN <= v->Num_0->Int_0 <= u64::MAX;
#[verifier::external_body]
pub fn vx_ascii_len(s: &str) -> (r: usize) requires ascii(s@) ensures r == s@.len() { unimplemented!() }
#[verifier::external_body]
pub fn vx_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_push(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { unimplemented!() }
