// contracts on mutagenyx_lib/src/json.rs
pub proof fn vx_ptr(k: Seq<char>) ensures ("/"@ + k).skip(1) == k, ("/"@ + k)[0] == '/', ("/"@ + k).len() > 0 {
    reveal_strlit("/");
    assert(("/"@ + k).skip(1) =~= k);
}
//@fn mutagenyx_lib/src/json.rs json_path
//@ret r
//@spec
    ensures r@ == "/"@ + path@,
//@subst jp += path; ==> vx_push_str(&mut jp, path);
//@end
impl Value {
//@fn mutagenyx_lib/src/json.rs JSONMutate@Value::set_string
//@spec
        ensures final(self)@ == JV::Str(value@),
//@end
//@fn mutagenyx_lib/src/json.rs JSONMutate@Value::has_value_for_key 
//@ret r
//@spec
        requires plain(key@), !(self@ is Arr && numeric(key@)),
        ensures r == self@.has(key@),
//@entry
        proof { vx_ptr(key@); }
//@end
//@fn mutagenyx_lib/src/json.rs JSONMutate@Value::take_value_for_key optmap
//@ret r
//@spec
        requires plain(key@), !(old(self)@ is Arr && numeric(key@)),
        ensures r is Some <==> old(self)@.has(key@),
            r is Some ==> r->0@ == old(self)@.at(key@) && final(self)@ == old(self)@.set(key@, JV::Null),
            r is None ==> final(self)@ == old(self)@,
//@entry
        proof { vx_ptr(key@); }
//@end
//@fn mutagenyx_lib/src/json.rs JSONMutate@Value::set_node_for_key 
//@spec
        ensures plain(key@) && old(self)@ is Obj ==> final(self)@ == old(self)@.set(key@, node@),
            plain(key@) && !(old(self)@ is Obj) && !(old(self)@ is Arr && numeric(key@)) ==> final(self)@ == old(self)@,
            old(self)@ is Obj ==> final(self)@ is Obj,
//@entry
        proof { vx_ptr(key@); }
//@end
//@fn mutagenyx_lib/src/json.rs JSONMutate@Value::set_node_for_key_at_index 
//@spec
        requires plain(key@), !(old(self)@ is Arr && numeric(key@)),
        ensures old(self)@.arr_at(key@) && index < old(self)@.arr(key@).len() ==>
                final(self)@ == old(self)@.set(key@, JV::Arr(old(self)@.arr(key@).update(index as int, node@))),
            !(old(self)@.arr_at(key@) && index < old(self)@.arr(key@).len()) ==> vx_same(final(self)@, old(self)@),
//@entry
        proof { vx_ptr(key@); }
//@end
//@fn mutagenyx_lib/src/json.rs JSONMutate@Value::push_node
//@spec
        ensures old(self)@ is Arr ==> final(self)@ == JV::Arr(old(self)@->Arr_0.push(node@)),
            !(old(self)@ is Arr) ==> final(self)@ == old(self)@,
//@after push 0 ?
        proof { assert(jvs(array@) =~= old(self)@->Arr_0.push(node@)); }
//@end
//@fn mutagenyx_lib/src/json.rs JSONMutate@Value::get_array_for_key 
//@ret r
//@spec
        requires plain(key@), !(self@ is Arr && numeric(key@)),
        ensures r is Some <==> self@.arr_at(key@), r is Some ==> jvs(r->0@) == self@.arr(key@),
//@entry
        proof { vx_ptr(key@); }
//@end
//@fn mutagenyx_lib/src/json.rs JSONMutate@Value::get_array_for_key_mut 
//@ret r
//@spec
        requires plain(key@), !(old(self)@ is Arr && numeric(key@)),
        ensures r is Some <==> old(self)@.arr_at(key@),
            r is Some ==> jvs((*(r->0))@) == old(self)@.arr(key@) && final(self)@ == old(self)@.set(key@, JV::Arr(jvs((*final(r->0))@))),
            r is None ==> vx_same(final(self)@, old(self)@),
//@entry
        proof { vx_ptr(key@); }
//@end
//@fn mutagenyx_lib/src/json.rs JSONMutate@Value::get_str_for_key 
//@ret r
//@spec
        requires plain(key@), !(self@ is Arr && numeric(key@)),
        ensures r is Some <==> self@.str_at(key@), r is Some ==> r->0@ == self@.str(key@),
//@entry
        proof { vx_ptr(key@); }
//@end
//@fn mutagenyx_lib/src/json.rs JSONMutate@Value::set_str_for_key 
//@spec
        requires plain(key@), !(old(self)@ is Arr && numeric(key@)),
        ensures old(self)@ is Obj ==> final(self)@ == old(self)@.set(key@, JV::Str(value@)),
            !(old(self)@ is Obj) ==> final(self)@ == old(self)@,
//@entry
        proof { vx_ptr(key@); }
//@end
//@fn mutagenyx_lib/src/json.rs JSONMutate@Value::get_bool_for_key 
//@ret r
//@spec
        requires plain(key@), !(self@ is Arr && numeric(key@)),
        ensures r is Some <==> self@.bool_at(key@), r is Some ==> r->0 == self@.bool(key@),
//@entry
        proof { vx_ptr(key@); }
//@end
//@fn mutagenyx_lib/src/json.rs JSONMutate@Value::get_int_for_key 
//@ret r
//@spec
        requires plain(key@), !(self@ is Arr && numeric(key@)),
        ensures r is Some <==> self@.int_at(key@), r is Some ==> r->0 as int == self@.int(key@),
//@entry
        proof { vx_ptr(key@); }
//@end
//@fn mutagenyx_lib/src/json.rs JSONMutate@Value::contains_key
//@ret r
//@spec
        ensures r == self@.has(key@),
//@end
}
// equality of JSON values up to extensional equality of the maps
pub open spec fn vx_same(a: JV, b: JV) -> bool { a == b }
