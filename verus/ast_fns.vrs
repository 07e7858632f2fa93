// ---- json_ast.rs: SimpleAST for Value ----
impl Value {
//@fn mutagenyx_lib/src/json_ast.rs SimpleAST@Value::get_node props=C16
//@ret r
//@spec
    ensures r@ == self@,
//@end
//@fn mutagenyx_lib/src/json_ast.rs SimpleAST@Value::get_node_mut props=C16
//@ret r
//@spec
    ensures *r == *old(self), *final(self) == *final(r),
//@end
//@fn mutagenyx_lib/src/json_ast.rs SimpleAST@Value::get_children props=C16 loops=2
//@ret r
//@spec
    ensures r@.len() == nkids(self@), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == kid(self@, i), // [C16]
//@subst &dyn SimpleAST<Value> ==> &Value
//@subst object.values() ==> object.vx_values()
//@loop 0
        invariant list@.len() == vx_it0.index(), object@ == self@->Obj_0, self@ is Obj, vx_it0.seq().len() == nkids(self@),
            forall|i: int| 0 <= i < nkids(self@) ==> (#[trigger] vx_it0.seq()[i])@ == kid(self@, i),
            forall|i: int| 0 <= i < list@.len() ==> (#[trigger] list@[i])@ == kid(self@, i),
//@loop 1
        invariant node_list@.len() == vx_it1.index(), jvs(array@) == self@->Arr_0, self@ is Arr, vx_it1.seq().len() == array@.len(),
            forall|i: int| 0 <= i < array@.len() ==> *(#[trigger] vx_it1.seq()[i]) == array@[i],
            forall|i: int| 0 <= i < node_list@.len() ==> (#[trigger] node_list@[i])@ == kid(self@, i),
//@loopstart 1
                proof { assert(jvs(array@)[vx_it1.index() as int] == array@[vx_it1.index() as int]@); }
//@end
//@fn mutagenyx_lib/src/json_ast.rs SimpleAST@Value::get_children_mut props=C16 loops=2
//@ret r
//@spec
    ensures r@.len() == nkids(old(self)@), same_shape(old(self)@, final(self)@),
        forall|i: int| 0 <= i < r@.len() ==> (*(#[trigger] r@[i]))@ == kid(old(self)@, i), // [C16]
        forall|i: int| 0 <= i < r@.len() ==> #[trigger] kid(final(self)@, i) == (*final(r@[i]))@, // [C16]
//@subst &mut dyn SimpleAST<Value> ==> &mut Value
//@subst for value in vx_it0: object.values_mut() ==> let vx_w = object.vx_values_mut(); let ghost vx_g = vx_w@; for value in vx_it0: vx_w
//@subst for value in vx_it1: array ==> let vx_w = vx_vec_iter_mut(array); let ghost vx_g = vx_w@; for value in vx_it1: vx_w
//@loop 0
        invariant list@.len() == vx_it0.index(), vx_it0.seq() == vx_g,
            forall|i: int| 0 <= i < list@.len() ==> *(#[trigger] list@[i]) == *vx_g[i], forall|i: int| 0 <= i < list@.len() ==> *final(#[trigger] list@[i]) == *final(vx_g[i]),
//@loop 1
        invariant list@.len() == vx_it1.index(), vx_it1.seq() == vx_g,
            forall|i: int| 0 <= i < list@.len() ==> *(#[trigger] list@[i]) == *vx_g[i], forall|i: int| 0 <= i < list@.len() ==> *final(#[trigger] list@[i]) == *final(vx_g[i]),
//@end
}
