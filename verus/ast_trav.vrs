pub struct ASTTraverser {}
impl ASTTraverser {
//@fn mutagenyx_lib/src/ast.rs ASTTraverser::traverse props=C16 loops=1 attr=loop_isolation(false)
//@ret r
//@spec
    requires old(visitor).vinv(),
    ensures final(visitor).vinv(), trav(*old(visitor), tree_node@, r, *final(visitor)), // [C16]
    decreases tree_node@,
//@subst traverse<N, A: SimpleAST<N> + ?Sized, V: Visitor<N> + ?Sized> ==> traverse<V: Visitor<Value>>
//@subst tree_node: &A ==> tree_node: &Value
//@after on_enter 0
        let ghost va = *visitor;
//@before visit_children 0
            let ghost vc = *visitor;
//@before on_start_visit_children 0
            let ghost vd = *visitor;
//@after on_start_visit_children 0
            let ghost ve = *visitor;
//@loop 0
                invariant visitor.vinv(), vx_it0.seq().len() == nkids(tree_node@), node@ == tree_node@,
                    forall|i: int| 0 <= i < vx_it0.seq().len() ==> (#[trigger] vx_it0.seq()[i])@ == kid(tree_node@, i),
                    forall|st: bool, f: V| #[trigger] travs(*visitor, tree_node@, vx_it0.index() as int, st, f) ==> travs(ve, tree_node@, 0, st, f),
//@loopstart 0
                    proof { lemma_kid_smaller(tree_node@, vx_it0.index() as int); }
                    let ghost vm = *visitor;
//@after traverse 0
                    proof {
                        let i = vx_it0.index() as int;
                        assert(trav(vm, kid(tree_node@, i), should_stop, *visitor));
                        assert(0 <= i < nkids(tree_node@));
                        if should_stop { assert(travs(vm, tree_node@, i, true, *visitor)); }
                        else {
                            assert forall|st: bool, f: V| #[trigger] travs(*visitor, tree_node@, i + 1, st, f) implies travs(ve, tree_node@, 0, st, f) by { lemma_travs_step(vm, tree_node@, i, *visitor, st, f); assert(travs(vm, tree_node@, i, st, f)); }
                        }
                    }
//@afterloop 0
                proof { assert(travs(*visitor, tree_node@, nkids(tree_node@) as int, false, *visitor)); }
//@end
//@fn mutagenyx_lib/src/ast.rs ASTTraverser::traverse_mut props=C16,C03 loops=1 mutvec0 attr=loop_isolation(false) attr=allow_complex_invariants
//@ret r
//@spec
    requires old(visitor).vinv(),
    ensures final(visitor).vinv(), travm(*old(visitor), old(tree_node)@, final(tree_node)@, r, *final(visitor)), // [C16,C03]
    decreases old(tree_node)@,
//@subst traverse_mut<N, A: SimpleAST<N> + ?Sized, V: VisitorMut<N> + ?Sized> ==> traverse_mut<V: VisitorMut<Value>>
//@subst tree_node: &mut A ==> tree_node: &mut Value
//@entry
        let ghost t = tree_node@;
//@after on_enter 0
        let ghost va = *visitor;
//@before visit_children 0
            let ghost vc = *visitor;
//@before on_start_visit_children 0
            let ghost vd = *visitor;
//@after on_start_visit_children 0
            let ghost ve = *visitor;
            let ghost mut ks: Seq<JV> = Seq::empty();
//@loop 0
                invariant_except_break
                    forall|y: JV, st: bool, f: V| agrees(y, ks) && #[trigger] travms(*visitor, t, y, vx_k0 as int, st, f) ==> travms(ve, t, y, 0, st, f),
                    !should_stop,
                invariant
                    visitor.vinv(), vx_v0@.len() == nkids(t), 0 <= vx_k0 <= vx_v0@.len(), vx_c0.len() == nkids(t), ks.len() == vx_k0,
                    forall|j: int| 0 <= j < vx_k0 ==> (*(#[trigger] vx_v0@[j]))@ == ks[j],
                    forall|j: int| vx_k0 <= j < nkids(t) ==> (*(#[trigger] vx_v0@[j]))@ == kid(t, j),
                    forall|j: int| 0 <= j < nkids(t) ==> *final(#[trigger] vx_v0@[j]) == *final(vx_c0[j]),
                ensures
                    forall|y: JV| agrees(y, ks) && (forall|j: int| vx_k0 <= j < nkids(t) ==> #[trigger] kid(y, j) == kid(t, j)) ==> #[trigger] travms(ve, t, y, 0, should_stop, *visitor),
                decreases nkids(t) - vx_k0,
//@loopstart 0
                    let ghost i = (vx_k0 - 1) as int;
                    let ghost vm = *visitor;
                    let ghost ks0 = ks;
                    proof { lemma_kid_smaller(t, i); }
//@after traverse_mut 0
                    proof {
                        ks = ks.push((*vx_v0@[i])@);
                        if should_stop {
                            assert forall|y: JV| agrees(y, ks) && (forall|j: int| vx_k0 <= j < nkids(t) ==> #[trigger] kid(y, j) == kid(t, j)) implies #[trigger] travms(ve, t, y, 0, true, *visitor) by {
                                assert(kid(y, i) == ks[i]); assert(agrees(y, ks0)) by { assert forall|j: int| 0 <= j < ks0.len() implies #[trigger] kid(y, j) == ks0[j] by { assert(ks[j] == ks0[j]); } }
                                assert(travms(vm, t, y, i, true, *visitor));
                            }
                        } else {
                            assert forall|y: JV, st: bool, f: V| agrees(y, ks) && #[trigger] travms(*visitor, t, y, i + 1, st, f) implies travms(ve, t, y, 0, st, f) by {
                                assert(kid(y, i) == ks[i]); assert(agrees(y, ks0)) by { assert forall|j: int| 0 <= j < ks0.len() implies #[trigger] kid(y, j) == ks0[j] by { assert(ks[j] == ks0[j]); } }
                                lemma_travms_step(vm, t, y, i, *visitor, st, f); assert(travms(vm, t, y, i, st, f));
                            }
                        }
                    }
//@afterloop 0
                proof {
                    assert forall|y: JV| agrees(y, ks) && (forall|j: int| vx_k0 <= j < nkids(t) ==> #[trigger] kid(y, j) == kid(t, j)) implies #[trigger] travms(ve, t, y, 0, should_stop, *visitor) by {
                        if !should_stop { assert(travms(*visitor, t, y, vx_k0 as int, false, *visitor)); }
                    }
                }
                let ghost y = tree_node@;
                proof {
                    assert forall|j: int| 0 <= j < nkids(t) implies #[trigger] kid(y, j) == (*vx_v0@[j])@ by { assert(*final(vx_v0@[j]) == *final(vx_c0[j])); }
                    assert(agrees(y, ks));
                    assert forall|j: int| vx_k0 <= j < nkids(t) implies #[trigger] kid(y, j) == kid(t, j) by { assert((*vx_v0@[j])@ == kid(t, j)); }
                    assert(travms(ve, t, y, 0, should_stop, *visitor));
                }
//@end
}
