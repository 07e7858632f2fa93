use vstd::prelude::*;
verus! {
//@include prelude.vrs
//@include error.vrs
//@include mut_common.vrs
//@include core_mut.vrs
//@include mut_trait.vrs
//@include perm_fns.vrs
//@include tree_spec.vrs
//@include ast_fns.vrs
//@include id_spec.vrs
//@include perm_traits.vrs
//@include visit_trait.vrs
//@include ast_trav.vrs
//@include mv_fns.vrs
//@include tree_lemmas.vrs
//@include delegate_trait.vrs
//@include iface.vrs
/*@LITFNS@*/
/*@LITS@*/
}
fn main() {}
