use vstd::prelude::*;
verus! {
//@include prelude.vrs
//@include error.vrs
//@include mut_common.vrs
//@include core_mut.vrs
//@include mut_trait.vrs
//@include perm_fns.vrs
//@include json_fns.vrs
//@include tree_spec.vrs
//@include id_spec.vrs
//@include perm_traits.vrs
//@include delegate_trait.vrs
//@include id_fns.vrs
//@include place_trait.vrs
//@include com_sol.vrs
//@include deleg_common.vrs
//@include deleg_sol.vrs
/*@LITFNS@*/
/*@LITS@*/
}
fn main() {}
