use vstd::prelude::*;
verus! {
//@include prelude.vrs
//@include error.vrs
//@include json_fns.vrs
//@include mut_common.vrs
//@include mut_trait.vrs
//@include ops_fns.vrs
//@include sol_spec.vrs
//@include sol_common.vrs
//@include sol_muts.vrs
/*@LITFNS@*/
/*@LITS@*/
}
fn main() {}
