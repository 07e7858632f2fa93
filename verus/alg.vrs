use vstd::prelude::*;
verus! {
//@include prelude.vrs
//@include error.vrs
//@include mut_common.vrs
//@include core_mut.vrs
//@include ops_fns.vrs assumed
//@include alg_desc.vrs
//@include alg_all.vrs
/*@LITFNS@*/
/*@LITS@*/
}
fn main() {}
