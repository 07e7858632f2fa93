use vstd::prelude::*;
use std::cmp::Ordering;
verus! {
//@include prelude.vrs
//@include error.vrs
//@include json_fns.vrs
//@include mut_common.vrs
//@include mut_trait.vrs
//@include ops_fns.vrs
//@include vy_spec.vrs
//@include vy_common.vrs
//@include vy_muts.vrs
/*@LITFNS@*/
/*@LITS@*/
}
fn main() {}
