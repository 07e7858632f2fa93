use vstd::prelude::*;
verus! {
//@include prelude.vrs
//@include error.vrs
//@include json_fns.vrs
/*@LITS@*/
/*@LITFNS@*/
}
fn main() {}
