use vstd::prelude::*;
verus! {
//@include prelude.vrs
//@include error.vrs
//@include mut_common.vrs
//@include names.vrs
//@include json_fns.vrs
//@include prefs.vrs
//@include paths.vrs
//@include effects.vrs
//@include config.vrs
/*@LITFNS@*/
/*@LITS@*/
}
fn main() {}
