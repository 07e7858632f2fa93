use vstd::prelude::*;
verus! {
//@include prelude.vrs
//@include error.vrs
//@include mut_common.vrs
//@include core_mut.vrs
//@include names.vrs assumed
//@include pp_item.vrs
//@include info_st.vrs
//@include info_pp.vrs assumed
//@include alg_desc.vrs assumed
//@include info_fns.vrs
/*@LITFNS@*/
/*@LITS@*/
}
fn main() {}
