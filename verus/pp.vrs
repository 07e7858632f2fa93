use vstd::prelude::*;
verus! {
//@include prelude.vrs
//@include error.vrs
//@include pp_text.vrs
//@include pp_item.vrs
//@include pp_st.vrs
//@include pp_fns.vrs
//@include pp_flow.vrs
/*@LITFNS@*/
/*@LITS@*/
}
fn main() {}
