use vstd::prelude::*;
verus! {
//@include prelude.vrs
//@include error.vrs
//@include json_fns.vrs assumed
//@include prefs.vrs assumed
//@include np_json.vrs
//@include pp_item.vrs
//@include np_st.vrs
//@include np_pp.vrs assumed
//@include np_ops.vrs
//@include ppv_spec.vrs
//@include ppv_kind.vrs
//@include np_trait.vrs
//@include ppv_fns.vrs
//@include ppv_printers.vrs
//@include ppv_factory.vrs
/*@LITFNS@*/
/*@LITS@*/
}
fn main() {}
