use vstd::prelude::*;
verus! {
//@include prelude.vrs
//@include error.vrs
//@include json_fns.vrs assumed
//@include prefs.vrs assumed
//@include np_json.vrs
//@include pp_item.vrs
//@include np_st.vrs
//@include np_pp.vrs assumed
//@include np_ops.vrs
//@include pps_spec.vrs
//@include pps_kind.vrs
//@include np_trait.vrs
//@include pps_fns.vrs
//@include pps_printers.vrs
//@include pps_factory.vrs
/*@LITFNS@*/
/*@LITS@*/
}
fn main() {}
