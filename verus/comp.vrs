use vstd::prelude::*;
verus! {
//@include prelude.vrs
//@include error.vrs
//@include mut_common.vrs
//@include names.vrs
//@include json_fns.vrs
//@include prefs.vrs
//@include paths.vrs
//@include effects.vrs
//@include comp_fns.vrs
//@include comp_deleg.vrs
//@item mutagenyx_lib/src/config_file.rs CONFIG_FILE_EXTENSION %% static ==> const %% &str ==> &'static str
//@item mutagenyx_lib/src/config_file.rs LANGUAGE_KEY %% static ==> const %% &str ==> &'static str
//@include rec_iface.vrs
//@include rec_main.vrs
/*@LITFNS@*/
/*@LITS@*/
}
fn main() {}
