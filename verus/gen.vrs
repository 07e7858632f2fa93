use vstd::prelude::*;
verus! {
//@include prelude.vrs
//@include error.vrs
//@include mut_common.vrs
//@include core_mut.vrs
//@include names.vrs assumed
//@include json_fns.vrs assumed
//@include prefs.vrs assumed
//@include paths.vrs assumed
//@include effects.vrs
//@include comp_fns.vrs assumed
//@include comp_deleg.vrs assumed
//@include config.vrs assumed
//@include perm_fns.vrs assumed
//@include rec_spec.vrs
//@include lang_sem.vrs
pub trait MutableLanguage {
    spec fn lang(&self) -> Language;
//@include lang_tree.vrs
//@include lang_file.vrs
}
//@include rec_main.vrs assumed
//@include gen_fns.vrs
//@include gen_mut.vrs
//@include gen_all.vrs
/*@LITFNS@*/
/*@LITS@*/
}
fn main() {}
