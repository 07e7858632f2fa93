// ---- language_interface.rs: what a language does with trees ----
// the algorithms it has; the number of candidates; the paths to the nodes; whether a tree is the mutation of the index-th candidate, whose node has the given identifier
#[verifier::ext_equal]
pub struct Sem {
    pub makes: spec_fn(MT) -> bool,
    pub cands: spec_fn(Permissions, MT, JV) -> int,
    pub paths: spec_fn(Permissions, JV) -> Map<u64, Seq<u64>>,
    pub mutant: spec_fn(Permissions, Map<u64, Seq<u64>>, MT, JV, int, Option<u64>, JV) -> bool,
}
//@item mutagenyx_lib/src/language_interface.rs MutateASTResult
pub open spec fn ucount(m: Map<MT, usize>, k: MT) -> int { if m.dom().contains(k) { m[k] as int } else { 0 } }
