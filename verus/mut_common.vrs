// ---- shared by all mutator units ----
//@item mutagenyx_lib/src/mutation.rs GenericMutation |#[derive(Clone, Copy, PartialEq, Eq)]
//@item mutagenyx_lib/src/mutation.rs SolidityMutation |#[derive(Clone, Copy, PartialEq, Eq)]
//@item mutagenyx_lib/src/mutation.rs MutationType |#[derive(Clone, Copy, PartialEq, Eq)]
//@item mutagenyx_lib/src/mutator_result.rs MutatorResult
impl MutatorResult {
//@fn mutagenyx_lib/src/mutator_result.rs MutatorResult::new
//@ret r
//@spec
        ensures r.mutation_type is None, r.index is None, r.mutated_node_id is None,
//@end
}
