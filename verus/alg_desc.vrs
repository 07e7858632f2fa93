//@item mutagenyx_lib/src/mutation.rs MutationAlgorithmDescription
//@fn mutagenyx_lib/src/mutation.rs all_algorithm_descriptions props=C09,C21
//@ret r
//@spec
    ensures forall|t: MT| #[trigger] r@.dom().contains(t), // [C09,C21]
//@subst HashMap<MutationType, MutationAlgorithmDescription> ==> MtMap<MutationAlgorithmDescription>
//@subst StrMap::new() ==> MtMap::new()
//@end
