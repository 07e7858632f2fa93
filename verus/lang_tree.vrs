    spec fn iwf(&self) -> bool;
    spec fn has(&self, t: MT) -> bool;
    spec fn sem(&self) -> Sem;
    fn select_mutators_for_mutation_types(&mut self, mutation_types: &[MutationType]) -> (r: Result<(), MutagenyxError>)
        requires old(self).iwf(),
        ensures final(self).iwf(), final(self).lang() == old(self).lang(), final(self).sem() == old(self).sem(), r is Ok,
            forall|t: MT| #[trigger] final(self).has(t) == (old(self).has(t) || (mutation_types@.contains(t) && (old(self).sem().makes)(t))), // [C09]
    ;
    fn count_mutable_nodes(&mut self, ast: &SuperAST, rng: &mut Pcg64, permissions: &Permissions) -> (r: Result<MtMap<usize>, MutagenyxError>)
        requires old(self).iwf(),
        ensures final(self).iwf(), final(self).lang() == old(self).lang(), final(self).sem() == old(self).sem(), r is Ok <==> has_lang(old(self).lang(), *ast),
            *final(rng) == *old(rng), // [C02]
            forall|t: MT| #[trigger] final(self).has(t) == old(self).has(t),
            // exactly the selected algorithms with candidates, with their numbers of candidates
            r is Ok ==> forall|t: MT| #[trigger] ucount(r->Ok_0@, t) == (if old(self).has(t) { (old(self).sem().cands)(*permissions, t, sast(*ast)) } else { 0 }), // [C01,C02]
            r is Ok ==> forall|t: MT| #[trigger] r->Ok_0@.dom().contains(t) ==> r->Ok_0@[t] > 0, // [C02]
    ;
    fn mutate_ast(&mut self, ast: &SuperAST, mutation_type: &MutationType, index: usize, rng: &mut Pcg64, permissions: &Permissions, path_map: &NodePathMap) -> (r: Result<MutateASTResult, MutagenyxError>)
        requires old(self).iwf(), old(self).has(*mutation_type),
        ensures final(self).iwf(), final(self).lang() == old(self).lang(), final(self).sem() == old(self).sem(), forall|t: MT| #[trigger] final(self).has(t) == old(self).has(t),
            r is Ok ==> has_lang(old(self).lang(), *ast) && r->Ok_0.ast is Some && has_lang(old(self).lang(), r->Ok_0.ast->0), // [C02]
            r is Ok ==> r->Ok_0.mutator_result.index == Some(index), // [C02]
            // an index past the end mutates nothing
            r is Ok && index >= (old(self).sem().cands)(*permissions, *mutation_type, sast(*ast)) ==>
                sast(r->Ok_0.ast->0) == sast(*ast) && r->Ok_0.mutator_result.mutation_type is None, // [C02,C03]
            // otherwise the index-th eligible node is replaced by what the algorithm makes of it, and a comment is placed by its path
            r is Ok && index < (old(self).sem().cands)(*permissions, *mutation_type, sast(*ast)) ==> r->Ok_0.mutator_result.mutation_type == Some(*mutation_type), // [C02]
            r is Ok && index < (old(self).sem().cands)(*permissions, *mutation_type, sast(*ast)) ==>
                (old(self).sem().mutant)(*permissions, path_map@, *mutation_type, sast(*ast), index as int, r->Ok_0.mutator_result.mutated_node_id, sast(r->Ok_0.ast->0)), // [C01,C02,C03]
    ;
    fn calculate_node_paths(&mut self, ast: &SuperAST, permissions: &Permissions) -> (r: Result<NodePathMap, MutagenyxError>)
        ensures &*final(self) == &*old(self), r is Ok <==> has_lang(old(self).lang(), *ast),
            r is Ok ==> r->Ok_0@ == (old(self).sem().paths)(*permissions, sast(*ast)), // [C17]
    ;
