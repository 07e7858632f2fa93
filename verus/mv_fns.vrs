// ---- mutation_visitor.rs ----
pub type PF = spec_fn(PV) -> bool;
pub type NF = spec_fn(JV) -> Option<Seq<char>>;
pub open spec fn pfn<'a>(p: Box<dyn Permit<AST> + 'a>) -> PF { |a: PV| p.grants(a) }
pub open spec fn nfn<'a>(p: Box<dyn Namer<AST> + 'a>) -> NF { |n: JV| p.name(n) }
pub open spec fn idn<'a>(p: Box<dyn Id<AST> + 'a>) -> IF { |n: JV| p.id(n) }
// may the node be visited; mutated on its own account; does it make everything beneath it mutable
pub open spec fn p_visit(p: PF, nm: Option<Seq<char>>) -> bool {
    match nm { Some(s) => p(PV { mutate: false, scope: SV::Name(OV::Value(s, true)) }), None => p(PV { mutate: false, scope: SV::Any(true) }) }
}
pub open spec fn p_mutate(p: PF, nm: Option<Seq<char>>) -> bool {
    match nm { Some(s) => p(PV { mutate: true, scope: SV::Name(OV::Value(s, true)) }), None => p(PV { mutate: true, scope: SV::Name(OV::Any(true)) }) }
}
pub open spec fn p_below(p: PF, nm: Option<Seq<char>>) -> bool {
    match nm { Some(s) => p(PV { mutate: true, scope: SV::Children(OV::Value(s, true)) }), None => p(PV { mutate: true, scope: SV::Children(OV::Any(true)) }) }
}
//@fn mutagenyx_lib/src/mutation_visitor.rs has_permission_to_visit props=C01
//@ret r
//@spec
    ensures r == p_visit(|a: PV| permitter.grants(a), namer.name(node@)), // [C01]
//@subst <AST>( ==> (
//@end
//@fn mutagenyx_lib/src/mutation_visitor.rs has_permission_to_mutate props=C01
//@ret r
//@spec
    ensures r == p_mutate(|a: PV| permitter.grants(a), namer.name(node@)), // [C01]
//@subst <AST>( ==> (
//@end
//@fn mutagenyx_lib/src/mutation_visitor.rs has_permission_to_mutate_children props=C01
//@ret r
//@spec
    ensures r == p_below(|a: PV| permitter.grants(a), namer.name(node@)), // [C01]
//@subst <AST>( ==> (
//@end
pub open spec fn top(s: Seq<bool>) -> bool { s.len() > 0 && s.last() }
//@fn mutagenyx_lib/src/mutation_visitor.rs skip_mutation_permission_check props=C01
//@ret r
//@spec
    ensures r == top(checks@), // [C01]
//@end
//@item mutagenyx_lib/src/mutation_visitor.rs PathVisitor %% <'a, AST> ==> <'a>
//@item mutagenyx_lib/src/mutation_visitor.rs MutableNodesCounter %% <'a, AST> ==> <'a> %% HashMap<MutationType, u64> ==> MtMap<u64> %% HashMap<MutationType, Box<dyn Mutator<AST>>> ==> MtMap<Box<dyn Mutator<AST>>>
//@item mutagenyx_lib/src/mutation_visitor.rs MutationMaker %% <'a, AST> ==> <'a>
impl<'a> PathVisitor<'a> {
    spec fn same(self, b: Self) -> bool { self.permitter == b.permitter && self.id_maker == b.id_maker && self.namer == b.namer }
    spec fn pf(self) -> PF { pfn(self.permitter) }
    spec fn nf(self) -> NF { nfn(self.namer) }
//@fn mutagenyx_lib/src/mutation_visitor.rs PathVisitor::new props=C17
//@ret r
//@spec
    ensures r.current_path@ == Seq::<u64>::empty(), r.path_map@ == Map::<u64, Seq<u64>>::empty(), r.permitter == permitter, r.id_maker == id_maker, r.namer == namer,
//@subst <'a, AST> ==> <'a>
//@end
}
impl<'a> Visitor<Value> for PathVisitor<'a> {
    closed spec fn vinv(&self) -> bool { true }
    #[verifier::prophetic]
    closed spec fn s_enter(a: Self, n: JV, b: Self) -> bool { a == b }
    closed spec fn s_permits(a: Self, n: JV) -> bool { p_visit(a.pf(), a.namer.name(n)) }
    #[verifier::prophetic]
    closed spec fn s_visit(a: Self, n: JV, stop: bool, b: Self) -> bool {
        !stop && a.same(b) && b.current_path@ == a.current_path@
        && b.path_map@ == (match a.id_maker.id(n) { Some(i) => a.path_map@.insert(i, a.current_path@.push(i)), None => a.path_map@ })
    }
    #[verifier::prophetic]
    closed spec fn s_children(a: Self, n: JV, go: bool, b: Self) -> bool { go && a == b }
    #[verifier::prophetic]
    closed spec fn s_start(a: Self, n: JV, b: Self) -> bool {
        a.same(b) && b.path_map@ == a.path_map@ && b.current_path@ == (match a.id_maker.id(n) { Some(i) => a.current_path@.push(i), None => a.current_path@ })
    }
    #[verifier::prophetic]
    closed spec fn s_end(a: Self, n: JV, b: Self) -> bool {
        a.same(b) && b.path_map@ == a.path_map@ && b.current_path@ == (if a.id_maker.id(n) is Some && a.current_path@.len() > 0 { a.current_path@.drop_last() } else { a.current_path@ })
    }
    #[verifier::prophetic]
    closed spec fn s_exit(a: Self, n: JV, b: Self) -> bool { a == b }
//@fn mutagenyx_lib/src/mutation_visitor.rs Visitor@PathVisitor::on_enter props=C17 default=mutagenyx_lib/src/visitor.rs:Visitor::on_enter
//@spec
//@subst &N ==> &Value
//@end
//@fn mutagenyx_lib/src/mutation_visitor.rs Visitor@PathVisitor::have_permission_to_visit props=C17 boxref
//@end
//@fn mutagenyx_lib/src/mutation_visitor.rs Visitor@PathVisitor::visit props=C17
//@end
//@fn mutagenyx_lib/src/mutation_visitor.rs Visitor@PathVisitor::visit_children props=C17 default=mutagenyx_lib/src/visitor.rs:Visitor::visit_children
//@subst &N ==> &Value
//@end
//@fn mutagenyx_lib/src/mutation_visitor.rs Visitor@PathVisitor::on_start_visit_children props=C17
//@end
//@fn mutagenyx_lib/src/mutation_visitor.rs Visitor@PathVisitor::on_end_visit_children props=C17
//@end
//@fn mutagenyx_lib/src/mutation_visitor.rs Visitor@PathVisitor::on_exit props=C17 default=mutagenyx_lib/src/visitor.rs:Visitor::on_exit
//@subst &N ==> &Value
//@end
}
pub type MuMap = Map<MT, Box<dyn Mutator<AST>>>;
pub open spec fn mus_ok(m: MuMap) -> bool { forall|k: MT| #[trigger] m.dom().contains(k) ==> m[k].mwf() && m[k].typ() == k }
pub open spec fn pos(m: Map<MT, u64>) -> bool { forall|k: MT| #[trigger] m.dom().contains(k) ==> m[k] > 0 }
pub open spec fn count(m: Map<MT, u64>, k: MT) -> int { if m.dom().contains(k) { m[k] as int } else { 0 } }
spec fn seen(c: Seq<(&MT, &mut Box<dyn Mutator<AST>>)>, n: int, k: MT) -> bool { exists|j: int| 0 <= j < n && *(#[trigger] c[j]).0 == k }
proof fn lemma_seen(c: Seq<(&MT, &mut Box<dyn Mutator<AST>>)>, n: int)
    requires 0 <= n < c.len(),
    ensures forall|k: MT| #[trigger] seen(c, n + 1, k) == (seen(c, n, k) || k == *c[n].0),
{}
impl<'a> MutableNodesCounter<'a> {
    // the same borrows, with the random state and the set of algorithms unchanged
    #[verifier::prophetic]
    spec fn same(self, b: Self) -> bool {
        self.permitter == b.permitter && self.namer == b.namer && *self.rng == *b.rng && self.mutator_map@.dom() == b.mutator_map@.dom()
        && *final(self.rng) == *final(b.rng) && *final(self.mutator_map) == *final(b.mutator_map)
    }
    spec fn pf(self) -> PF { pfn(self.permitter) }
    spec fn nf(self) -> NF { nfn(self.namer) }
    spec fn elig(self, n: JV) -> bool { top(self.skip_mutation_permission_checks@) || p_mutate(self.pf(), self.namer.name(n)) }
//@fn mutagenyx_lib/src/mutation_visitor.rs MutableNodesCounter::new props=C02
//@ret r
//@spec
    requires mus_ok(old(mutator_map)@),
    ensures r.vinv(), r.skip_mutation_permission_checks@ == Seq::<bool>::empty(), r.counter_table@ == Map::<MT, u64>::empty(), r.permitter == permitter, r.namer == namer,
        r.mutator_map@ == old(mutator_map)@, *r.rng == *old(rng), *final(r.rng) == *final(rng), *final(r.mutator_map) == *final(mutator_map),
//@subst <'a, AST> ==> <'a>
//@subst HashMap<MutationType, Box<dyn Mutator<AST>>> ==> MtMap<Box<dyn Mutator<AST>>>
//@subst StrMap::new() ==> MtMap::new()
//@end
}
impl<'a> Visitor<Value> for MutableNodesCounter<'a> {
    closed spec fn vinv(&self) -> bool { mus_ok(self.mutator_map@) && pos(self.counter_table@) }
    #[verifier::prophetic]
    closed spec fn s_enter(a: Self, n: JV, b: Self) -> bool { a == b }
    closed spec fn s_permits(a: Self, n: JV) -> bool { p_visit(a.pf(), a.namer.name(n)) }
    #[verifier::prophetic]
    closed spec fn s_visit(a: Self, n: JV, stop: bool, b: Self) -> bool {
        !stop && a.same(b) && b.skip_mutation_permission_checks@ == a.skip_mutation_permission_checks@
        && forall|k: MT| #[trigger] count(b.counter_table@, k) == count(a.counter_table@, k) + (if a.elig(n) && a.mutator_map@.dom().contains(k) && m_mutable(k, n) { 1int } else { 0 })
    }
    #[verifier::prophetic]
    closed spec fn s_children(a: Self, n: JV, go: bool, b: Self) -> bool { go && a == b }
    #[verifier::prophetic]
    closed spec fn s_start(a: Self, n: JV, b: Self) -> bool {
        a.same(b) && b.counter_table@ == a.counter_table@
        && b.skip_mutation_permission_checks@ == a.skip_mutation_permission_checks@.push(top(a.skip_mutation_permission_checks@) || p_below(a.pf(), a.namer.name(n)))
    }
    #[verifier::prophetic]
    closed spec fn s_end(a: Self, n: JV, b: Self) -> bool {
        a.same(b) && b.counter_table@ == a.counter_table@
        && (a.skip_mutation_permission_checks@.len() > 0 ==> b.skip_mutation_permission_checks@ == a.skip_mutation_permission_checks@.drop_last())
    }
    #[verifier::prophetic]
    closed spec fn s_exit(a: Self, n: JV, b: Self) -> bool { a == b }
//@fn mutagenyx_lib/src/mutation_visitor.rs Visitor@MutableNodesCounter::on_enter props=C02 default=mutagenyx_lib/src/visitor.rs:Visitor::on_enter
//@subst &N ==> &Value
//@end
//@fn mutagenyx_lib/src/mutation_visitor.rs Visitor@MutableNodesCounter::have_permission_to_visit props=C01,C02 boxref
//@end
//@fn mutagenyx_lib/src/mutation_visitor.rs Visitor@MutableNodesCounter::visit props=C01,C02 boxref mutvec0 loops=1
//@subst self.mutator_map.iter_mut() ==> self.mutator_map.vx_iter_mut()
//@entry
        let ghost el = self.elig(node@);
        let ghost m0 = self.mutator_map@;
        let ghost t0 = self.counter_table@;
        let ghost r0 = *self.rng;
//@loop 0
            invariant
                vx_v0@.len() == vx_c0.len(), 0 <= vx_k0 <= vx_v0@.len(), *self.rng == r0, pos(self.counter_table@),
                forall|j: int| 0 <= j < vx_c0.len() ==> *(#[trigger] vx_v0@[j]).0 == *vx_c0[j].0 && *final(vx_v0@[j].1) == *final(vx_c0[j].1),
                forall|j: int| 0 <= j < vx_c0.len() ==> (#[trigger] vx_v0@[j]).1.mwf() && vx_v0@[j].1.typ() == *vx_v0@[j].0,
                forall|i: int, j: int| 0 <= i < j < vx_c0.len() ==> *(#[trigger] vx_c0[i]).0 != *(#[trigger] vx_c0[j]).0,
                forall|k: MT| #[trigger] count(self.counter_table@, k) == count(t0, k) + (if m_mutable(k, node@) && seen(vx_c0, vx_k0 as int, k) { 1int } else { 0 }),
            decreases vx_v0@.len() - vx_k0,
//@loopstart 0
                let ghost i = (vx_k0 - 1) as int;
                let ghost t1 = self.counter_table@;
                proof { assert(*vx_s0[i].0 == *vx_c0[i].0); assert(key == vx_s0[i].0); lemma_seen(vx_c0, i); }
//@before unwrap 0
                        proof { ax_count(self.counter_table@[*key]); }
//@loopend 0
                proof {
                    assert(self.counter_table@ == (if m_mutable(*key, node@) { t1.insert(*key, (count(t1, *key) + 1) as u64) } else { t1 }));
                    assert(!seen(vx_c0, i, *key));
                    assert forall|k: MT| #[trigger] count(self.counter_table@, k) == count(t0, k) + (if m_mutable(k, node@) && seen(vx_c0, vx_k0 as int, k) { 1int } else { 0 }) by {
                        assert(count(t1, k) == count(t0, k) + (if m_mutable(k, node@) && seen(vx_c0, i, k) { 1int } else { 0 }));
                        assert(seen(vx_c0, i + 1, k) == (seen(vx_c0, i, k) || k == *key));
                    }
                }
//@afterloop 0
            proof {
                assert forall|k: MT| #[trigger] self.mutator_map@.dom().contains(k) implies self.mutator_map@[k].mwf() && self.mutator_map@[k].typ() == k by {
                    assert(m0.dom().contains(k));
                    let i = choose|i: int| 0 <= i < vx_c0.len() && *(#[trigger] vx_c0[i]).0 == k;
                    assert(has_resolved(vx_v0)); assert(has_resolved(vx_v0@[i])); assert(has_resolved(vx_v0@[i].1));
                    assert(*final(vx_v0@[i].1) == *final(vx_c0[i].1));
                }
                assert(forall|k: MT| #[trigger] seen(vx_c0, vx_c0.len() as int, k) <==> m0.dom().contains(k));
            }
//@end
//@fn mutagenyx_lib/src/mutation_visitor.rs Visitor@MutableNodesCounter::visit_children props=C01,C02 default=mutagenyx_lib/src/visitor.rs:Visitor::visit_children
//@subst &N ==> &Value
//@end
//@fn mutagenyx_lib/src/mutation_visitor.rs Visitor@MutableNodesCounter::on_start_visit_children props=C01,C02 boxref
//@end
//@fn mutagenyx_lib/src/mutation_visitor.rs Visitor@MutableNodesCounter::on_end_visit_children props=C01,C02
//@end
//@fn mutagenyx_lib/src/mutation_visitor.rs Visitor@MutableNodesCounter::on_exit props=C02 default=mutagenyx_lib/src/visitor.rs:Visitor::on_exit
//@subst &N ==> &Value
//@end
}
impl<'a> MutationMaker<'a> {
    #[verifier::prophetic]
    spec fn same(self, b: Self) -> bool {
        self.permitter == b.permitter && self.namer == b.namer && self.id_maker == b.id_maker && self.index == b.index && self.mutator.typ() == b.mutator.typ()
        && *final(self.rng) == *final(b.rng) && final(self.mutator).typ() == final(b.mutator).typ() && final(self.mutator).mwf() == final(b.mutator).mwf()
    }
    // nothing of what a mutation reports has changed
    spec fn quiet(self, b: Self) -> bool {
        self.mutation_results == b.mutation_results && self.error == b.error && self.mutator_comment == b.mutator_comment && self.mutated_node_id == b.mutated_node_id
            && *self.rng == *b.rng
    }
    spec fn pf(self) -> PF { pfn(self.permitter) }
    spec fn nf(self) -> NF { nfn(self.namer) }
    spec fn elig(self, n: JV) -> bool { (top(self.skip_mutation_permission_checks@) || p_mutate(self.pf(), self.namer.name(n))) && m_mutable(self.mutator.typ(), n) }
    // the outcome of a mutation
    spec fn done(self, t: MT, n: JV, n2: JV) -> bool {
        if self.error is Some { !m_sane(t, n) } else {
            m_rel(t, n, n2, self.mutation_results.mutated_node_id) && self.mutation_results.mutation_type == Some(t)
            && self.mutator_comment is Some && is_comment(self.mutator_comment->0@)
            && (self.mutation_results.mutated_node_id is Some ==> self.mutated_node_id == self.mutation_results.mutated_node_id->0)
            && (self.mutation_results.mutated_node_id is None && self.id_maker.id(n2) is Some ==> Some(self.mutated_node_id) == self.id_maker.id(n2))
        }
    }
//@fn mutagenyx_lib/src/mutation_visitor.rs MutationMaker::new props=C02
//@ret r
//@spec
    requires old(mutator).mwf(),
    ensures r.vinv(), r.skip_mutation_permission_checks@ == Seq::<bool>::empty(), r.permitter == permitter, r.namer == namer, r.id_maker == id_maker, r.index == index, r.current_index == 0,
        r.mutator.typ() == old(mutator).typ(), r.error is None, r.mutator_comment is None, r.mutation_results.mutation_type is None,
        *r.rng == *old(rng), *final(r.rng) == *final(rng), final(r.mutator).mwf() == final(mutator).mwf(), final(r.mutator).typ() == final(mutator).typ(),
//@subst <'a, AST> ==> <'a>
//@end
}
impl<'a> VisitorMut<Value> for MutationMaker<'a> {
    closed spec fn vinv(&self) -> bool { self.mutator.mwf() && self.current_index <= self.index }
    #[verifier::prophetic]
    closed spec fn s_enter(a: Self, n: JV, b: Self) -> bool { a == b }
    closed spec fn s_permits(a: Self, n: JV) -> bool { p_visit(a.pf(), a.namer.name(n)) }
    #[verifier::prophetic]
    closed spec fn s_visit(a: Self, n: JV, n2: JV, stop: bool, b: Self) -> bool {
        a.same(b) && b.skip_mutation_permission_checks@ == a.skip_mutation_permission_checks@
        && (if !a.elig(n) { !stop && n2 == n && a.quiet(b) && b.current_index == a.current_index }
            else if a.current_index != a.index { !stop && n2 == n && a.quiet(b) && b.current_index == a.current_index + 1 }
            else { stop && (a.error is None ==> b.done(a.mutator.typ(), n, n2)) })
    }
    #[verifier::prophetic]
    closed spec fn s_children(a: Self, n: JV, go: bool, b: Self) -> bool { go && a == b }
    #[verifier::prophetic]
    closed spec fn s_start(a: Self, n: JV, b: Self) -> bool {
        a.same(b) && a.quiet(b) && b.current_index == a.current_index
        && b.skip_mutation_permission_checks@ == a.skip_mutation_permission_checks@.push(top(a.skip_mutation_permission_checks@) || p_below(a.pf(), a.namer.name(n)))
    }
    #[verifier::prophetic]
    closed spec fn s_end(a: Self, n: JV, b: Self) -> bool {
        a.same(b) && a.quiet(b) && b.current_index == a.current_index
        && (a.skip_mutation_permission_checks@.len() > 0 ==> b.skip_mutation_permission_checks@ == a.skip_mutation_permission_checks@.drop_last())
    }
    #[verifier::prophetic]
    closed spec fn s_exit(a: Self, n: JV, n2: JV, b: Self) -> bool { a == b && n2 == n }
//@fn mutagenyx_lib/src/mutation_visitor.rs VisitorMut@MutationMaker::on_enter props=C02,C03 default=mutagenyx_lib/src/visitor.rs:VisitorMut::on_enter
//@subst mut N ==> mut Value
//@end
//@fn mutagenyx_lib/src/mutation_visitor.rs VisitorMut@MutationMaker::have_permission_to_visit props=C01,C02 boxref
//@end
//@fn mutagenyx_lib/src/mutation_visitor.rs VisitorMut@MutationMaker::visit_mut props=C01,C02,C03 boxref
//@end
//@fn mutagenyx_lib/src/mutation_visitor.rs VisitorMut@MutationMaker::visit_children props=C01,C02,C03 default=mutagenyx_lib/src/visitor.rs:VisitorMut::visit_children
//@subst mut N ==> mut Value
//@end
//@fn mutagenyx_lib/src/mutation_visitor.rs VisitorMut@MutationMaker::on_start_visit_children props=C01,C02 boxref
//@end
//@fn mutagenyx_lib/src/mutation_visitor.rs VisitorMut@MutationMaker::on_end_visit_children props=C01,C02
//@end
//@fn mutagenyx_lib/src/mutation_visitor.rs VisitorMut@MutationMaker::on_exit props=C02,C03 default=mutagenyx_lib/src/visitor.rs:VisitorMut::on_exit
//@subst mut N ==> mut Value
//@end
}
