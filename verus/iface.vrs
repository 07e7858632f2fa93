// ---- json_ast_language_interface.rs ----
//@include lang_sem.vrs
pub trait MutableLanguage {
    spec fn lang(&self) -> Language;
//@include lang_tree.vrs
}
impl MutateASTResult {
//@fn mutagenyx_lib/src/language_interface.rs MutateASTResult::new props=C02
//@ret r
//@spec
    ensures r.ast is None, r.mutator_result.mutation_type is None, r.mutator_result.index is None,
//@end
}
//@item mutagenyx_lib/src/json_ast_language_interface.rs JSONLanguageInterface %% HashMap<MutationType, Box<dyn Mutator<Value>>> ==> MtMap<Box<dyn Mutator<AST>>>
#[verifier::external_body]
pub fn vx_box_mut<'a>(b: &'a mut Box<dyn Mutator<AST>>) -> (r: &'a mut (dyn Mutator<AST> + 'static))
    ensures r.typ() == old(b).typ(), r.mwf() == old(b).mwf(), final(b).typ() == final(r).typ(), final(b).mwf() == final(r).mwf(),
{ unimplemented!() }
pub open spec fn perms(p: Permissions) -> PF { |a: PV| p.allows(a) }
pub open spec fn names(d: Box<dyn JSONLanguageDelegate>) -> NF { |n: JV| d.d_name(n) }
pub open spec fn ids(d: Box<dyn JSONLanguageDelegate>) -> IF { |n: JV| d.d_id(n) }
pub open spec fn iters(r: Seq<(MT, u64)>, m: Map<MT, u64>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> m.dom().contains((#[trigger] r[i]).0) && m[r[i].0] == r[i].1
    &&& forall|k: MT| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == k
}
// the comment went in front of the statement with the mutated node (the node the algorithm names, or else the mutated node's own identifier), by its recorded path
pub open spec fn commented(d: Box<dyn JSONLanguageDelegate>, m: Map<u64, Seq<u64>>, t2: JV, n2: JV, id: Option<u64>, t3: JV) -> bool {
    let mid = if id is Some { id } else { d.d_id(n2) };
    exists|i: u64| #[trigger] placed_by(d, m, t2, i, t3) && (mid is Some ==> i == mid->0)
}
pub open spec fn placed_by(d: Box<dyn JSONLanguageDelegate>, m: Map<u64, Seq<u64>>, t2: JV, i: u64, t3: JV) -> bool {
    if m.dom().contains(i) { exists|c: JV| is_comment(c) && #[trigger] d.d_place(t2, c, m[i], t3) } else { t3 == t2 }
}
pub open spec fn made(s: Seq<Box<dyn Mutator<AST>>>, k: MT, n: int) -> bool { exists|j: int| 0 <= j < n && (#[trigger] s[j]).typ() == k }
impl JSONLanguageInterface {
//@fn mutagenyx_lib/src/json_ast_language_interface.rs JSONLanguageInterface::new props=C09
//@ret r
//@spec
    ensures r.iwf(), forall|t: MT| !#[trigger] r.has(t),
//@subst StrMap::new() ==> MtMap::new()
//@end
//@fn mutagenyx_lib/src/json_ast_language_interface.rs JSONLanguageInterface::recover_json_ast props=C02
//@ret r
//@spec
    ensures r is Ok <==> has_lang(self.delegate.lang(), *ast), r is Ok ==> r->Ok_0@ == sast(*ast),
//@end
}
pub open spec fn d_sem(d: Box<dyn JSONLanguageDelegate>) -> Sem {
    Sem {
        makes: |t: MT| d.d_makes(t),
        cands: |p: Permissions, t: MT, a: JV| cnt(perms(p), names(d), false, t, a),
        paths: |p: Permissions, a: JV| paths(perms(p), names(d), ids(d), Seq::empty(), a, Map::empty()),
        mutant: |p: Permissions, pm: Map<u64, Seq<u64>>, t: MT, a: JV, i: int, id: Option<u64>, a2: JV|
            exists|t2: JV, n: JV, n2: JV| #[trigger] mut_at(perms(p), names(d), false, t, a, i, t2, n, n2) && m_rel(t, n, n2, id) && commented(d, pm, t2, n2, id, a2),
    }
}
impl MutableLanguage for JSONLanguageInterface {
    closed spec fn lang(&self) -> Language { self.delegate.lang() }
    closed spec fn iwf(&self) -> bool { mus_ok(self.mutators@) }
    closed spec fn has(&self, t: MT) -> bool { self.mutators@.dom().contains(t) }
    closed spec fn sem(&self) -> Sem { d_sem(self.delegate) }
//@fn mutagenyx_lib/src/json_ast_language_interface.rs MutableLanguage@JSONLanguageInterface::select_mutators_for_mutation_types props=C09 loops=2
//@subst let mut vx_o0 = Vec::new() ==> let mut vx_o0: Vec<Box<dyn Mutator<Value>>> = Vec::new()
//@loop 0
            invariant
                vx_it0.seq().len() == mutation_types@.len(), forall|i: int| 0 <= i < mutation_types@.len() ==> *(#[trigger] vx_it0.seq()[i]) == mutation_types@[i],
                forall|t: MT| #[trigger] mutator_factory.makes(t) == self.delegate.d_makes(t),
                forall|j: int| 0 <= j < vx_o0@.len() ==> (#[trigger] vx_o0@[j]).mwf() && mutation_types@.contains(vx_o0@[j].typ()) && self.delegate.d_makes(vx_o0@[j].typ()),
                forall|i: int| 0 <= i < vx_it0.index() && self.delegate.d_makes(#[trigger] mutation_types@[i]) ==> made(vx_o0@, mutation_types@[i], vx_o0@.len() as int),
//@loopstart 0
                let ghost o1 = vx_o0@; let ghost t1 = *t;
//@loopend 0
                proof {
                    assert forall|k: MT| #[trigger] made(o1, k, o1.len() as int) implies made(vx_o0@, k, vx_o0@.len() as int) by {
                        let j = choose|j: int| 0 <= j < o1.len() && (#[trigger] o1[j]).typ() == k; assert(vx_o0@[j].typ() == k); }
                    if self.delegate.d_makes(t1) { assert(vx_o0@[o1.len() as int].typ() == t1); }
                }
//@beforeloop 1
        let ghost ms = mutators@;
        let ghost m0 = self.mutators@;
        let ghost d0 = self.delegate;
//@loop 1
            invariant
                vx_it1.seq() == ms, mus_ok(self.mutators@), self.delegate == d0,
                forall|j: int| 0 <= j < ms.len() ==> (#[trigger] ms[j]).mwf(),
                forall|k: MT| #[trigger] self.mutators@.dom().contains(k) <==> m0.dom().contains(k) || made(ms, k, vx_it1.index() as int),
//@loopstart 1
                let ghost j1 = vx_it1.index() as int; let ghost m1 = self.mutators@;
                proof { assert(mutator == ms[j1]); }
//@loopend 1
                proof {
                    assert(made(ms, ms[j1].typ(), j1 + 1));
                    assert forall|k: MT| #[trigger] self.mutators@.dom().contains(k) <==> m0.dom().contains(k) || made(ms, k, j1 + 1) by {
                        assert(self.mutators@.dom().contains(k) == (m1.dom().contains(k) || k == ms[j1].typ()));
                        if made(ms, k, j1) { let j = choose|j: int| 0 <= j < j1 && (#[trigger] ms[j]).typ() == k; assert(ms[j].typ() == k); assert(made(ms, k, j1 + 1)); }
                        if made(ms, k, j1 + 1) { let j = choose|j: int| 0 <= j < j1 + 1 && (#[trigger] ms[j]).typ() == k; if j < j1 { assert(made(ms, k, j1)); } }
                    }
                }
//@afterloop 1
        proof {
            assert forall|t: MT| #[trigger] self.has(t) == (old(self).has(t) || (mutation_types@.contains(t) && old(self).delegate.d_makes(t))) by {
                if mutation_types@.contains(t) && d0.d_makes(t) { let i = choose|i: int| 0 <= i < mutation_types@.len() && mutation_types@[i] == t; assert(made(ms, mutation_types@[i], ms.len() as int)); }
                if made(ms, t, ms.len() as int) { let j = choose|j: int| 0 <= j < ms.len() && (#[trigger] ms[j]).typ() == t; }
            }
        }
//@end
//@fn mutagenyx_lib/src/json_ast_language_interface.rs MutableLanguage@JSONLanguageInterface::count_mutable_nodes props=C01,C02 loops=1
//@subst HashMap<MutationType, usize> ==> MtMap<usize>
//@subst StrMap::new() ==> MtMap::new()
//@subst MutableNodesCounter<Value> ==> MutableNodesCounter
//@subst counter_visitor.counter_table ==> counter_visitor.counter_table.vx_into_vec()
//@subst ASTTraverser::traverse( ==> let vx_stop = ASTTraverser::traverse(
//@after new 0
        let ghost v0 = counter_visitor;
//@after traverse 0
        let ghost cv = counter_visitor; let ghost tb = cv.tab();
        proof {
            lemma_counter(v0, actual_ast@, vx_stop, counter_visitor);
            assert(pfn(v0.permitter) =~= perms(*permissions)); assert(nfn(v0.namer) =~= names(self.delegate));
        }
//@loop 0
        invariant
            iters(vx_it0.seq(), tb), forall|k: MT| #[trigger] node_map@.dom().contains(k) <==> exists|j: int| 0 <= j < vx_it0.index() && (#[trigger] vx_it0.seq()[j]).0 == k,
            forall|k: MT| #[trigger] node_map@.dom().contains(k) ==> node_map@[k] as int == count(tb, k) && tb.dom().contains(k),
//@loopstart 0
            let ghost j0 = vx_it0.index() as int; let ghost sq = vx_it0.seq(); let ghost n1 = node_map@;
            proof { assert(sq[j0].0 == key && sq[j0].1 == value); }
//@loopend 0
            proof {
                assert forall|k: MT| #[trigger] node_map@.dom().contains(k) <==> exists|j: int| 0 <= j < j0 + 1 && (#[trigger] sq[j]).0 == k by {
                    assert(node_map@.dom().contains(k) <==> n1.dom().contains(k) || k == key);
                    if exists|j: int| 0 <= j < j0 + 1 && (#[trigger] sq[j]).0 == k { let j = choose|j: int| 0 <= j < j0 + 1 && (#[trigger] sq[j]).0 == k; if j < j0 { assert(sq[j].0 == k); } }
                    if k == key { assert(sq[j0].0 == k); }
                    if n1.dom().contains(k) { let j = choose|j: int| 0 <= j < j0 && (#[trigger] sq[j]).0 == k; assert(sq[j].0 == k); }
                }
            }
//@afterloop 0
        proof {
            assert forall|t: MT| #[trigger] ucount(node_map@, t) == count(tb, t) by { if tb.dom().contains(t) { assert(node_map@.dom().contains(t)); } }
            assert forall|t: MT| #[trigger] ucount(node_map@, t) == (if old(self).has(t) { cnt(perms(*permissions), names(old(self).delegate), false, t, sast(*ast)) } else { 0 }) by {
                assert(v0.plus(cv, t, cnt(v0.pf(), v0.nf(), top(v0.stk()), t, actual_ast@)));
            }
        }
//@end
//@fn mutagenyx_lib/src/json_ast_language_interface.rs MutableLanguage@JSONLanguageInterface::mutate_ast props=C01,C02,C03
//@subst MutationMaker<Value> ==> MutationMaker
//@subst self.mutators.get_mut(mutation_type).unwrap().as_mut() ==> vx_box_mut(self.mutators.get_mut(mutation_type).unwrap())
//@subst ASTTraverser::traverse_mut( ==> let vx_stop = ASTTraverser::traverse_mut(
//@after new 0
        let ghost v0 = mutation_maker;
//@after traverse_mut 0
        let ghost cv = mutation_maker; let ghost t2 = mutated_ast@;
        proof {
            lemma_maker(v0, actual_ast@, mutated_ast@, vx_stop, mutation_maker);
            assert(pfn(v0.permitter) =~= perms(*permissions)); assert(nfn(v0.namer) =~= names(self.delegate));
        }
        let ghost p = perms(*permissions); let ghost nf = names(self.delegate); let ghost ty = *mutation_type; let ghost t = actual_ast@;
//@before new 1
        proof {
            if index < cnt(p, nf, false, ty, t) {
                let (n, n2) = choose|n: JV, n2: JV| #[trigger] mut_at(p, nf, false, ty, t, index as int, t2, n, n2) && cv.done(ty, n, n2);
                assert(placed_by(self.delegate, path_map@, t2, cv.mutated_node_id, sast(ast)));
                assert(commented(self.delegate, path_map@, t2, n2, cv.mutation_results.mutated_node_id, sast(ast)));
                assert(m_rel(ty, n, n2, cv.mutation_results.mutated_node_id));
            } else {
            }
        }
//@end
//@fn mutagenyx_lib/src/json_ast_language_interface.rs MutableLanguage@JSONLanguageInterface::calculate_node_paths props=C17
//@subst ASTTraverser::traverse( ==> let vx_stop = ASTTraverser::traverse(
//@after new 0
        let ghost v0 = path_visitor;
//@after traverse 0
        proof {
            lemma_pathv(v0, actual_ast@, vx_stop, path_visitor);
            assert(pfn(v0.permitter) =~= perms(*permissions)); assert(nfn(v0.namer) =~= names(self.delegate)); assert(idn(v0.id_maker) =~= ids(self.delegate));
        }
//@end
}
