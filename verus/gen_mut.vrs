// ---- mutate: one file ----
//@item mutagenyx/src/generator_parameters.rs GeneratorParameters
// what the language object of a language does with trees
pub uninterp spec fn lang_sem(l: Language) -> Sem;
// the new object has no algorithm selected yet (unit core: JSONLanguageInterface::new; the language itself: unit comp)
#[verifier::external_body]
pub fn vx_language_object(language: &Language) -> (r: Result<Box<dyn MutableLanguage>, MutagenyxError>)
    ensures r is Ok, r->Ok_0.lang() == *language, r->Ok_0.iwf(), r->Ok_0.sem() == lang_sem(*language), forall|t: MT| !#[trigger] r->Ok_0.has(t),
{ unimplemented!() }
// std::path: the last part of a joined path
pub axiom fn ax_joined_name(d: Seq<char>, n: Seq<char>)
    requires no_sep(n), n.len() > 2,
    ensures base_of(joined(d, n)) == Some(n);
pub axiom fn ax_base_sep(x: Seq<char>)
    ensures base_of(x) is Some ==> no_sep(base_of(x)->0);
// ---- std::collections ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VecDeque<T> { _p: std::marker::PhantomData<T> }
impl<T> View for VecDeque<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> VecDeque<T> {
    #[verifier::external_body]
    pub fn new() -> (r: VecDeque<T>) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push_back(&mut self, t: T) ensures final(self)@ == old(self)@.push(t) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<&T>) ensures r is Some <==> i < self@.len(), r is Some ==> *(r->0) == self@[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn front(&self) -> (r: Option<&T>) ensures r is Some <==> 0 < self@.len(), r is Some ==> *(r->0) == self@[0] { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, i: usize) -> (r: Option<T>)
        ensures i < old(self)@.len() ==> final(self)@ == old(self)@.remove(i as int), i >= old(self)@.len() ==> final(self)@ == old(self)@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures 0 < old(self)@.len() ==> final(self)@ == old(self)@.remove(0), 0 == old(self)@.len() ==> final(self)@ == old(self)@
    { unimplemented!() }
}
impl<V> MtMap<V> {
    #[verifier::external_body]
    pub fn get(&self, k: &MT) -> (r: Option<&V>) ensures r is Some <==> self@.dom().contains(*k), r is Some ==> *(r->0) == self@[*k] { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom() =~= Set::<MT>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Vec<(&MT, &V)>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> self@.dom().contains(*(#[trigger] r@[i]).0) && self@[*r@[i].0] == *r@[i].1,
            forall|k: MT| #[trigger] self@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]).0 == k,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> *(#[trigger] r@[i]).0 != *(#[trigger] r@[j]).0,
    { unimplemented!() }
    // the values, in an arbitrary order of the keys
    #[verifier::external_body]
    pub fn values(&self) -> (r: Vec<&V>)
        ensures keys_of(key_seq(self@), self@), r@.len() == key_seq(self@).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self@[key_seq(self@)[i]],
    { unimplemented!() }
}
pub uninterp spec fn key_seq<V>(m: Map<MT, V>) -> Seq<MT>;
pub open spec fn keys_of<V>(ks: Seq<MT>, m: Map<MT, V>) -> bool {
    ks.no_duplicates() && forall|k: MT| #[trigger] ks.contains(k) <==> m.dom().contains(k)
}
pub uninterp spec fn rng_of(seed: u64) -> Pcg64;
impl Pcg64 {
    #[verifier::external_body]
    pub fn seed_from_u64(seed: u64) -> (r: Pcg64) ensures r == rng_of(seed) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Pcg64) ensures r == *self { unimplemented!() }
}
// derived equality of results
pub open spec fn same_result(a: MutatorResult, b: MutatorResult) -> bool {
    a.mutation_type == b.mutation_type && a.index == b.index && a.mutated_node_id == b.mutated_node_id && ostr(a.random_behavior_hash) == ostr(b.random_behavior_hash)
}
#[verifier::external_body]
pub fn vx_seen(v: &Vec<MutatorResult>, x: &MutatorResult) -> (r: bool) ensures r == exists|i: int| 0 <= i < v@.len() && same_result(#[trigger] v@[i], *x) { unimplemented!() }
// String::rfind and String::drain: the bytes in front of the last occurrence
pub uninterp spec fn byte_ix(s: Seq<char>, i: int) -> int;
pub open spec fn last_ix(s: Seq<char>, c: char) -> int
    decreases s.len(),
{ if s.len() == 0 { -1 } else if s.last() == c { s.len() - 1 } else { last_ix(s.drop_last(), c) } }
#[verifier::external_body]
pub fn vx_rfind(s: &String, c: char) -> (r: Option<usize>) ensures r is Some <==> last_ix(s@, c) >= 0, r is Some ==> r->0 as int == byte_ix(s@, last_ix(s@, c)) && last_ix(s@, c) < s@.len() && (r->0 == 0 <==> last_ix(s@, c) == 0) { unimplemented!() }
#[verifier::external_body]
pub fn vx_drain(s: &mut String, n: usize) -> (r: String)
    requires exists|i: int| 0 <= i <= old(s)@.len() && n as int == #[trigger] byte_ix(old(s)@, i),
    ensures forall|i: int| 0 <= i <= old(s)@.len() && n as int == #[trigger] byte_ix(old(s)@, i) ==> r@ == old(s)@.take(i),
{ unimplemented!() }
pub open spec fn stem(b: Seq<char>) -> Seq<char> { if last_ix(b, '.') > 0 { b.take(last_ix(b, '.')) } else { b } }
// ---- what one run over a file makes ----
pub open spec fn mutant_base(f: Seq<char>, k: int) -> Seq<char> { base_of(f)->0 + ("_"@ + dec(k)) }
// the k-th mutant of the file f in the directory d
pub open spec fn mutant_path(l: Language, f: Seq<char>, d: Seq<char>, k: int) -> Seq<char> { joined(d, mutant_base(f, k) + dot_ext(l)) }
pub open spec fn conf_path(f: Seq<char>, d: Seq<char>) -> Seq<char> { joined(d, stem(base_of(f)->0) + ("."@ + "mgnx"@)) }
pub proof fn lemma_mutant_path(l: Language, f: Seq<char>, d: Seq<char>, k: int)
    requires base_of(f) is Some,
    ensures base_of(joined(d, mutant_base(f, k))) == Some(mutant_base(f, k)), out_path(l, joined(d, mutant_base(f, k)), d) == mutant_path(l, f, d, k),
{
    lits(); reveal_strlit("."); reveal_strlit("sol"); reveal_strlit("vy"); reveal_strlit(""); reveal_strlit("_");
    ax_digits(k);
    let s = "_"@ + dec(k); let e = dot_ext(l); let n = mutant_base(f, k); let p = joined(d, n);
    assert forall|i: int| 0 <= i < s.len() implies s[i] != '/' by { if i > 0 { assert(s[i] == dec(k)[i - 1]); } }
    ax_joined_base(f, d, s); ax_joined_ends(f, d, s);
    assert(n.last() == dec(k).last());
    assert(p.last() == p.skip(p.len() - n.len()).last());
    if ends(p, e) { assert(p.skip(p.len() - e.len()).last() == e.last()); assert(false); }
    assert(out_name(l, p) == n + e);
}
pub proof fn lemma_conf_path(f: Seq<char>, d: Seq<char>)
    requires base_of(f) is Some,
    ensures base_of(conf_path(f, d)) is Some,
{
    lits(); reveal_strlit("."); reveal_strlit("mgnx"); ax_base_sep(f);
    let b = base_of(f)->0; let n = stem(b) + ("."@ + "mgnx"@);
    lemma_last_ix(b, '.');
    assert forall|i: int| 0 <= i < n.len() implies n[i] != '/' by { if i < stem(b).len() { assert(n[i] == b[i]); assert(b.contains(b[i])); } }
    ax_joined_name(d, n);
}
pub proof fn lemma_last_ix(s: Seq<char>, c: char) ensures -1 <= last_ix(s, c) < s.len() decreases s.len() { if s.len() > 0 && s.last() != c { lemma_last_ix(s.drop_last(), c); } }
// j is a mutation of the program in the file by one of the requested algorithms in the requested functions
pub open spec fn mutation(g: GeneratorParameters, l: Language, a: JV, p: Permissions, t: MT, i: int, id: Option<u64>, j: JV) -> bool {
    &&& tree_of(g.preferences, g.file_name@, l, a)
    &&& fn_perms(strv(g.functions@), p)
    &&& g.mutations@.contains(t) && (lang_sem(l).makes)(t)
    &&& 0 <= i < (lang_sem(l).cands)(p, t, a)
    &&& (lang_sem(l).mutant)(p, (lang_sem(l).paths)(p, a), t, a, i, id, j)
}
pub open spec fn mutant_of(g: GeneratorParameters, l: Language, r: MutatorResult, j: JV) -> bool {
    r.mutation_type is Some && r.index is Some
        && exists|a: JV, p: Permissions| #[trigger] mutation(g, l, a, p, r.mutation_type->0, r.index->0 as int, r.mutated_node_id, j)
}
pub proof fn lemma_mutant_of(g: GeneratorParameters, l: Language, a: JV, p: Permissions, r: MutatorResult, t: MT, i: usize, j: JV)
    requires r.mutation_type == Some(t), r.index == Some(i), mutation(g, l, a, p, t, i as int, r.mutated_node_id, j),
    ensures mutant_of(g, l, r, j),
{ assert(mutation(g, l, a, p, r.mutation_type->0, r.index->0 as int, r.mutated_node_id, j)); }
// the compiler took the printed mutant
pub open spec fn compiled(g: GeneratorParameters, l: Language, j: JV) -> bool {
    let q = joined(own_dir(), base_of(g.file_name@)->0);
    put(q, l, j) && may_compile(l, g.preferences, q)
}
pub open spec fn viable(g: GeneratorParameters, l: Language, r: MutatorResult, j: JV) -> bool { mutant_of(g, l, r, j) && (g.verify_mutant_viability ==> compiled(g, l, j)) }
// what it may write
pub open spec fn may_mutate(g: GeneratorParameters) -> bool {
    &&& base_of(g.file_name@) is Some
    &&& g.print_original && !g.use_stdout ==> may_copy(g.preferences, g.file_name@, g.output_directory@)
    &&& !g.use_stdout ==> forall|l: Language, r: MutatorResult, j: JV, k: int| #[trigger] viable(g, l, r, j) && 0 <= k < g.number_of_mutants ==>
        may_put(#[trigger] mutant_path(l, g.file_name@, g.output_directory@, k), l, j)
    &&& g.save_configuration_file && !g.use_stdout ==> may_save(conf_path(g.file_name@, g.output_directory@))
    // a tree has fewer than 2^64 candidates in all
    &&& forall|l: Language, a: JV, p: Permissions, ks: Seq<MT>| #[trigger] tree_of(g.preferences, g.file_name@, l, a) && ks.no_duplicates() ==> #[trigger] all_cands(l, p, a, ks) <= usize::MAX
}
pub open spec fn all_cands(l: Language, p: Permissions, a: JV, ks: Seq<MT>) -> int
    decreases ks.len(),
{ if ks.len() == 0 { 0 } else { all_cands(l, p, a, ks.drop_last()) + (lang_sem(l).cands)(p, ks.last(), a) } }
// algorithm t is requested and has candidates
pub open spec fn wanted(g: GeneratorParameters, l: Language, p: Permissions, a: JV, t: MT) -> bool { g.mutations@.contains(t) && (lang_sem(l).makes)(t) && (lang_sem(l).cands)(p, t, a) > 0 }
// n is at least the number of candidates of all requested algorithms together
pub open spec fn enough(g: GeneratorParameters, l: Language, n: int) -> bool {
    exists|a: JV, p: Permissions, ks: Seq<MT>| #[trigger] tree_of(g.preferences, g.file_name@, l, a) && #[trigger] fn_perms(strv(g.functions@), p) && ks.no_duplicates() && (forall|t: MT| #[trigger] wanted(g, l, p, a, t) ==> ks.contains(t)) && n >= #[trigger] all_cands(l, p, a, ks)
}
pub open spec fn type_list<V>(m: Map<MT, V>) -> Seq<MT> { sorted_of(key_seq(m).to_multiset()) }
// there is a list of the keys of a map (maps of the program are finite)
pub broadcast axiom fn ax_key_seq(m: Map<MT, usize>) ensures #[trigger] keys_of(key_seq(m), m);
pub proof fn lemma_same_keys(tb: Map<MT, usize>, o: Seq<MT>)
    requires keys_of(o, tb),
    ensures o.to_multiset() == key_seq(tb).to_multiset(),
{
    ax_key_seq(tb);
    let k = key_seq(tb);
    assert forall|t: MT| o.to_multiset().count(t) == k.to_multiset().count(t) by {
        o.to_multiset_ensures(); k.to_multiset_ensures(); o.lemma_multiset_has_no_duplicates(); k.lemma_multiset_has_no_duplicates();
        assert(o.contains(t) == k.contains(t));
    }
    assert(o.to_multiset() =~= k.to_multiset());
}
pub proof fn lemma_all_cands(l: Language, p: Permissions, a: JV, ks: Seq<MT>, i: int)
    requires 0 <= i < ks.len(),
    ensures all_cands(l, p, a, ks.take(i + 1)) == all_cands(l, p, a, ks.take(i)) + (lang_sem(l).cands)(p, ks[i], a),
{ assert(ks.take(i + 1).drop_last() =~= ks.take(i)); }
// the number of mutants by an algorithm
pub open spec fn times(o: Seq<MT>, t: MT) -> int
    decreases o.len(),
{ if o.len() == 0 { 0 } else { times(o.drop_last(), t) + if o.last() == t { 1int } else { 0int } } }
pub proof fn lemma_times_nonneg(o: Seq<MT>, t: MT) ensures times(o, t) >= 0 decreases o.len() { if o.len() > 0 { lemma_times_nonneg(o.drop_last(), t); } }
pub proof fn lemma_times_push(o: Seq<MT>, x: MT, t: MT) ensures times(o.push(x), t) == times(o, t) + if x == t { 1int } else { 0int } {
    assert(o.push(x).drop_last() =~= o);
}
pub proof fn lemma_times_remove(o: Seq<MT>, t: MT)
    requires o.len() > 0,
    ensures times(o, t) == times(o.remove(0), t) + if o[0] == t { 1int } else { 0int },
    decreases o.len(),
{
    let d = o.drop_last();
    let q = o.remove(0);
    if o.len() == 1 { assert(times(d, t) == 0); assert(times(q, t) == 0); }
    else { lemma_times_remove(d, t); assert(q.drop_last() =~= d.remove(0)); assert(q.last() == o.last()); assert(times(q, t) == times(q.drop_last(), t) + if q.last() == t { 1int } else { 0int }); }
}
pub open spec fn but_rng(a: GeneratorParameters, b: GeneratorParameters) -> bool {
    &&& a.file_name@ == b.file_name@ && a.number_of_mutants == b.number_of_mutants && a.rng_seed == b.rng_seed && a.output_directory@ == b.output_directory@ && a.use_stdout == b.use_stdout
    &&& a.mutations@ == b.mutations@ && a.verify_mutant_viability == b.verify_mutant_viability && a.print_original == b.print_original
    &&& a.save_configuration_file == b.save_configuration_file && a.preferences == b.preferences && strv(a.functions@) == strv(b.functions@)
}
// the k-th mutant is where it belongs
pub open spec fn made_mutant(g: GeneratorParameters, l: Language, k: int, r: MutatorResult, j: JV) -> bool {
    viable(g, l, r, j) && if g.use_stdout { shown(l, j) } else { put(mutant_path(l, g.file_name@, g.output_directory@, k), l, j) }
}
pub open spec fn distinct(o: Seq<MutatorResult>) -> bool { forall|i: int, j: int| 0 <= i < j < o.len() ==> !same_result(#[trigger] o[i], #[trigger] o[j]) }
pub open spec fn types(o: Seq<MutatorResult>) -> Seq<MT> { o.map_values(|r: MutatorResult| r.mutation_type->0) }
// no algorithm is used more often than it has candidates
pub open spec fn in_budget(g: GeneratorParameters, l: Language, o: Seq<MutatorResult>) -> bool {
    exists|a: JV, p: Permissions| #[trigger] tree_of(g.preferences, g.file_name@, l, a) && #[trigger] fn_perms(strv(g.functions@), p)
        && forall|t: MT| #[trigger] times(types(o), t) <= (lang_sem(l).cands)(p, t, a) || times(types(o), t) == 0
}
pub open spec fn mutants_made(g: GeneratorParameters, l: Language, o: Seq<MutatorResult>, js: Seq<JV>) -> bool {
    &&& in_budget(g, l, o)
    &&& o.len() == js.len()
    &&& o.len() <= g.number_of_mutants
    &&& distinct(o)
    &&& forall|k: int| 0 <= k < o.len() ==> #[trigger] made_mutant(g, l, k, o[k], js[k])
}
pub open spec fn original_made(g: GeneratorParameters) -> bool {
    if g.use_stdout { copy_shown(g.preferences, g.file_name@) } else { copied(g.preferences, g.file_name@, g.output_directory@) }
}
// the configuration that repeats the run
pub open spec fn repeats(g: GeneratorParameters, l: Language, d: ConfigurationFileDetails) -> bool {
    &&& conf(d) == (Conf { language: Some(l), filenames: seq![g.file_name@], number: g.number_of_mutants as i64, seed: Some(g.rng_seed), mutations: g.mutations@, all: false,
            functions: strv(g.functions@), verify: g.verify_mutant_viability, outdir: Some(g.output_directory@), original: g.print_original })
    &&& got_map(g.preferences.map@, "compiler-details"@) is None && got_map(g.preferences.map@, lang_name(l)) is Some ==>
        (match d.compiler_details { Some(c) => Some(c.map@), None => None }) == got_map(got_map(g.preferences.map@, lang_name(l))->0, "compiler"@)
}
pub open spec fn conf_made(g: GeneratorParameters) -> bool {
    exists|l: Language, d: ConfigurationFileDetails, j: JV| #[trigger] repeats(g, l, d) && #[trigger] says(d, j) && if g.use_stdout { json_shown(j) } else { saved(conf_path(g.file_name@, g.output_directory@), j) }
}
pub open spec fn file_done(g: GeneratorParameters) -> bool {
    &&& exists|l: Language, o: Seq<MutatorResult>, js: Seq<JV>| #[trigger] mutants_made(g, l, o, js)
    &&& g.print_original ==> original_made(g)
    &&& g.save_configuration_file ==> conf_made(g)
}
//@item mutagenyx/src/mutation_generator.rs ATTEMPTS_TO_GENERATE_A_MUTANT %% static ==> const
//@fn mutagenyx/src/mutation_generator.rs generate_mutations props=C01,C11,C12,C13,C19 attr=exec_allows_no_decreases_clause loops=6 exactfmt
//@ret r
//@spec
    requires may_mutate(*old(params)),
    ensures r is Ok ==> file_done(*old(params)), // [C11,C12,C19]
//@subst LanguageInterface::get_language_object_for_language( ==> vx_language_object(
//@subst std::io::stdout() ==> vx_stdout()
//@subst HashMap<MutationType, (usize, usize, bool)> = StrMap::new() ==> MtMap<(usize, usize, bool)> = MtMap::new()
//@subst base_file_name.rfind('.') ==> vx_rfind(&base_file_name, '.')
//@subst base_file_name.drain(..index).collect() ==> vx_drain(&mut base_file_name, index)
//@subst observed_mutator_results.contains(&mutate_ast_result.mutator_result) ==> vx_seen(&observed_mutator_results, &mutate_ast_result.mutator_result)
//@entry
    let ghost g = *params;
    proof { lits(); reveal_strlit(""); assert forall|x: Seq<char>| #[trigger] (""@ + x) == x by { assert(""@ + x =~= x); } }
//@after load_ast_from_file 0
    let ghost l = language_object.lang(); let ghost a = sast(ast); let ghost sem = lang_sem(l); let ghost pm = function_mutation_permissions;
    proof {
        assert(loaded(l, g.preferences, g.file_name@, recognize_result.file_type, ast));
        assert(tree_of(g.preferences, g.file_name@, l, a));
        assert(lang_of(ast) == l);
    }
//@after calculate_node_paths 0
    let ghost tb = mutable_nodes_table@;
    proof {
        assert forall|t: MT| #[trigger] tb.dom().contains(t) implies language_object.has(t) && g.mutations@.contains(t) && (sem.makes)(t) && tb[t] as int == (sem.cands)(pm, t, a) by { assert(ucount(tb, t) > 0); }
    }
//@before write_to_stream_as_json 0
            proof { let cd = conf(details); assert(cd.filenames =~= seq![g.file_name@]); assert(cd.functions =~= strv(g.functions@)); assert(details.mutations@ =~= g.mutations@); assert(repeats(g, l, details)); }
//@before write_to_file_as_json 0
            proof { let cd = conf(details); assert(cd.filenames =~= seq![g.file_name@]); assert(cd.functions =~= strv(g.functions@)); assert(details.mutations@ =~= g.mutations@); assert(repeats(g, l, details)); lemma_conf_path(g.file_name@, g.output_directory@); assert(out_file_path@ == conf_path(g.file_name@, g.output_directory@)); }
//@beforeloop 0
    proof {
        assert(g.print_original ==> original_made(g)); // [C19]
        assert(g.save_configuration_file ==> conf_made(g)); // [C12]
    }
//@loop 0
        invariant
            forall|i: int| 0 <= i < vx_it0.seq().len() ==> tb.dom().contains(*(#[trigger] vx_it0.seq()[i]).0) && tb[*vx_it0.seq()[i].0] == *vx_it0.seq()[i].1,
            forall|t: MT| #[trigger] tb.dom().contains(t) ==> tb[t] > 0,
            forall|k: MT| #[trigger] tb.dom().contains(k) ==> exists|i: int| 0 <= i < vx_it0.seq().len() && *(#[trigger] vx_it0.seq()[i]).0 == k,
            forall|i: int, j: int| 0 <= i < j < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[i]).0 != *(#[trigger] vx_it0.seq()[j]).0,
            vx_o0@.len() == vx_it0.index(),
            forall|i: int| 0 <= i < vx_o0@.len() ==> #[trigger] vx_o0@[i] == *vx_it0.seq()[i].0,
            forall|i: int, j: int| 0 <= i < j < vx_o0@.len() ==> #[trigger] vx_o0@[i] != #[trigger] vx_o0@[j],
            forall|i: int| 0 <= i < vx_o0@.len() ==> tb.dom().contains(#[trigger] vx_o0@[i]),
            forall|k: MT| #[trigger] tb.dom().contains(k) ==> vx_o0@.contains(k) || exists|i: int| vx_it0.index() <= i < vx_it0.seq().len() && *(#[trigger] vx_it0.seq()[i]).0 == k, // [C11]
//@loopstart 0
        let ghost o1 = vx_o0@; let ghost i1 = vx_it0.index() as int;
//@loopend 0
        proof {
            assert(vx_o0@ == o1.push(*vx_it0.seq()[i1].0));
            assert forall|k: MT| #[trigger] tb.dom().contains(k) implies vx_o0@.contains(k) || exists|i: int| i1 + 1 <= i < vx_it0.seq().len() && *(#[trigger] vx_it0.seq()[i]).0 == k by {
                if o1.contains(k) { let q = choose|q: int| 0 <= q < o1.len() && o1[q] == k; assert(vx_o0@[q] == k); }
                else { let i = choose|i: int| i1 <= i < vx_it0.seq().len() && *(#[trigger] vx_it0.seq()[i]).0 == k; if i == i1 { assert(vx_o0@[o1.len() as int] == k); } }
            }
        }
//@before sort 0
    let ghost mt0 = mutation_type_list@;
//@after sort 0
    proof {
        assert forall|i: int| 0 <= i < mutation_type_list@.len() implies tb.dom().contains(#[trigger] mutation_type_list@[i]) by { assert(mutation_type_list.elems().contains(mutation_type_list@[i])); }
        assert(mt0.contains(mt0[0])); assert(mutation_type_list.elems().contains(mt0[0]));
        assert forall|t: MT| #[trigger] tb.dom().contains(t) implies exists|i: int| 0 <= i < mutation_type_list@.len() && mutation_type_list@[i] == t by { assert(mutation_type_list.elems().contains(t)); }
        // the algorithms in an order that depends only on which there are, not on the order of the table
        assert(keys_of(mt0, tb)) by { assert forall|i: int, j: int| 0 <= i < mt0.len() && 0 <= j < mt0.len() && i != j implies mt0[i] != mt0[j] by { if i < j { assert(mt0[i] != mt0[j]); } else { assert(mt0[j] != mt0[i]); } } }
        lemma_same_keys(tb, mt0);
        assert(mutation_type_list@ == type_list(tb)); // [C13]
    }
//@loop 1
        invariant
            tb == mutable_nodes_table@,
            vx_it1.seq().len() == mutation_type_list@.len(), forall|i: int| 0 <= i < mutation_type_list@.len() ==> *(#[trigger] vx_it1.seq()[i]) == mutation_type_list@[i],
            forall|i: int| 0 <= i < mutation_type_list@.len() ==> tb.dom().contains(#[trigger] mutation_type_list@[i]),
            forall|t: MT| #[trigger] selected_algorithm_map@.dom().contains(t) ==> tb.dom().contains(t) && selected_algorithm_map@[t].0 == 0 && selected_algorithm_map@[t].1 == tb[t],
            forall|i: int| 0 <= i < vx_it1.index() ==> selected_algorithm_map@.dom().contains(#[trigger] mutation_type_list@[i]),
            forall|t: MT| #[trigger] tb.dom().contains(t) ==> exists|i: int| 0 <= i < mutation_type_list@.len() && mutation_type_list@[i] == t,
//@beforeloop 2
    let ghost ks = key_seq(selected_algorithm_map@);
    let ghost sm = selected_algorithm_map@;
    proof { assert(ks.take(0) =~= Seq::<MT>::empty()); assert(sm.dom() =~= tb.dom()); }
//@loop 2
        invariant
            keys_of(ks, sm), vx_it2.seq().len() == ks.len(), forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] vx_it2.seq()[i]) == sm[ks[i]],
            tree_of(g.preferences, g.file_name@, l, a), may_mutate(g),
            forall|t: MT| #[trigger] sm.dom().contains(t) ==> sm[t].1 as int == (lang_sem(l).cands)(pm, t, a),
            available_mutations as int == all_cands(l, pm, a, ks.take(vx_it2.index() as int)),
//@loopstart 2
        proof {
            let i = vx_it2.index() as int; lemma_all_cands(l, pm, a, ks, i);
            assert(ks.contains(ks[i])); assert(ks.take(i + 1).no_duplicates());
            assert(all_cands(l, pm, a, ks.take(i + 1)) <= usize::MAX);
        }
//@loop 3
        invariant
            but_rng(*params, g), mutation_type_list@.len() > 0, tb == mutable_nodes_table@,
            forall|i: int| 0 <= i < mutation_type_list@.len() ==> selected_algorithm_map@.dom().contains(#[trigger] mutation_type_list@[i]),
            forall|t: MT| #[trigger] selected_algorithm_map@.dom().contains(t) ==> tb.dom().contains(t) && selected_algorithm_map@[t].0 <= selected_algorithm_map@[t].1 && selected_algorithm_map@[t].1 == tb[t],
            forall|t: MT| #[trigger] times(mutation_kinds_todo@, t) == (if selected_algorithm_map@.dom().contains(t) { selected_algorithm_map@[t].0 as int } else { 0 }), // [C11]
            forall|i: int| 0 <= i < mutation_kinds_todo@.len() ==> tb.dom().contains(#[trigger] mutation_kinds_todo@[i]),
            mutation_kinds_todo@.len() + requested_mutants_remaining == g.number_of_mutants, // [C11]
            viable_mutations_selected == mutation_kinds_todo@.len(),
        ensures
            // as many as requested, as far as there are candidates
            requested_mutants_remaining == 0 || mutation_kinds_todo@.len() >= available_mutations, // [C11]
//@afterloop 3
    proof {
        assert(ks.take(ks.len() as int) =~= ks);
        assert(mutation_kinds_todo@.len() == g.number_of_mutants || enough(g, l, mutation_kinds_todo@.len() as int)) by { // [C11]
            assert forall|t: MT| #[trigger] wanted(g, l, pm, a, t) implies ks.contains(t) by { assert(ucount(tb, t) > 0); }
        }
    }
//@before get_mut 0
        let ghost td = mutation_kinds_todo@;
//@after push_back 0
            proof { assert forall|t: MT| times(mutation_kinds_todo@, t) == times(td, t) + if *mutation_type == t { 1int } else { 0int } by { lemma_times_push(td, *mutation_type, t); } }
//@beforeloop 4
    let ghost mut js: Seq<JV> = Seq::empty();
    let ghost sel = mutation_kinds_todo@.len();
    let ghost mut given_up: int = 0;
//@loop 4
        invariant
            attempts == 0,
            but_rng(*params, g), may_mutate(g), tree_of(g.preferences, g.file_name@, l, a), fn_perms(strv(g.functions@), pm), pm == function_mutation_permissions, a == sast(ast), has_lang(l, ast),
            sem == lang_sem(l), language_object.iwf(), language_object.lang() == l, language_object.sem() == sem, tb == mutable_nodes_table@, node_path_map@ == (sem.paths)(pm, a),
            forall|t: MT| #[trigger] tb.dom().contains(t) ==> language_object.has(t) && g.mutations@.contains(t) && (sem.makes)(t) && tb[t] as int == (sem.cands)(pm, t, a) && tb[t] > 0,
            forall|i: int| 0 <= i < mutation_kinds_todo@.len() ==> tb.dom().contains(#[trigger] mutation_kinds_todo@[i]),
            files_written == observed_mutator_results@.len(), js.len() == files_written, attempts <= ATTEMPTS_TO_GENERATE_A_MUTANT,
            files_written + given_up + mutation_kinds_todo@.len() == sel, sel <= g.number_of_mutants, given_up >= 0, // [C11]
            forall|t: MT| times(types(observed_mutator_results@), t) + #[trigger] times(mutation_kinds_todo@, t) <= (if tb.dom().contains(t) { tb[t] as int } else { 0 }), // [C11]
            distinct(observed_mutator_results@), // [C11]
            forall|k: int| 0 <= k < files_written ==> #[trigger] made_mutant(g, l, k, observed_mutator_results@[k], js[k]), // [C01,C11,C19]
//@loop 5
            invariant
            mutation_kinds_todo@.len() > 0,
            but_rng(*params, g), may_mutate(g), tree_of(g.preferences, g.file_name@, l, a), fn_perms(strv(g.functions@), pm), pm == function_mutation_permissions, a == sast(ast), has_lang(l, ast),
            sem == lang_sem(l), language_object.iwf(), language_object.lang() == l, language_object.sem() == sem, tb == mutable_nodes_table@, node_path_map@ == (sem.paths)(pm, a),
            forall|t: MT| #[trigger] tb.dom().contains(t) ==> language_object.has(t) && g.mutations@.contains(t) && (sem.makes)(t) && tb[t] as int == (sem.cands)(pm, t, a) && tb[t] > 0,
            forall|i: int| 0 <= i < mutation_kinds_todo@.len() ==> tb.dom().contains(#[trigger] mutation_kinds_todo@[i]),
            files_written == observed_mutator_results@.len(), js.len() == files_written, attempts <= ATTEMPTS_TO_GENERATE_A_MUTANT,
            files_written + given_up + mutation_kinds_todo@.len() == sel, sel <= g.number_of_mutants, given_up >= 0, // [C11]
            forall|t: MT| times(types(observed_mutator_results@), t) + #[trigger] times(mutation_kinds_todo@, t) <= (if tb.dom().contains(t) { tb[t] as int } else { 0 }), // [C11]
            distinct(observed_mutator_results@), // [C11]
            forall|k: int| 0 <= k < files_written ==> #[trigger] made_mutant(g, l, k, observed_mutator_results@[k], js[k]), // [C01,C11,C19]
//@before mutate_ast 0
            let ghost ix = index as int; let ghost ty = *mutation_type;
//@after mutate_ast 0
            let ghost mr = mutate_ast_result.mutator_result;
            let ghost mj = sast(mutate_ast_result.ast->0);
            proof { assert(mutation(g, l, a, pm, ty, ix, mr.mutated_node_id, mj)); lemma_mutant_of(g, l, a, pm, mr, ty, index, mj); }
//@before pretty_print_ast_to_stream 1
                proof { assert(viable(g, l, mr, sast(mutated_ast))); }
//@before pretty_print_ast 1
                proof { let b = base_of(g.file_name@)->0; let k = dec(files_written as int); assert(b + "_"@ + k =~= b + ("_"@ + k)); assert(viable(g, l, mr, sast(mutated_ast))); lemma_mutant_path(l, g.file_name@, g.output_directory@, files_written as int); assert(outfile@ == joined(g.output_directory@, mutant_base(g.file_name@, files_written as int))); }
//@before remove 0
            let ghost td = mutation_kinds_todo@; let ghost ob = observed_mutator_results@;
//@before push 0
            proof {
                assert(td[0] == ty);
                assert forall|t: MT| times(types(ob.push(mr)), t) + #[trigger] times(mutation_kinds_todo@, t) <= (if tb.dom().contains(t) { tb[t] as int } else { 0 }) by {
                    assert(times(types(ob), t) + times(td, t) <= (if tb.dom().contains(t) { tb[t] as int } else { 0 }));
                    lemma_times_remove(td, t); assert(types(ob.push(mr)) =~= types(ob).push(ty)); lemma_times_push(types(ob), ty, t);
                }
                js = js.push(mj);
                assert(made_mutant(g, l, ob.len() as int, mr, mj));
            }
//@before remove 1
        let ghost td = mutation_kinds_todo@;
//@after remove 1
        proof {
            given_up = given_up + 1;
            assert forall|t: MT| times(types(observed_mutator_results@), t) + #[trigger] times(mutation_kinds_todo@, t) <= (if tb.dom().contains(t) { tb[t] as int } else { 0 }) by {
                assert(times(types(observed_mutator_results@), t) + times(td, t) <= (if tb.dom().contains(t) { tb[t] as int } else { 0 }));
                lemma_times_remove(td, t);
            }
        }
//@afterloop 4
    proof {
        let o = observed_mutator_results@;
        assert forall|t: MT| #[trigger] times(types(o), t) <= (sem.cands)(pm, t, a) || times(types(o), t) == 0 by { lemma_times_nonneg(mutation_kinds_todo@, t); lemma_times_nonneg(types(o), t); assert(times(mutation_kinds_todo@, t) >= 0); }
        assert(in_budget(g, l, o));
        assert(mutants_made(g, l, o, js));
    }
//@end
