// ---- mutate: all files of the command line ----
//@item mutagenyx/src/main.rs MutateCLArgs
pub type Args = MutateCLArgs;
pub open spec fn set_of(s: Seq<MT>) -> spec_fn(MT) -> bool { |t: MT| s.contains(t) }
pub open spec fn every() -> spec_fn(MT) -> bool { |t: MT| true }
// the settings of a run
#[verifier::ext_equal]
pub struct Want {
    pub file: Seq<char>, pub number: usize, pub seed: u64, pub out: Seq<char>, pub stdout: bool, pub mutations: spec_fn(MT) -> bool, pub functions: Seq<Seq<char>>,
    pub verify: bool, pub original: bool, pub save: bool,
}
pub open spec fn want(g: GeneratorParameters) -> Want {
    Want { file: g.file_name@, number: g.number_of_mutants, seed: g.rng_seed, out: g.output_directory@, stdout: g.use_stdout, mutations: set_of(g.mutations@), functions: strv(g.functions@),
        verify: g.verify_mutant_viability, original: g.print_original, save: g.save_configuration_file }
}
pub open spec fn cl_want(a: Args, seed: u64, f: Seq<char>) -> Want {
    Want { file: f, number: a.num_mutants, seed: seed, out: a.output_directory@, stdout: a.stdout, mutations: if a.all_mutations { every() } else { set_of(named_s(strv(a.mutation@))) },
        functions: strv(a.function@), verify: a.validate_mutants, original: a.print_original, save: a.save_config_files }
}
// a configuration file replaces what it sets
pub open spec fn conf_want(a: Args, seed: u64, c: Conf, f: Seq<char>) -> Want {
    let w = cl_want(a, seed, f);
    Want {
        number: c.number as usize, seed: if c.seed is Some { c.seed->0 } else { seed },
        mutations: if c.all { every() } else if c.mutations.len() > 0 { set_of(c.mutations) } else { w.mutations },
        functions: if c.functions.len() > 0 { c.functions } else { w.functions }, verify: c.verify, original: c.original,
        stdout: w.stdout || c.outdir == Some("stdout"@), out: if c.outdir is Some && c.outdir != Some("stdout"@) { c.outdir->0 } else { w.out }, ..w
    }
}
pub open spec fn mut_prefs(a: Args, p: Preferences) -> bool {
    cl_says(p.map@, a.solidity_compiler@, a.solidity_base_path, a.solidity_include_path@, a.solidity_allow_paths@, a.solidity_remapping@, a.solidity_stop_after, a.vyper_compiler@, a.vyper_root_path)
}
// its compiler settings replace those of the command line for its language
pub open spec fn conf_prefs(p0: Preferences, l: Language, j: JV, p: Preferences) -> bool {
    exists|d: Option<Preferences>| #[trigger] read_details(j, d) && match d {
        Some(d) => comp_of(p.map@, lang_name(l)) == d.map@ && forall|l2: Language| l2 != l ==> #[trigger] comp_of(p.map@, lang_name(l2)) == comp_of(p0.map@, lang_name(l2)),
        None => p == p0,
    }
}
pub open spec fn conf_in(f: Seq<char>) -> Conf { read_conf(file_json(f)->0, conf_rec(f)->0.language) }
// the number of runs for the i-th file of the command line
pub open spec fn runs(a: Args, i: int) -> int { let f = a.file@[i]@; if conf_rec(f) is Some { conf_in(f).filenames.len() as int } else { 1 } }
// g is the k-th run for the i-th file
pub open spec fn run_for(a: Args, p0: Preferences, seed: u64, i: int, k: int, g: GeneratorParameters) -> bool {
    let f = a.file@[i]@;
    &&& 0 <= i < a.file@.len() && 0 <= k < runs(a, i)
    &&& g.rng == rng_of(g.rng_seed)
    &&& conf_rec(f) is Some ==> want(g) == conf_want(a, seed, conf_in(f), conf_in(f).filenames[k]) && conf_prefs(p0, conf_rec(f)->0.language, file_json(f)->0, g.preferences)
    &&& conf_rec(f) is None ==> want(g) == cl_want(a, seed, f) && g.preferences == p0
}
pub open spec fn base_ctx(a: Args, p0: Preferences, seed: u64) -> bool { mut_prefs(a, p0) && (a.rng_seed >= 0 ==> seed == a.rng_seed as u64) }
pub open spec fn run_done(a: Args, p0: Preferences, seed: u64, i: int, k: int) -> bool { exists|g: GeneratorParameters| #[trigger] run_for(a, p0, seed, i, k, g) && file_done(g) }
pub proof fn lemma_all(s: Seq<MT>) requires forall|t: MT| #[trigger] s.contains(t) ensures set_of(s) == every() { assert(set_of(s) =~= every()); }
pub proof fn lemma_ix(s: Seq<(int, int)>, x: (int, int)) ensures forall|y: (int, int)| #[trigger] s.push(x).contains(y) == (s.contains(y) || y == x) {
    assert forall|y: (int, int)| #[trigger] s.push(x).contains(y) == (s.contains(y) || y == x) by {
        assert(s.push(x)[s.len() as int] == x);
        if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.push(x)[i] == y); }
    }
}
// std::time
#[verifier::external_body]
pub struct SystemTime { _p: u8 }
#[verifier::external_body]
pub struct Duration { _p: u8 }
pub const UNIX_EPOCH: u8 = 0;
impl SystemTime {
    #[verifier::external_body]
    pub fn now() -> (r: SystemTime) { unimplemented!() }
    #[verifier::external_body]
    pub fn duration_since(&self, e: u8) -> (r: Result<Duration, Foreign>) { unimplemented!() }
}
impl Duration {
    #[verifier::external_body]
    pub fn as_millis(&self) -> (r: u128) { unimplemented!() }
}
//@fn mutagenyx/src/mutation_generator.rs generate_mutants props=C01,C11,C12,C13,C18,C19,C20 loops=3 exactfmt truncate
//@ret r
//@spec
    requires
        forall|i: int| 0 <= i < args.file@.len() ==> base_of((#[trigger] args.file@[i])@) is Some,
        forall|p0: Preferences, s: u64, i: int, k: int, g: GeneratorParameters| #[trigger] base_ctx(args, p0, s) && #[trigger] run_for(args, p0, s, i, k, g) ==> may_mutate(g),
    ensures
        // every file of the command line, and every file a configuration names, was mutated with the settings for it
        r is Ok ==> exists|p0: Preferences, s: u64| #[trigger] base_ctx(args, p0, s) && forall|i: int, k: int| 0 <= i < args.file@.len() && 0 <= k < runs(args, i) ==> #[trigger] run_done(args, p0, s, i, k), // [C12,C18,C20]
//@entry
    let ghost a0 = args;
    proof { lits(); lemma_names(); reveal_strlit(""); assert forall|x: Seq<char>| #[trigger] (""@ + x) == x by { assert(""@ + x =~= x); } }
//@after to_preferences 0
    let ghost p0 = preferences;
    proof { assert(mut_prefs(a0, p0)); }
//@beforeloop 0
    let ghost mut ix: Seq<(int, int)> = Seq::empty();
    let ghost s0 = seed; let ghost m0 = mutations@;
    proof {
        assert(a0.rng_seed >= 0 ==> s0 == a0.rng_seed as u64); // [C13]
        assert(base_ctx(a0, p0, s0)); // [C18]
        if a0.all_mutations { lemma_all(m0); } 
        assert(set_of(m0) == cl_want(a0, s0, a0.file@[0]@).mutations); // [C11]
    }
//@loop 0
        invariant
            vx_it0.seq() == a0.file@, forall|i: int| 0 <= i < a0.file@.len() ==> base_of((#[trigger] a0.file@[i])@) is Some, mut_prefs(a0, p0), preferences == p0, seed == s0, pcg == rng_of(s0), mutations@ == m0,
            got_map(p0.map@, "Solidity"@) is Some, got_map(p0.map@, "Vyper"@) is Some,
            set_of(m0) == (if a0.all_mutations { every() } else { set_of(named_s(strv(a0.mutation@))) }),
            args.function == a0.function, args.num_mutants == a0.num_mutants, args.validate_mutants == a0.validate_mutants, args.output_directory == a0.output_directory, args.stdout == a0.stdout,
            args.print_original == a0.print_original, args.save_config_files == a0.save_config_files,
            ix.len() == generator_parameters@.len(),
            forall|x: int| 0 <= x < ix.len() ==> run_for(a0, p0, s0, (#[trigger] ix[x]).0, ix[x].1, generator_parameters@[x]), // [C20]
            forall|i: int, k: int| 0 <= i < vx_it0.index() && 0 <= k < runs(a0, i) ==> #[trigger] ix.contains((i, k)), // [C20]
//@loopstart 0
        let ghost fi = vx_it0.index() as int; let ghost f = file_name@;
        proof { assert(file_name == a0.file@[fi]); lits(); lemma_names(); reveal_strlit(""); assert forall|x: Seq<char>| #[trigger] (""@ + x) == x by { assert(""@ + x =~= x); } }
//@before push 1
            proof {
                lemma_ix(ix, (fi, 0int)); ix = ix.push((fi, 0int));
                let v = want(generator_params); let u = cl_want(a0, s0, f);
                assert(generator_params.rng == rng_of(generator_params.rng_seed) && v.seed == u.seed); // [C13,C20]
                assert(v.functions =~= u.functions); // [C01,C20]
                assert(v.file == u.file); // [C20]
                assert(v.number == u.number && v.mutations == u.mutations && v.verify == u.verify); // [C11,C20]
                assert(v.out == u.out && v.stdout == u.stdout && v.original == u.original); // [C19,C20]
                assert(v.save == u.save); // [C12,C20]
                assert(generator_params.preferences == p0); // [C18,C20]
                assert(want(generator_params) =~= cl_want(a0, s0, f));
                assert(run_for(a0, p0, s0, fi, 0, generator_params)); // [C20]
            }
//@beforeloop 1
            let ghost l = recognize_result.language; let ghost j = file_json(f)->0; let ghost c = conf_in(f); let ghost w = conf_want(a0, s0, c, f);
            proof { assert(conf_prefs(p0, l, j, actual_preferences)); } // [C12,C18,C20]
//@loop 1
            invariant
                pths(vx_it1.seq()) == c.filenames, conf_rec(f) is Some, c == conf_in(f), l == conf_rec(f)->0.language, j == file_json(f)->0, w == conf_want(a0, s0, c, f), 0 <= fi < a0.file@.len(), f == a0.file@[fi]@,
                args.save_config_files == a0.save_config_files,
                actual_number_of_mutants == w.number, // [C12,C20]
                actual_seed == w.seed, // [C12,C20]
                actual_output_directory@ == w.out, // [C12,C20]
                actual_use_stdout == w.stdout, // [C12,C20]
                set_of(actual_mutations@) == w.mutations, // [C12,C20]
                actual_verify == w.verify, // [C12,C20]
                actual_print_original == w.original, // [C12,C20]
                conf_prefs(p0, l, j, actual_preferences), // [C12,C18,C20]
                strv(actual_functions@) == w.functions, // [C01,C12,C20]
                ix.len() == generator_parameters@.len(),
                forall|x: int| 0 <= x < ix.len() ==> run_for(a0, p0, s0, (#[trigger] ix[x]).0, ix[x].1, generator_parameters@[x]), // [C20]
                forall|i: int, k: int| 0 <= i < fi && 0 <= k < runs(a0, i) ==> #[trigger] ix.contains((i, k)), // [C20]
                forall|k: int| 0 <= k < vx_it1.index() ==> #[trigger] ix.contains((fi, k)), // [C20]
//@loopstart 1
                let ghost ki = vx_it1.index() as int;
                proof { assert(c.filenames[ki] == path_buf@); }
//@before push 0
                proof {
                    lemma_ix(ix, (fi, ki)); ix = ix.push((fi, ki));
                    assert(strv(generator_params.functions@) =~= strv(actual_functions@)); assert(generator_params.mutations@ =~= actual_mutations@);
                    let v = want(generator_params); let u = conf_want(a0, s0, c, c.filenames[ki]);
                    assert(generator_params.rng == rng_of(generator_params.rng_seed)); // [C12,C13,C20]
                    assert(v.functions == u.functions); // [C01,C12,C20]
                    assert(v.file == u.file); // [C12,C20]
                    assert(v.number == u.number && v.mutations == u.mutations && v.verify == u.verify && v.seed == u.seed && v.out == u.out && v.stdout == u.stdout && v.original == u.original && v.save == u.save); // [C12,C20]
                    assert(conf_prefs(p0, l, j, generator_params.preferences)); // [C12,C18,C20]
                    assert(want(generator_params) =~= conf_want(a0, s0, c, c.filenames[ki]));
                    assert(run_for(a0, p0, s0, fi, ki, generator_params)); // [C20]
                }
//@beforeloop 2
    let ghost gp = generator_parameters@;
//@loop 2
        invariant
            base_ctx(a0, p0, s0), vx_v2@.len() == gp.len(), vx_k2 <= gp.len(), ix.len() == gp.len(),
            forall|x: int| vx_k2 <= x < gp.len() ==> #[trigger] vx_v2@[x] == gp[x],
            forall|x: int| 0 <= x < ix.len() ==> run_for(a0, p0, s0, (#[trigger] ix[x]).0, ix[x].1, gp[x]),
            forall|p0: Preferences, s: u64, i: int, k: int, g: GeneratorParameters| #[trigger] base_ctx(a0, p0, s) && #[trigger] run_for(a0, p0, s, i, k, g) ==> may_mutate(g),
            forall|x: int| 0 <= x < vx_k2 ==> file_done(#[trigger] gp[x]), // [C20]
        decreases gp.len() - vx_k2,
//@before generate_mutations 0
        proof { let x = vx_k2 - 1; assert(*params == gp[x]); assert(run_for(a0, p0, s0, ix[x].0, ix[x].1, gp[x])); }
//@afterloop 2
    proof {
        assert forall|i: int, k: int| 0 <= i < a0.file@.len() && 0 <= k < runs(a0, i) implies #[trigger] run_done(a0, p0, s0, i, k) by {
            assert(ix.contains((i, k))); let x = choose|x: int| 0 <= x < ix.len() && ix[x] == (i, k); assert(file_done(gp[x]));
        }
    }
//@end
