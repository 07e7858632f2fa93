// ---- config_file.rs ----
//@item mutagenyx_lib/src/config_file.rs CONFIG_FILE_EXTENSION %% static ==> const %% &str ==> &'static str
//@item mutagenyx_lib/src/config_file.rs LANGUAGE_KEY %% static ==> const %% &str ==> &'static str
//@item mutagenyx_lib/src/config_file.rs FILENAMES_KEY %% static ==> const %% &str ==> &'static str
//@item mutagenyx_lib/src/config_file.rs COMPILER_DETAILS_KEY %% static ==> const %% &str ==> &'static str
//@item mutagenyx_lib/src/config_file.rs NUMBER_OF_MUTANTS_KEY %% static ==> const %% &str ==> &'static str
//@item mutagenyx_lib/src/config_file.rs SEED_KEY %% static ==> const %% &str ==> &'static str
//@item mutagenyx_lib/src/config_file.rs MUTATIONS_KEY %% static ==> const %% &str ==> &'static str
//@item mutagenyx_lib/src/config_file.rs ALL_MUTATIONS_KEY %% static ==> const %% &str ==> &'static str
//@item mutagenyx_lib/src/config_file.rs FUNCTIONS_KEY %% static ==> const %% &str ==> &'static str
//@item mutagenyx_lib/src/config_file.rs VALIDATE_MUTANTS_KEY %% static ==> const %% &str ==> &'static str
//@item mutagenyx_lib/src/config_file.rs OUTPUT_DIR_KEY %% static ==> const %% &str ==> &'static str
//@item mutagenyx_lib/src/config_file.rs PRINT_ORIGINAL_KEY %% static ==> const %% &str ==> &'static str
//@item mutagenyx_lib/src/config_file.rs ConfigurationFileDetails
// the texts among the elements of a list
pub open spec fn texts(a: Seq<JV>) -> Seq<Seq<char>>
    decreases a.len(),
{
    if a.len() == 0 { Seq::empty() } else if a.last() is Str { texts(a.drop_last()).push(a.last()->Str_0) } else { texts(a.drop_last()) }
}
pub open spec fn mut_of(s: Seq<char>) -> MutationType { choose|t: MutationType| #[trigger] mut_name(t) == s }
// the algorithms named in a list
pub open spec fn named(a: Seq<JV>) -> Seq<MutationType>
    decreases a.len(),
{
    if a.len() == 0 { Seq::empty() } else if a.last() is Str && is_mut_name(a.last()->Str_0) { named(a.drop_last()).push(mut_of(a.last()->Str_0)) } else { named(a.drop_last()) }
}
pub proof fn lemma_texts(a: Seq<JV>, n: int)
    requires 0 <= n < a.len(),
    ensures texts(a.take(n + 1)) == (if a[n] is Str { texts(a.take(n)).push(a[n]->Str_0) } else { texts(a.take(n)) }),
        named(a.take(n + 1)) == (if a[n] is Str && is_mut_name(a[n]->Str_0) { named(a.take(n)).push(mut_of(a[n]->Str_0)) } else { named(a.take(n)) }),
        texts(a.take(0)) == Seq::<Seq<char>>::empty(), named(a.take(0)) == Seq::<MutationType>::empty(),
{ assert(a.take(n + 1).drop_last() =~= a.take(n)); }
pub open spec fn pths(v: Seq<PathBuf>) -> Seq<Seq<char>> { v.map_values(|p: PathBuf| p@) }
pub open spec fn jtexts(v: Seq<Seq<char>>) -> JV { JV::Arr(v.map_values(|s: Seq<char>| JV::Str(s))) }
pub open spec fn path_refs(v: Seq<&PathBuf>, a: Seq<PathBuf>) -> bool { v.len() == a.len() && forall|i: int| 0 <= i < v.len() ==> *(#[trigger] v[i]) == a[i] }
pub open spec fn mut_refs(v: Seq<&MutationType>, a: Seq<MutationType>) -> bool { v.len() == a.len() && forall|i: int| 0 <= i < v.len() ==> *(#[trigger] v[i]) == a[i] }
pub proof fn lemma_jpush()
    ensures forall|v: Seq<PathBuf>, p: PathBuf| pths(#[trigger] v.push(p)).map_values(|s: Seq<char>| JV::Str(s)) == pths(v).map_values(|s: Seq<char>| JV::Str(s)).push(JV::Str(p@)),
{
    assert forall|v: Seq<PathBuf>, p: PathBuf| pths(#[trigger] v.push(p)).map_values(|s: Seq<char>| JV::Str(s)) == pths(v).map_values(|s: Seq<char>| JV::Str(s)).push(JV::Str(p@)) by {
        assert(pths(v.push(p)).map_values(|s: Seq<char>| JV::Str(s)) =~= pths(v).map_values(|s: Seq<char>| JV::Str(s)).push(JV::Str(p@)));
    }
}
pub proof fn lemma_tojv(v: Vec<String>) ensures v.tojv() == jtexts(strv(v@)) { assert(v.tojv()->Arr_0 =~= jtexts(strv(v@))->Arr_0); }
pub open spec fn mts(v: Seq<MutationType>) -> Seq<MutationType> { v }
pub open spec fn is_refs(v: Seq<&Value>, a: Seq<JV>) -> bool { v.len() == a.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == a[i] }
pub proof fn lemma_push()
    ensures
        forall|v: Seq<PathBuf>, p: PathBuf| #[trigger] pths(v.push(p)) == pths(v).push(p@),
        forall|v: Seq<String>, p: String| #[trigger] strv(v.push(p)) == strv(v).push(p@),
        pths(Seq::empty()) == Seq::<Seq<char>>::empty(), strv(Seq::empty()) == Seq::<Seq<char>>::empty(),
{
    assert(pths(Seq::empty()) =~= Seq::<Seq<char>>::empty()); assert(strv(Seq::empty()) =~= Seq::<Seq<char>>::empty());
    assert forall|v: Seq<PathBuf>, p: PathBuf| #[trigger] pths(v.push(p)) == pths(v).push(p@) by { assert(pths(v.push(p)) =~= pths(v).push(p@)); }
    assert forall|v: Seq<String>, p: String| #[trigger] strv(v.push(p)) == strv(v).push(p@) by { assert(strv(v.push(p)) =~= strv(v).push(p@)); }
}
pub broadcast proof fn lemma_set_has(v: JV, k: Seq<char>, x: JV, l: Seq<char>)
    ensures v is Obj ==> #[trigger] v.set(k, x).has(l) == (k == l || v.has(l)), v.set(k, x) is Obj,
{ }
pub broadcast proof fn lemma_set_at(v: JV, k: Seq<char>, x: JV, l: Seq<char>)
    ensures #[trigger] v.set(k, x).at(l) == (if k == l { x } else { v.at(l) }), v.set(k, x) is Obj,
{ }
pub broadcast proof fn lemma_empty(l: Seq<char>)
    ensures !(#[trigger] jv_empty().has(l)),
{ }
// what a configuration says
pub struct Conf {
    pub language: Option<Language>, pub filenames: Seq<Seq<char>>, pub number: i64, pub seed: Option<u64>, pub mutations: Seq<MutationType>, pub all: bool,
    pub functions: Seq<Seq<char>>, pub verify: bool, pub outdir: Option<Seq<char>>, pub original: bool,
}
pub open spec fn conf(d: ConfigurationFileDetails) -> Conf {
    Conf { language: d.language, filenames: pths(d.filenames@), number: d.number_of_mutants, seed: d.seed, mutations: d.mutations@, all: d.all_mutations,
        functions: strv(d.functions@), verify: d.verify_mutants, outdir: match d.output_directory { Some(p) => Some(p@), None => None }, original: d.print_original }
}
// what a configuration file with the JSON value j says: the documented keys, the documented defaults
pub open spec fn read_conf(j: JV, l: Language) -> Conf {
    Conf {
        language: Some(l),
        filenames: if j.arr_at("filenames"@) { texts(j.arr("filenames"@)) } else { Seq::empty() },
        number: if j.int_at("num-mutants"@) { j.int("num-mutants"@) as i64 } else { 5 },
        seed: if j.int_at("seed"@) { Some(j.int("seed"@) as i64 as u64) } else if j.big_at("seed"@) { Some(j.int("seed"@) as u64) } else { None },
        mutations: if j.arr_at("mutations"@) { named(j.arr("mutations"@)) } else { Seq::empty() },
        all: if j.bool_at("all-mutations"@) { j.bool("all-mutations"@) } else { false },
        functions: if j.arr_at("functions"@) { texts(j.arr("functions"@)) } else { Seq::empty() },
        verify: if j.bool_at("validate-mutants"@) { j.bool("validate-mutants"@) } else { false },
        outdir: if j.str_at("output-directory"@) { Some(j.str("output-directory"@)) } else { None },
        original: if j.bool_at("print-original"@) { j.bool("print-original"@) } else { false },
    }
}
// the compiler settings d are those of the file
pub open spec fn read_details(j: JV, d: Option<Preferences>) -> bool {
    if j.has("compiler-details"@) { d is Some && (ints_fit(j.at("compiler-details"@)) ==> map_same(d->0.map@, j.at("compiler-details"@))) } else { d is None }
}
// the file is a well-formed configuration
pub open spec fn conf_file(p: Seq<char>) -> bool {
    &&& ext_of(p) == Some("mgnx"@)
    &&& file_json(p) is Some
    &&& file_json(p)->0.has("language"@) && file_json(p)->0.has("filenames"@)
}
impl ConfigurationFileDetails {
//@fn mutagenyx_lib/src/config_file.rs ConfigurationFileDetails::new_from_file props=C12 loops=3 truncate attr=rlimit(40)
//@ret r
//@spec
    requires conf_file(config_file@) ==> file_json(config_file@)->0.str_at("language"@),
    ensures
        r is Ok ==> conf_file(config_file@) && is_lang_name(file_json(config_file@)->0.str("language"@)), // [C12]
        r is Ok ==> r->Ok_0.language is Some && lang_name(r->Ok_0.language->0) == file_json(config_file@)->0.str("language"@), // [C12]
        r is Ok ==> conf(r->Ok_0) == read_conf(file_json(config_file@)->0, r->Ok_0.language->0), // [C12]
        r is Ok ==> read_details(file_json(config_file@)->0, r->Ok_0.compiler_details), // [C12]
        r is Err ==> !conf_file(config_file@) || !is_lang_name(file_json(config_file@)->0.str("language"@))
            || (file_json(config_file@)->0.has("compiler-details"@) && !(file_json(config_file@)->0.at("compiler-details"@) is Obj)), // [C12]
//@subst extension.unwrap() != OsStr::new(CONFIG_FILE_EXTENSION) ==> vx_os_ne(extension.unwrap(), OsStr::new(CONFIG_FILE_EXTENSION))
//@entry
        proof { lits(); lemma_push(); }
//@loop 0
            invariant
                json_value@.arr_at("filenames"@), is_refs(vx_it0.seq(), json_value@.arr("filenames"@)),
                pths(vx_o0@) == texts(json_value@.arr("filenames"@).take(vx_it0.index() as int)),
//@loopstart 0
            proof { lemma_texts(json_value@.arr("filenames"@), vx_it0.index() as int); lemma_names(); lemma_push(); }
//@beforeloop 0
            proof { assert(json_value@.arr("filenames"@).take(0) =~= Seq::empty()); }
//@afterloop 0
            proof { let a = json_value@.arr("filenames"@); assert(a.take(a.len() as int) =~= a); }
//@loop 1
            invariant
                json_value@.arr_at("mutations"@), is_refs(vx_it1.seq(), json_value@.arr("mutations"@)),
                mts(vx_o1@) == named(json_value@.arr("mutations"@).take(vx_it1.index() as int)),
//@loopstart 1
            proof { lemma_texts(json_value@.arr("mutations"@), vx_it1.index() as int); lemma_names(); lemma_push(); }
//@beforeloop 1
            proof { assert(json_value@.arr("mutations"@).take(0) =~= Seq::empty()); }
//@afterloop 1
            proof { let a = json_value@.arr("mutations"@); assert(a.take(a.len() as int) =~= a); }
//@loop 2
            invariant
                json_value@.arr_at("functions"@), is_refs(vx_it2.seq(), json_value@.arr("functions"@)),
                strv(vx_o2@) == texts(json_value@.arr("functions"@).take(vx_it2.index() as int)),
//@loopstart 2
            proof { lemma_texts(json_value@.arr("functions"@), vx_it2.index() as int); lemma_names(); lemma_push(); }
//@beforeloop 2
            proof { assert(json_value@.arr("functions"@).take(0) =~= Seq::empty()); }
//@afterloop 2
            proof { let a = json_value@.arr("functions"@); assert(a.take(a.len() as int) =~= a); }
//@end
//@fn mutagenyx_lib/src/config_file.rs ConfigurationFileDetails::convert_to_json props=C12 loops=2 attr=rlimit(60)
//@ret r
//@spec
    ensures r is Ok, says(*self, r->Ok_0@), // [C12]
//@entry
        hide(JV::set); hide(JV::has); hide(JV::at);
        broadcast use {lemma_set_has, lemma_set_at, lemma_empty};
        proof { lits(); lemma_tojv(self.functions); }
//@loop 0
            invariant
                path_refs(vx_it0.seq(), self.filenames@), jvs(vx_o0@) == pths(self.filenames@.take(vx_it0.index() as int)).map_values(|s: Seq<char>| JV::Str(s)),
//@loopstart 0
            proof { let a = self.filenames@; let i = vx_it0.index() as int; assert(a.take(i + 1) =~= a.take(i).push(a[i])); lemma_jpush(); }
//@beforeloop 0
        proof { assert(jvs(Seq::empty()) =~= pths(self.filenames@.take(0)).map_values(|s: Seq<char>| JV::Str(s))); }
//@afterloop 0
        proof { let a = self.filenames@; assert(a.take(a.len() as int) =~= a); }
//@loop 1
            invariant
                mut_refs(vx_it1.seq(), self.mutations@), strv(mutation_algorithm_names_array@) =~= self.mutations@.take(vx_it1.index() as int).map_values(|t: MutationType| mut_name(t)),
//@loopstart 1
            proof { let a = self.mutations@; let i = vx_it1.index() as int; assert(a.take(i + 1) =~= a.take(i).push(a[i])); lemma_push(); }
//@afterloop 1
            proof { let a = self.mutations@; assert(a.take(a.len() as int) =~= a); lemma_tojv(mutation_algorithm_names_array); }
//@end
//@fn mutagenyx_lib/src/config_file.rs ConfigurationFileDetails::write_to_file_as_json props=C12 exactfmt
//@ret r
//@spec
    requires base_of(config_file@) is Some, may_save(config_file@),
    ensures r is Ok ==> exists|j: JV| #[trigger] saved(config_file@, j) && says(*self, j), // [C12]
        io_ok() ==> r is Ok, // [C12]
//@subst std::fs::create_dir_all( ==> std_fs::create_dir_all(
//@subst std::fs::File::create( ==> std_fs::create(
//@entry
        broadcast use ax_jtext;
        proof { reveal_strlit(""); }
//@after convert_to_json 0
        proof { assert(""@ + jtext(json_value@) =~= jtext(json_value@)); }
//@end
//@fn mutagenyx_lib/src/config_file.rs ConfigurationFileDetails::write_to_stream_as_json props=C12 exactfmt
//@ret r
//@spec
    ensures r is Ok ==> exists|j: JV| #[trigger] json_shown(j) && says(*self, j), io_ok() ==> r is Ok, // [C12]
//@subst &mut dyn Write ==> &mut Stdout
//@entry
        broadcast use ax_jtext;
        proof { reveal_strlit(""); }
//@after convert_to_json 0
        proof { assert(""@ + jtext(json_value@) =~= jtext(json_value@)); }
//@end
}
// the JSON value j says what the configuration d says: the documented keys, left out where the documented default applies
pub open spec fn says(d: ConfigurationFileDetails, j: JV) -> bool {
    &&& j is Obj
    &&& j.has("language"@) <==> d.language is Some
    &&& d.language is Some ==> j.at("language"@) == JV::Str(lang_name(d.language->0))
    &&& j.has("filenames"@) && j.at("filenames"@) == jtexts(pths(d.filenames@))
    &&& j.has("num-mutants"@) && j.at("num-mutants"@) == JV::Num(NumV::Int(d.number_of_mutants as int))
    &&& j.has("seed"@) <==> d.seed is Some
    &&& d.seed is Some ==> j.at("seed"@) == JV::Num(NumV::Int(d.seed->0 as int))
    &&& j.has("mutations"@) ==> j.at("mutations"@) == jtexts(d.mutations@.map_values(|t: MutationType| mut_name(t)))
    &&& !j.has("mutations"@) ==> d.mutations@.len() == 0
    &&& j.has("all-mutations"@) ==> j.at("all-mutations"@) == JV::Bool(d.all_mutations)
    &&& !j.has("all-mutations"@) ==> !d.all_mutations
    &&& j.has("compiler-details"@) <==> d.compiler_details is Some
    &&& d.compiler_details is Some ==> j.at("compiler-details"@) is Obj && forall|x: JV| #[trigger] map_same(d.compiler_details->0.map@, x) && keys_plain(x) ==> j.at("compiler-details"@) == x
    &&& j.has("functions"@) ==> j.at("functions"@) == jtexts(strv(d.functions@))
    &&& !j.has("functions"@) ==> d.functions@.len() == 0
    &&& j.has("validate-mutants"@) && j.at("validate-mutants"@) == JV::Bool(d.verify_mutants)
    &&& j.has("output-directory"@) <==> d.output_directory is Some
    &&& d.output_directory is Some ==> j.at("output-directory"@) == JV::Str(d.output_directory->0@)
    &&& j.has("print-original"@) && j.at("print-original"@) == JV::Bool(d.print_original)
}
pub proof fn lemma_texts_of(v: Seq<Seq<char>>)
    ensures texts(jtexts(v)->Arr_0) == v,
    decreases v.len(),
{
    let a = jtexts(v)->Arr_0;
    if v.len() > 0 {
        assert(a.drop_last() =~= jtexts(v.drop_last())->Arr_0);
        lemma_texts_of(v.drop_last());
        assert(v =~= v.drop_last().push(v.last()));
    } else { assert(texts(a) =~= v); }
}
pub proof fn lemma_named_of(v: Seq<MutationType>)
    ensures named(jtexts(v.map_values(|t: MutationType| mut_name(t)))->Arr_0) == v,
    decreases v.len(),
{
    let f = |t: MutationType| mut_name(t);
    let a = jtexts(v.map_values(f))->Arr_0;
    if v.len() > 0 {
        assert(a.drop_last() =~= jtexts(v.drop_last().map_values(f))->Arr_0);
        lemma_named_of(v.drop_last());
        lemma_names();
        assert(a.last() == JV::Str(mut_name(v.last())));
        assert(mut_of(mut_name(v.last())) == v.last());
        assert(v =~= v.drop_last().push(v.last()));
    } else { assert(named(a) =~= v); }
}
// reading back what was written gives the configuration that was written
pub proof fn lemma_conf_round_trip(d: ConfigurationFileDetails, j: JV) // [C12]
    requires says(d, j), d.language is Some,
    ensures
        j.has("language"@) && j.has("filenames"@), // [C12]
        j.is_str("language"@, lang_name(d.language->0)), // [C12]
        read_conf(j, d.language->0) == conf(d), // [C12]
{
    lits();
    lemma_push();
    lemma_texts_of(pths(d.filenames@)); lemma_texts_of(strv(d.functions@)); lemma_named_of(d.mutations@);
    if !j.has("mutations"@) { assert(d.mutations@ =~= Seq::empty()); }
    if !j.has("functions"@) { assert(d.functions@ =~= Seq::empty()); }
    let c = read_conf(j, d.language->0);
    if d.seed is Some { assert(j.int_at("seed"@) || j.big_at("seed"@)); assert(c.seed == d.seed); }
}
// and the compiler settings read back are those that were written
pub proof fn lemma_details_round_trip(d: ConfigurationFileDetails, j: JV, r: Option<Preferences>, w: JV) // [C12]
    requires says(d, j), read_details(j, r), d.compiler_details is Some, map_same(d.compiler_details->0.map@, w), keys_plain(w),
    ensures r is Some, map_same(r->0.map@, w), // [C12]
{
    assert(j.at("compiler-details"@) == w);
    lemma_ints_map(d.compiler_details->0.map@, w);
}
pub proof fn lemma_ints(p: PreferenceValue, j: JV)
    requires same(p, j),
    ensures ints_fit(j),
    decreases j, 1int,
{
    match p {
        PreferenceValue::Array(s) => {
            assert forall|i: int| 0 <= i < j->Arr_0.len() implies ints_fit(#[trigger] j->Arr_0[i]) by { let x = s@[i]; assert(decreases_to!(j->Arr_0 => j->Arr_0[i])); lemma_ints(x, j->Arr_0[i]); }
        }
        PreferenceValue::Map(m) => { lemma_ints_map(m@, j); }
        _ => {}
    }
}
pub proof fn lemma_ints_map(m: Map<Seq<char>, PreferenceValue>, j: JV)
    requires map_same(m, j),
    ensures ints_fit(j),
    decreases j, 0int,
{
    assert forall|k: Seq<char>| #[trigger] j->Obj_0.dom().contains(k) implies ints_fit(j->Obj_0[k]) by { let x = m[k]; vstd::map::axiom_map_index_decreases(j->Obj_0, k); lemma_ints(x, j->Obj_0[k]); }
}
