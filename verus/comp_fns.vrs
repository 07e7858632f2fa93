// ---- running a compiler ----
// std::process: what a program run with arguments does depends on the program and the arguments
pub uninterp spec fn starts_up(c: Seq<char>, a: Seq<Seq<char>>) -> bool;
pub uninterp spec fn exit_ok(c: Seq<char>, a: Seq<Seq<char>>) -> bool;
pub uninterp spec fn out_text(c: Seq<char>, a: Seq<Seq<char>>) -> Seq<char>;
pub open spec fn run_ok(c: Seq<char>, a: Seq<Seq<char>>) -> bool { starts_up(c, a) && exit_ok(c, a) }
pub struct ExitStatus { pub ok: bool }
impl ExitStatus { pub fn success(&self) -> (r: bool) ensures r == self.ok { self.ok } }
pub struct Output { pub status: ExitStatus, pub stdout: Vec<u8>, pub stderr: Vec<u8> }
#[verifier::external_body]
pub struct Command { _p: u8 }
impl Command {
    pub uninterp spec fn prog(&self) -> Seq<char>;
    pub uninterp spec fn argv(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn new(c: &str) -> (r: Command) ensures r.prog() == c@, r.argv() == Seq::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn arg(self, a: &str) -> (r: Command) ensures r.prog() == self.prog(), r.argv() == self.argv().push(a@) { unimplemented!() }
    #[verifier::external_body]
    pub fn args(self, a: Vec<String>) -> (r: Command) ensures r.prog() == self.prog(), r.argv() == self.argv() + strv(a@) { unimplemented!() }
    #[verifier::external_body]
    pub fn output(self) -> (r: Result<Output, Foreign>)
        ensures r is Ok <==> starts_up(self.prog(), self.argv()), r is Ok ==> r->Ok_0.status.ok == exit_ok(self.prog(), self.argv()) && utf8(r->Ok_0.stdout@) == out_text(self.prog(), self.argv()),
    { unimplemented!() }
}
pub uninterp spec fn utf8(b: Seq<u8>) -> Seq<char>;
// compilers print UTF-8
#[verifier::external_body]
pub fn from_utf8(b: &[u8]) -> (r: Result<&str, Foreign>) ensures r is Ok, r->Ok_0@ == utf8(b@) { unimplemented!() }
pub open spec fn strr(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|p: &str| p@) }
pub broadcast proof fn lemma_strv_push(v: Seq<String>, p: String)
    ensures #[trigger] strv(v.push(p)) == strv(v).push(p@),
{ assert(strv(v.push(p)) =~= strv(v).push(p@)); }
pub broadcast proof fn lemma_strr_push(v: Seq<&str>, p: &str)
    ensures #[trigger] strr(v.push(p)) == strr(v).push(p@),
{ assert(strr(v.push(p)) =~= strr(v).push(p@)); }
pub broadcast proof fn lemma_strv_empty()
    ensures #[trigger] strv(Seq::empty()) == Seq::<Seq<char>>::empty(),
{ assert(strv(Seq::empty()) =~= Seq::<Seq<char>>::empty()); }
pub broadcast proof fn lemma_strv_one(v: Seq<String>)
    requires v.len() == 1,
    ensures #[trigger] strv(v) == seq![v[0]@],
{ assert(strv(v) =~= seq![v[0]@]); }
pub open spec fn str_refs(v: Seq<&String>, a: Seq<String>) -> bool { v.len() == a.len() && forall|i: int| 0 <= i < v.len() ==> *(#[trigger] v[i]) == a[i] }
// a.iter().map(|x| x.to_string()) collected
#[verifier::external_body]
pub fn vx_strings(a: &Vec<&str>) -> (r: Vec<String>) ensures strv(r@) == strr(a@) { unimplemented!() }
//@fn mutagenyx_lib/src/utility.rs shell_execute props=C18 loops=1
//@ret r
//@spec
    ensures r is Ok <==> starts_up(command@, strv(arguments@)), r is Ok ==> r->Ok_0.status.ok == exit_ok(command@, strv(arguments@)), // [C18]
        r is Ok ==> utf8(r->Ok_0.stdout@) == out_text(command@, strv(arguments@)), // [C18]
//@subst .args(args.iter().map(|arg| arg.vx_to_string())) ==> .args(vx_strings(&args))
//@subst cfg!(target_os = "windows") ==> false
//@loop 0
        invariant str_refs(vx_it0.seq(), arguments@), strr(vx_o0@).len() == vx_it0.index(), forall|i: int| 0 <= i < vx_it0.index() ==> (#[trigger] strr(vx_o0@)[i]) == arguments@[i]@,
//@loopstart 0
            broadcast use lemma_strr_push;
//@afterloop 0
    proof { assert(Seq::<Seq<char>>::empty() + strr(args@) =~= strv(arguments@)); }
//@end
//@item mutagenyx_lib/src/compiler_details.rs COMPILER_KEY %% static ==> const %% &str ==> &'static str
//@item mutagenyx_lib/src/compiler_details.rs PATH_KEY %% static ==> const %% &str ==> &'static str
//@item mutagenyx_lib/src/solidity/compiler_details.rs BASE_PATH_KEY %% static ==> const %% &str ==> &'static str
//@item mutagenyx_lib/src/solidity/compiler_details.rs INCLUDE_PATHS_KEY %% static ==> const %% &str ==> &'static str
//@item mutagenyx_lib/src/solidity/compiler_details.rs ALLOW_PATHS_KEY %% static ==> const %% &str ==> &'static str
//@item mutagenyx_lib/src/solidity/compiler_details.rs REMAPPINGS_KEY %% static ==> const %% &str ==> &'static str
//@item mutagenyx_lib/src/solidity/compiler_details.rs STOP_AFTER_KEY %% static ==> const %% &str ==> &'static str
//@item mutagenyx_lib/src/vyper/compiler_details.rs ROOT_PATH_KEY %% static ==> const %% &str ==> &'static str
// ---- what the settings ask for ----
pub type PM = Map<Seq<char>, PreferenceValue>;
// the compiler settings of a language
pub open spec fn comp_of(m: PM, l: Seq<char>) -> PM {
    match got_map(m, l) { Some(lm) => match got_map(lm, "compiler"@) { Some(c) => c, None => Map::empty() }, None => Map::empty() }
}
// the texts of a list, each after a flag where there is one
pub open spec fn each(flag: Option<Seq<char>>, a: Seq<PreferenceValue>) -> Seq<Seq<char>>
    decreases a.len(),
{
    if a.len() == 0 { Seq::empty() } else {
        let r = each(flag, a.drop_last());
        if a.last() is String { (if flag is Some { r.push(flag->0) } else { r }).push(a.last()->String_0@) } else { r }
    }
}
pub proof fn lemma_each(flag: Option<Seq<char>>, a: Seq<PreferenceValue>, n: int)
    requires 0 <= n < a.len(),
    ensures each(flag, a.take(0)) == Seq::<Seq<char>>::empty(),
        each(flag, a.take(n + 1)) == (if a[n] is String { (if flag is Some { each(flag, a.take(n)).push(flag->0) } else { each(flag, a.take(n)) }).push(a[n]->String_0@) } else { each(flag, a.take(n)) }),
{ assert(a.take(n + 1).drop_last() =~= a.take(n)); }
pub open spec fn all_texts(a: Seq<PreferenceValue>) -> bool { forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) is String }
// the texts of a list separated by commas
pub open spec fn commas(a: Seq<Seq<char>>) -> Seq<char>
    decreases a.len(),
{
    if a.len() == 0 { Seq::empty() } else if a.len() == 1 { a[0] } else { commas(a.drop_last()) + ","@ + a.last() }
}
pub open spec fn opt2(flag: Seq<char>, v: Option<Seq<char>>) -> Seq<Seq<char>> { match v { Some(s) => seq![flag, s], None => Seq::empty() } }
pub open spec fn list_of(v: Option<Seq<PreferenceValue>>) -> Seq<PreferenceValue> { match v { Some(a) => a, None => Seq::empty() } }
pub open spec fn sf1(c: PM) -> Seq<Seq<char>> { opt2("--base-path"@, got_str(c, "base-path"@)) }
pub open spec fn sf2(c: PM) -> Seq<Seq<char>> { sf1(c) + each(Some("--include-path"@), list_of(got_arr(c, "include-paths"@))) }
pub open spec fn sf3(c: PM) -> Seq<Seq<char>> {
    sf2(c) + (if list_of(got_arr(c, "allow-paths"@)).len() > 0 { seq!["--allow-paths"@, commas(each(None, list_of(got_arr(c, "allow-paths"@))))] } else { Seq::empty() })
}
pub open spec fn sf4(c: PM) -> Seq<Seq<char>> { sf3(c) + each(None, list_of(got_arr(c, "remappings"@))) }
pub open spec fn sol_flags(c: PM) -> Seq<Seq<char>> { sf4(c) + opt2("--stop-after"@, got_str(c, "stop-after"@)) }
pub open spec fn vy_flags(c: PM) -> Seq<Seq<char>> { opt2("-p"@, got_str(c, "root-path"@)) }
pub open spec fn comp_path(c: PM, d: Seq<char>) -> Seq<char> { match got_str(c, "path"@) { Some(s) => s, None => d } }
//@fn mutagenyx_lib/src/solidity/language_interface.rs get_solidity_compiler_from_preferences props=C18 exactfmt
//@ret r
//@spec
    ensures r@ == comp_path(comp_of(prefs.map@, "Solidity"@), "solc"@), // [C18]
//@entry
    proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/language_interface.rs get_vyper_compiler_from_preferences props=C18 exactfmt
//@ret r
//@spec
    ensures r@ == comp_path(comp_of(prefs.map@, "Vyper"@), "vyper"@), // [C18]
//@entry
    proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/language_interface.rs get_vyper_compiler_flags_from_preferences props=C18 exactfmt
//@ret r
//@spec
    ensures strv(r@) == vy_flags(comp_of(prefs.map@, "Vyper"@)), // [C18]
//@entry
    broadcast use {lemma_strv_push, lemma_strv_empty};
    proof { lits(); }
//@end
pub broadcast proof fn lemma_add_push<A>(a: Seq<A>, b: Seq<A>, x: A)
    ensures #[trigger] (a + b).push(x) == a + b.push(x),
{ assert((a + b).push(x) =~= a + b.push(x)); }
pub broadcast proof fn lemma_add_empty<A>(a: Seq<A>)
    ensures #[trigger] (a + Seq::<A>::empty()) == a,
{ assert(a + Seq::<A>::empty() =~= a); }
// the comma separated text after i of the n elements
pub open spec fn comma_part(a: Seq<PreferenceValue>, i: int) -> Seq<char> {
    let t = each(None, a.take(i));
    if i == 0 { Seq::empty() } else if i < a.len() { commas(t) + ","@ } else { commas(t) }
}
pub proof fn lemma_each_len(a: Seq<PreferenceValue>)
    requires all_texts(a),
    ensures each(None, a).len() == a.len(),
    decreases a.len(),
{ if a.len() > 0 { lemma_each_len(a.drop_last()); } }
pub proof fn lemma_comma(a: Seq<PreferenceValue>, i: int)
    requires 0 <= i < a.len(), all_texts(a),
    ensures comma_part(a, i + 1) == (if i + 1 < a.len() { comma_part(a, i) + a[i]->String_0@ + ","@ } else { comma_part(a, i) + a[i]->String_0@ }),
{
    lemma_each(None, a, i);
    let t = each(None, a.take(i)); let u = each(None, a.take(i + 1));
    assert(u == t.push(a[i]->String_0@));
    lemma_each_len(a.take(i));
    if i == 0 { assert(t.len() == 0); assert(commas(u) == a[i]->String_0@); assert(comma_part(a, 0) + a[i]->String_0@ =~= a[i]->String_0@); }
    else { assert(u.drop_last() =~= t); assert(commas(u) == commas(t) + ","@ + a[i]->String_0@); }
}
pub open spec fn pv_refs(v: Seq<&PreferenceValue>, a: Seq<PreferenceValue>) -> bool { v.len() == a.len() && forall|i: int| 0 <= i < v.len() ==> *(#[trigger] v[i]) == a[i] }
//@fn mutagenyx_lib/src/solidity/language_interface.rs get_solidity_compiler_flags_from_preferences props=C18 exactfmt loops=3
//@ret r
//@spec
    ensures all_texts(list_of(got_arr(comp_of(prefs.map@, "Solidity"@), "allow-paths"@))) ==> strv(r@) == sol_flags(comp_of(prefs.map@, "Solidity"@)), // [C18]
//@entry
    broadcast use {lemma_strv_push, lemma_strv_empty};
    proof { reveal_strlit(""); assert(""@ + "Solidity"@ =~= "Solidity"@); }
    let ghost c = comp_of(prefs.map@, "Solidity"@);
    let ghost ok = all_texts(list_of(got_arr(c, "allow-paths"@)));
//@before get_array_for_key 0 ?
            proof { assert(compiler_prefs.map@ == c); assert(strv(args@) =~= sf1(c)); }
//@before get_array_for_key 1 ?
            proof { assert(strv(args@) =~= sf2(c)); }
//@before get_array_for_key 2 ?
            proof { assert(ok ==> strv(args@) =~= sf3(c)); }
//@before get_string_for_key 1 ?
            proof { assert(ok ==> strv(args@) =~= sf4(c)); }
//@beforeloop 0
                let ghost p0 = strv(args@);
                proof { assert(include_path_array@.take(0) =~= Seq::empty()); }
//@loop 0
                    invariant pv_refs(vx_it0.seq(), include_path_array@), strv(args@) == p0 + each(Some("--include-path"@), include_path_array@.take(vx_it0.index() as int)),
//@loopstart 0
                    broadcast use {lemma_strv_push, lemma_add_push};
                    proof { lemma_each(Some("--include-path"@), include_path_array@, vx_it0.index() as int); }
//@afterloop 0
                proof { assert(include_path_array@.take(include_path_array@.len() as int) =~= include_path_array@); }
//@loop 1
                        invariant i <= allow_paths_array@.len(), allow_paths_array@.len() > 0, all_texts(allow_paths_array@) ==> path_value@ == comma_part(allow_paths_array@, i as int),
                        decreases allow_paths_array@.len() - i,
//@loopstart 1
                        proof { if all_texts(allow_paths_array@) { lemma_comma(allow_paths_array@, i as int); } }
//@afterloop 1
                    proof { assert(allow_paths_array@.take(allow_paths_array@.len() as int) =~= allow_paths_array@); }
//@beforeloop 2
                let ghost p2 = strv(args@);
                proof { assert(remappings_array@.take(0) =~= Seq::empty()); }
//@loop 2
                    invariant pv_refs(vx_it2.seq(), remappings_array@), strv(args@) == p2 + each(None, remappings_array@.take(vx_it2.index() as int)),
//@loopstart 2
                    broadcast use {lemma_strv_push, lemma_add_push};
                    proof { lemma_each(None, remappings_array@, vx_it2.index() as int); }
//@afterloop 2
                proof { assert(remappings_array@.take(remappings_array@.len() as int) =~= remappings_array@); }
//@end
//@item mutagenyx/src/compiler_settings.rs SolidityCompilerSettings
//@item mutagenyx/src/compiler_settings.rs VyperCompilerSettings
//@item mutagenyx/src/compiler_settings.rs CompilerSettings
// what the command line options ask for
pub open spec fn flag_each(flag: Seq<char>, a: Seq<Seq<char>>) -> Seq<Seq<char>>
    decreases a.len(),
{ if a.len() == 0 { Seq::empty() } else { flag_each(flag, a.drop_last()).push(flag).push(a.last()) } }
pub open spec fn ostr(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn cli_sol_flags(s: SolidityCompilerSettings) -> Seq<Seq<char>> {
    opt2("--base-path"@, ostr(s.solidity_base_path)) + flag_each("--include-path"@, strv(s.solidity_include_path@))
        + (if s.solidity_allow_paths@.len() > 0 { seq!["--allow-paths"@, commas(strv(s.solidity_allow_paths@))] } else { Seq::empty() })
        + strv(s.solidity_remappings@) + opt2("--stop-after"@, ostr(s.solidity_stop_after))
}
pub open spec fn wrapped(v: Seq<PreferenceValue>, a: Seq<String>) -> bool { v.len() == a.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is String && v[i]->String_0@ == a[i]@ }
// the settings hold what the options say
pub open spec fn sol_held(m: PM, s: SolidityCompilerSettings) -> bool {
    &&& got_str(m, "path"@) == Some(s.solidity_compiler@)
    &&& got_str(m, "base-path"@) == ostr(s.solidity_base_path)
    &&& wrapped(list_of(got_arr(m, "include-paths"@)), s.solidity_include_path@)
    &&& wrapped(list_of(got_arr(m, "allow-paths"@)), s.solidity_allow_paths@)
    &&& wrapped(list_of(got_arr(m, "remappings"@)), s.solidity_remappings@)
    &&& got_str(m, "stop-after"@) == ostr(s.solidity_stop_after)
}
pub open spec fn vy_held(m: PM, s: VyperCompilerSettings) -> bool {
    got_str(m, "path"@) == Some(s.vyper_compiler@) && got_str(m, "root-path"@) == ostr(s.vyper_root_path)
}
impl SolidityCompilerSettings {
//@fn mutagenyx/src/compiler_settings.rs SolidityCompilerSettings::to_preferences props=C18 loops=3
//@ret r
//@spec
    ensures sol_held(r.map@, *self), // [C18]
//@entry
        proof { lits(); }
//@loop 0
                invariant str_refs(vx_it0.seq(), self.solidity_include_path@), wrapped(include_path_array@, self.solidity_include_path@.take(vx_it0.index() as int)),
//@afterloop 0
            proof { assert(self.solidity_include_path@.take(self.solidity_include_path@.len() as int) =~= self.solidity_include_path@); }
//@loop 1
                invariant str_refs(vx_it1.seq(), self.solidity_allow_paths@), wrapped(allow_path_array@, self.solidity_allow_paths@.take(vx_it1.index() as int)),
//@afterloop 1
            proof { assert(self.solidity_allow_paths@.take(self.solidity_allow_paths@.len() as int) =~= self.solidity_allow_paths@); }
//@loop 2
                invariant str_refs(vx_it2.seq(), self.solidity_remappings@), wrapped(remappings_array@, self.solidity_remappings@.take(vx_it2.index() as int)),
//@afterloop 2
            proof { assert(self.solidity_remappings@.take(self.solidity_remappings@.len() as int) =~= self.solidity_remappings@); }
//@end
}
impl VyperCompilerSettings {
//@fn mutagenyx/src/compiler_settings.rs VyperCompilerSettings::to_preferences props=C18
//@ret r
//@spec
    ensures vy_held(r.map@, *self), // [C18]
//@entry
        proof { lits(); }
//@end
}
impl CompilerSettings {
//@fn mutagenyx/src/compiler_settings.rs CompilerSettings::to_preferences props=C18 exactfmt
//@ret r
//@spec
    ensures sol_held(comp_of(r.map@, "Solidity"@), self.solidity), vy_held(comp_of(r.map@, "Vyper"@), self.vyper), // [C18]
        got_map(r.map@, "Solidity"@) is Some, got_map(r.map@, "Vyper"@) is Some, // [C18]
//@entry
        proof { lits(); }
//@end
}
pub proof fn lemma_flag_each(flag: Seq<char>, v: Seq<PreferenceValue>, a: Seq<String>)
    requires wrapped(v, a),
    ensures each(Some(flag), v) == flag_each(flag, strv(a)), each(None, v) == strv(a), all_texts(v),
    decreases v.len(),
{
    if v.len() > 0 {
        lemma_flag_each(flag, v.drop_last(), a.drop_last());
        assert(strv(a).drop_last() =~= strv(a.drop_last()));
        assert(strv(a) =~= strv(a).drop_last().push(strv(a).last()));
    } else { assert(strv(a) =~= Seq::empty()); }
}
// the compiler is run with the options of the command line
pub proof fn lemma_cli_flags(p: Preferences, s: CompilerSettings) // [C18]
    requires sol_held(comp_of(p.map@, "Solidity"@), s.solidity), vy_held(comp_of(p.map@, "Vyper"@), s.vyper),
    ensures
        all_texts(list_of(got_arr(comp_of(p.map@, "Solidity"@), "allow-paths"@))), // [C18]
        sol_flags(comp_of(p.map@, "Solidity"@)) == cli_sol_flags(s.solidity), // [C18]
        vy_flags(comp_of(p.map@, "Vyper"@)) == opt2("-p"@, ostr(s.vyper.vyper_root_path)), // [C18]
        comp_path(comp_of(p.map@, "Solidity"@), "solc"@) == s.solidity.solidity_compiler@, // [C18]
        comp_path(comp_of(p.map@, "Vyper"@), "vyper"@) == s.vyper.vyper_compiler@, // [C18]
{
    let c = comp_of(p.map@, "Solidity"@);
    lemma_flag_each("--include-path"@, list_of(got_arr(c, "include-paths"@)), s.solidity.solidity_include_path@);
    lemma_flag_each(""@, list_of(got_arr(c, "allow-paths"@)), s.solidity.solidity_allow_paths@);
    lemma_flag_each(""@, list_of(got_arr(c, "remappings"@)), s.solidity.solidity_remappings@);
}
pub open spec fn sref(v: Seq<&&str>, a: Seq<&str>) -> bool { v.len() == a.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == a[i]@ }
// ---- source files and mutants ----
pub open spec fn texts_only(p: Preferences) -> bool { all_texts(list_of(got_arr(comp_of(p.map@, "Solidity"@), "allow-paths"@))) }
pub open spec fn sol_run(p: Preferences, own: Seq<Seq<char>>) -> bool { run_ok(comp_path(comp_of(p.map@, "Solidity"@), "solc"@), sol_flags(comp_of(p.map@, "Solidity"@)) + own) }
//@fn mutagenyx_lib/src/solidity/language_interface.rs invoke_compiler name=sol_invoke props=C18
//@ret r
//@spec
    ensures r == run_ok(compiler@, strv(args@)), // [C18]
//@subst core::str::from_utf8 ==> from_utf8
//@end
//@fn mutagenyx_lib/src/solidity/language_interface.rs file_compiles name=sol_compiles props=C18 loops=1
//@ret r
//@spec
    ensures texts_only(*prefs) ==> r == (sol_run(*prefs, seq!["--overwrite"@, "-o"@, temp_dir_text(), file_name@]) || sol_run(*prefs, seq!["--overwrite"@, "-o"@, temp_dir_text(), file_name@, "--stop-after"@, "parsing"@])), // [C18]
//@subst invoke_compiler( ==> sol_invoke(
//@entry
    broadcast use {lemma_strv_push, lemma_add_push};
//@beforeloop 0
    let ghost p0 = strv(full_compiler_args@);
    proof { assert(strr(args@).take(0) =~= Seq::empty()); assert(p0 + Seq::<Seq<char>>::empty() =~= p0); }
//@loop 0
        invariant sref(vx_it0.seq(), args@), strv(full_compiler_args@) == p0 + strr(args@).take(vx_it0.index() as int),
//@loopstart 0
        broadcast use {lemma_strv_push, lemma_add_push};
        proof { let i = vx_it0.index() as int; assert(strr(args@).take(i + 1) =~= strr(args@).take(i).push(strr(args@)[i])); }
//@afterloop 0
    proof { assert(strr(args@).take(args@.len() as int) =~= strr(args@)); 
        let own = seq!["--overwrite"@, "-o"@, temp_dir_text(), file_name@];
        assert(strr(args@) =~= own);
        assert((p0 + own).push("--stop-after"@).push("parsing"@) =~= p0 + seq!["--overwrite"@, "-o"@, temp_dir_text(), file_name@, "--stop-after"@, "parsing"@]); }
//@end
//@fn mutagenyx_lib/src/solidity/language_interface.rs file_is_source_file name=sol_is_source props=C18 loops=1
//@ret r
//@spec
    requires base_of(file_name@) is Some,
    ensures
        texts_only(*prefs) ==> (r is Ok <==> sol_run(*prefs, seq!["--ast-compact-json"@, "--overwrite"@, "-o"@, temp_dir_text(), file_name@])), // [C18]
        r is Ok ==> r->Ok_0@ == temp_dir_text() + "/"@ + base_of(file_name@)->0 + "_json.ast"@, // [C18]
//@subst core::str::from_utf8 ==> from_utf8
//@subst vx_string(std::path::MAIN_SEPARATOR) ==> vx_string("/")
//@entry
    broadcast use {lemma_strv_push, lemma_add_push};
//@beforeloop 0
    let ghost p0 = strv(full_compiler_args@);
    proof { assert(strr(args@).take(0) =~= Seq::empty()); assert(p0 + Seq::<Seq<char>>::empty() =~= p0); }
//@loop 0
        invariant sref(vx_it0.seq(), args@), strv(full_compiler_args@) == p0 + strr(args@).take(vx_it0.index() as int),
//@loopstart 0
        broadcast use {lemma_strv_push, lemma_add_push};
        proof { let i = vx_it0.index() as int; assert(strr(args@).take(i + 1) =~= strr(args@).take(i).push(strr(args@)[i])); }
//@afterloop 0
    proof { assert(strr(args@).take(args@.len() as int) =~= strr(args@)); assert(strr(args@) =~= seq!["--ast-compact-json"@, "--overwrite"@, "-o"@, temp_dir_text(), file_name@]); }
//@end
pub open spec fn vy_comp(p: Preferences) -> Seq<char> { comp_path(comp_of(p.map@, "Vyper"@), "vyper"@) }
pub open spec fn vy_run(p: Preferences, own: Seq<Seq<char>>) -> bool { run_ok(vy_comp(p), vy_flags(comp_of(p.map@, "Vyper"@)) + own) }
pub open spec fn docker_args(p: Preferences, file: Seq<char>, fmt: Seq<Seq<char>>, own: Seq<Seq<char>>) -> Seq<Seq<char>> {
    seq!["run"@, "-v"@, dir_of(file) + ":/code"@, "vyperlang/vyper"@] + fmt + vy_flags(comp_of(p.map@, "Vyper"@)) + own
}
//@fn mutagenyx_lib/src/vyper/language_interface.rs file_compiles_with_pip props=C18
//@ret r
//@spec
    ensures r == vy_run(*prefs, seq![file_name@]), // [C18]
//@subst core::str::from_utf8 ==> from_utf8
//@entry
    broadcast use {lemma_strv_push};
//@before shell_execute 0
    proof { let f = vy_flags(comp_of(prefs.map@, "Vyper"@)); assert(f.push(file_name@) =~= f + seq![file_name@]); }
//@end
//@fn mutagenyx_lib/src/vyper/language_interface.rs file_compiles_with_docker props=C18 exactfmt loops=1
//@ret r
//@spec
    ensures r == run_ok("docker"@, docker_args(*prefs, file_name@, Seq::empty(), seq![file_name@])), // [C18]
//@subst core::str::from_utf8 ==> from_utf8
//@entry
    broadcast use {lemma_strv_push, lemma_strv_empty};
    proof { reveal_strlit(""); }
//@beforeloop 0
    let ghost p0 = strv(args@); let ghost oc = other_compiler_args@;
    proof { assert(strv(oc).take(0) =~= Seq::empty()); assert(p0 + Seq::<Seq<char>>::empty() =~= p0); assert(""@ + dir_of(file_name@) =~= dir_of(file_name@));
        assert(p0 =~= seq!["run"@, "-v"@, dir_of(file_name@) + ":/code"@, "vyperlang/vyper"@] + Seq::<Seq<char>>::empty()); }
//@loop 0
        invariant vx_it0.seq() == oc, strv(args@) == p0 + strv(oc).take(vx_it0.index() as int),
//@loopstart 0
        broadcast use {lemma_strv_push, lemma_add_push};
        proof { let i = vx_it0.index() as int; assert(strv(oc).take(i + 1) =~= strv(oc).take(i).push(strv(oc)[i])); }
//@afterloop 0
    proof { assert(strv(oc).take(oc.len() as int) =~= strv(oc)); assert((p0 + strv(oc)).push(file_name@) =~= p0 + strv(oc) + seq![file_name@]); }
//@end
//@fn mutagenyx_lib/src/vyper/language_interface.rs file_compiles name=vy_compiles props=C18
//@ret r
//@spec
    ensures r == (vy_run(*prefs, seq![file_name@]) || run_ok("docker"@, docker_args(*prefs, file_name@, Seq::empty(), seq![file_name@]))), // [C18]
//@end
//@fn mutagenyx_lib/src/vyper/language_interface.rs file_is_source_file_with_docker props=C18 exactfmt loops=1
//@ret r
//@spec
    requires base_of(file_name@) is Some,
    ensures
        r is Ok <==> vy_docker_ast(*preferences, file_name@), // [C18]
        r is Ok ==> r->Ok_0@ == temp_dir_text() + "/"@ + base_of(file_name@)->0 + ".json"@, // [C18]
//@subst vx_string(std::path::MAIN_SEPARATOR) ==> vx_string("/")
//@entry
    broadcast use {lemma_strv_push, lemma_strv_empty};
    proof { reveal_strlit(""); }
//@beforeloop 0
    let ghost p0 = strv(args@); let ghost oc = other_compiler_args@;
    proof { assert(strv(oc).take(0) =~= Seq::empty()); assert(p0 + Seq::<Seq<char>>::empty() =~= p0); assert(""@ + dir_of(file_name@) =~= dir_of(file_name@));
        assert(p0 =~= seq!["run"@, "-v"@, dir_of(file_name@) + ":/code"@, "vyperlang/vyper"@] + seq!["-f"@, "ast"@]); }
//@loop 0
        invariant vx_it0.seq() == oc, strv(args@) == p0 + strv(oc).take(vx_it0.index() as int),
//@loopstart 0
        broadcast use {lemma_strv_push, lemma_add_push};
        proof { let i = vx_it0.index() as int; assert(strv(oc).take(i + 1) =~= strv(oc).take(i).push(strv(oc)[i])); }
//@afterloop 0
    proof { assert(strv(oc).take(oc.len() as int) =~= strv(oc));
        let o = temp_dir_text() + "/"@ + base_of(file_name@)->0 + ".json"@;
        assert((p0 + strv(oc)).push(file_name@).push("-o"@).push(o) =~= p0 + strv(oc) + seq![file_name@, "-o"@, o]); }
//@end
pub open spec fn vy_docker_ast(p: Preferences, f: Seq<char>) -> bool {
    run_ok("docker"@, docker_args(p, f, seq!["-f"@, "ast"@], seq![f, "-o"@, temp_dir_text() + "/"@ + base_of(f)->0 + ".json"@]))
}
// ---- the version of a Vyper compiler ----
#[verifier::external_body]
pub struct Versioning { _p: u8 }
// the versions crate: what a text says about a version
pub uninterp spec fn ver_opt(s: Seq<char>) -> Option<int>;
pub open spec fn ver(s: Seq<char>) -> int { ver_opt(s)->0 }
pub broadcast axiom fn ax_300() ensures #[trigger] ver_opt("3.0.0"@) is Some;
#[verifier::external_body]
pub struct Mess { _p: u8 }
pub uninterp spec fn mess(s: Seq<char>) -> Option<spec_fn(int) -> Option<u32>>;
impl Mess {
    pub uninterp spec fn at(&self) -> spec_fn(int) -> Option<u32>;
    #[verifier::external_body]
    pub fn new(s: &str) -> (r: Option<Mess>) ensures r is Some <==> mess(s@) is Some, r is Some ==> r->0.at() == mess(s@)->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn nth(&self, n: usize) -> (r: Option<u32>) ensures r == (self.at())(n as int) { unimplemented!() }
}
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn vx_trim_end(s: &str) -> (r: &str) ensures r@ == trimmed(s@) { unimplemented!() }
vx_disp!(u32, s, { dec(*s as int) }, { JV::Num(NumV::Int(*s as int)) });
pub open spec fn part(m: spec_fn(int) -> Option<u32>, n: int) -> Seq<char> { match m(n) { Some(x) => dec(x as int), None => Seq::empty() } }
// the first three numbers of the version text, or else the whole text, read as a version
pub open spec fn version_in(t: Seq<char>) -> Option<int> {
    match mess(trimmed(t)) {
        Some(m) => match ver_opt(part(m, 0) + "."@ + part(m, 1) + "."@ + part(m, 2)) { Some(v) => Some(v), None => ver_opt(trimmed(t)) },
        None => None,
    }
}
pub open spec fn version_of(c: Seq<char>) -> Option<int> { if run_ok(c, seq!["--version"@]) { version_in(out_text(c, seq!["--version"@])) } else { None } }
impl View for Versioning { type V = int; uninterp spec fn view(&self) -> int; }
impl Versioning {
    #[verifier::external_body]
    pub fn new(s: &str) -> (r: Option<Versioning>) ensures r is Some <==> ver_opt(s@) is Some, r is Some ==> r->0@ == ver(s@) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_ver_ge(a: &Versioning, b: &Versioning) -> (r: bool) ensures r == (a@ >= b@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_write_file(f: &mut File, t: &str) -> (r: Result<(), Foreign>) { unimplemented!() }
//@fn mutagenyx_lib/src/vyper/language_interface.rs get_vyper_compiler_version props=C18
//@ret r
//@spec
    ensures r is Ok <==> version_of(compiler@) is Some, r is Ok ==> r->Ok_0@ == version_of(compiler@)->0, // [C18]
//@subst core::str::from_utf8 ==> from_utf8
//@subst output_version.trim_end() ==> vx_trim_end(output_version)
//@entry
    broadcast use lemma_strv_one;
    proof { reveal_strlit(""); }
//@end
pub open spec fn vy_ast_args(p: Preferences, f: Seq<char>) -> Seq<Seq<char>> {
    if version_of(vy_comp(p))->0 >= ver("3.0.0"@) { seq!["-f"@, "ast"@, "-o"@, joined(temp_dir_text(), base_of(f)->0 + ".json"@), f] } else { seq!["-f"@, "ast"@, f] }
}
//@fn mutagenyx_lib/src/vyper/language_interface.rs file_is_source_file_with_vyper_from_pip props=C18 loops=1
//@ret r
//@spec
    requires base_of(file_name@) is Some,
    ensures
        r is Ok ==> version_of(vy_comp(*preferences)) is Some && vy_run(*preferences, vy_ast_args(*preferences, file_name@)), // [C18]
        version_of(vy_comp(*preferences)) is Some && version_of(vy_comp(*preferences))->0 >= ver("3.0.0"@) && vy_run(*preferences, vy_ast_args(*preferences, file_name@)) ==> r is Ok, // [C18]
        r is Ok ==> r->Ok_0@ == joined(temp_dir_text(), base_of(file_name@)->0 + ".json"@), // [C18]
//@subst core::str::from_utf8 ==> from_utf8
//@subst discovered_compiler_version >= first_version_to_support_dash_o ==> vx_ver_ge(&discovered_compiler_version, &first_version_to_support_dash_o)
//@subst std::fs::File::create ==> std_fs::create
//@subst write!(file, "{ast_contents}") ==> vx_write_file(&mut file, ast_contents)
//@entry
    broadcast use {lemma_strv_push, ax_300};
//@beforeloop 0
    let ghost p0 = strv(full_compiler_args@); let ghost oc = args@;
    proof { assert(strr(oc).take(0) =~= Seq::empty()); assert(p0 + Seq::<Seq<char>>::empty() =~= p0); assert(strr(oc) =~= vy_ast_args(*preferences, file_name@)); }
//@loop 0
        invariant vx_it0.seq() == oc, strv(full_compiler_args@) == p0 + strr(oc).take(vx_it0.index() as int),
//@loopstart 0
        broadcast use {lemma_strv_push, lemma_add_push};
        proof { let i = vx_it0.index() as int; assert(strr(oc).take(i + 1) =~= strr(oc).take(i).push(strr(oc)[i])); }
//@afterloop 0
    proof { assert(strr(oc).take(oc.len() as int) =~= strr(oc)); }
//@end
