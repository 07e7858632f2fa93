// ---- the command line program ----
// std::path: a file name followed by a suffix without separators is again a file name, and the last part of a joined path
pub open spec fn no_sep(s: Seq<char>) -> bool { !s.contains('/') }
pub axiom fn ax_joined_base(x: Seq<char>, d: Seq<char>, s: Seq<char>)
    requires base_of(x) is Some, no_sep(s),
    ensures base_of(joined(d, base_of(x)->0 + s)) == Some(base_of(x)->0 + s);
pub open spec fn ends(s: Seq<char>, e: Seq<char>) -> bool { e.len() <= s.len() && s.skip(s.len() - e.len()) == e }
// joining a relative name appends it
pub axiom fn ax_joined_ends(x: Seq<char>, d: Seq<char>, s: Seq<char>)
    requires base_of(x) is Some, no_sep(s),
    ensures ends(joined(d, base_of(x)->0 + s), base_of(x)->0 + s);
// std: decimal digits
pub axiom fn ax_digits(n: int) ensures dec(n).len() > 0, forall|i: int| 0 <= i < dec(n).len() ==> '0' <= (#[trigger] dec(n)[i]) <= '9';
pub type Path = PathBuf;
#[verifier::external_body]
pub fn vx_ends_with(s: &String, e: &str) -> (r: bool) ensures r == ends(s@, e@) { unimplemented!() }
// the file a tree of language l from the file f is printed to in the directory d: the name of f, with the extension of the language
pub open spec fn dot_ext(l: Language) -> Seq<char> { "."@ + lang_ext(l) }
pub open spec fn out_name(l: Language, f: Seq<char>) -> Seq<char> { base_of(f)->0 + (if ends(f, dot_ext(l)) { ""@ } else { dot_ext(l) }) }
pub open spec fn out_path(l: Language, f: Seq<char>, d: Seq<char>) -> Seq<char> { joined(d, out_name(l, f)) }
pub open spec fn lang_of(a: SuperAST) -> Language { match a { SuperAST::Solidity(_) => Language::Solidity, SuperAST::Vyper(_) => Language::Vyper } }
pub proof fn lemma_out(l: Language, f: Seq<char>, d: Seq<char>)
    requires base_of(f) is Some,
    ensures base_of(out_path(l, f, d)) == Some(out_name(l, f)),
{
    lits(); reveal_strlit("."); reveal_strlit("sol"); reveal_strlit("vy"); reveal_strlit("");
    assert(no_sep(dot_ext(l))) by { assert forall|i: int| 0 <= i < dot_ext(l).len() implies dot_ext(l)[i] != '/' by {} }
    assert(no_sep(""@));
    ax_joined_base(f, d, dot_ext(l)); ax_joined_base(f, d, ""@);
}
//@fn mutagenyx_lib/src/super_ast.rs language_for_ast props=C19,C23
//@ret r
//@spec
    ensures r == lang_of(*ast), // [C19,C23]
//@end
//@fn mutagenyx/src/pretty_printing.rs pretty_print_ast props=C19
//@ret r
//@spec
    requires base_of(file_name@) is Some, may_put(out_path(lang_of(*ast), file_name@, output_dir@), lang_of(*ast), sast(*ast)),
    ensures r is Ok ==> r->Ok_0@ == out_path(lang_of(*ast), file_name@, output_dir@) && put(r->Ok_0@, lang_of(*ast), sast(*ast)), // [C19]
        io_ok() ==> r is Ok, // [C19]
//@subst sfile_name.ends_with(file_extension.as_str()) ==> vx_ends_with(&sfile_name, file_extension.as_str())
//@subst std::fs:: ==> std_fs::
//@entry
    proof { lits(); lemma_out(lang_of(*ast), file_name@, output_dir@); }
//@end
//@fn mutagenyx/src/pretty_printing.rs pretty_print_ast_to_stream props=C19
//@ret r
//@spec
    ensures r is Ok, shown(lang_of(*ast), sast(*ast)), // [C19]
//@subst &mut dyn Write ==> &mut Stdout
//@end
// a tree of the language l that the file f holds, or that the compiler of l makes of it
pub open spec fn tree_of(p: Preferences, f: Seq<char>, l: Language, j: JV) -> bool { exists|t: FileType, a: SuperAST| #[trigger] loaded(l, p, f, t, a) && j == sast(a) }
// the file holds a program: a source its compiler takes, or a syntax tree
pub open spec fn readable(p: Preferences, f: Seq<char>) -> bool {
    &&& base_of(f) is Some
    &&& conf_rec(f) is None
    &&& {
        ||| !may_src(Language::Solidity, p, f) && !may_src(Language::Vyper, p, f) && ast_rec(f) is Some
        ||| must_src(Language::Solidity, p, f) && must_make(Language::Solidity, p, f)
        ||| !may_src(Language::Solidity, p, f) && must_src(Language::Vyper, p, f) && must_make(Language::Vyper, p, f)
    }
}
pub open spec fn may_copy(p: Preferences, f: Seq<char>, d: Seq<char>) -> bool {
    base_of(f) is Some && forall|l: Language, j: JV| #[trigger] tree_of(p, f, l, j) ==> may_put(out_path(l, f, d), l, j)
}
pub open spec fn copied(p: Preferences, f: Seq<char>, d: Seq<char>) -> bool { exists|l: Language, j: JV| #[trigger] tree_of(p, f, l, j) && put(out_path(l, f, d), l, j) }
pub open spec fn copy_shown(p: Preferences, f: Seq<char>) -> bool { exists|l: Language, j: JV| #[trigger] tree_of(p, f, l, j) && shown(l, j) }
//@fn mutagenyx/src/pretty_printing.rs pretty_print_file props=C19,C20
//@ret r
//@spec
    requires may_copy(*old(preferences), file_name@, output_directory@),
    ensures *final(preferences) == *old(preferences),
        r is Ok ==> copied(*old(preferences), file_name@, output_directory@), // [C19,C20]
        io_ok() && readable(*old(preferences), file_name@) ==> r is Ok, // [C20]
//@subst sfile_name.ends_with(file_extension.as_str()) ==> vx_ends_with(&sfile_name, file_extension.as_str())
//@subst std::fs:: ==> std_fs::
//@after load_ast_from_file 0
    proof {
        lits(); let l = language_object.lang();
        assert(lang_of(ast) == l); lemma_out(l, file_name@, output_directory@);
        assert(loaded(l, *old(preferences), file_name@, recognize_result.file_type, ast));
        assert(tree_of(*old(preferences), file_name@, l, sast(ast)));
    }
//@end
//@fn mutagenyx/src/pretty_printing.rs pretty_print_file_to_stream props=C19,C20
//@ret r
//@spec
    requires base_of(file_name@) is Some,
    ensures *final(preferences) == *old(preferences),
        r is Ok ==> copy_shown(*old(preferences), file_name@), // [C19,C20]
        readable(*old(preferences), file_name@) ==> r is Ok, // [C20]
//@subst &mut dyn Write ==> &mut Stdout
//@after load_ast_from_file 0
    proof {
        let l = language_object.lang();
        assert(loaded(l, *old(preferences), file_name@, recognize_result.file_type, ast));
        assert(tree_of(*old(preferences), file_name@, l, sast(ast)));
    }
//@end
// ---- pretty-print ----
//@item mutagenyx/src/main.rs PrettyPrintCLArgs
// the settings of the command line
pub open spec fn cl_says(m: PM, c: Seq<char>, b: Option<String>, i: Seq<String>, a: Seq<String>, r: Seq<String>, s: Option<String>, vc: Seq<char>, vr: Option<String>) -> bool {
    let sm = comp_of(m, "Solidity"@); let vm = comp_of(m, "Vyper"@);
    &&& got_str(sm, "path"@) == Some(c) && got_str(sm, "base-path"@) == ostr(b) && got_str(sm, "stop-after"@) == ostr(s)
    &&& wrapped(list_of(got_arr(sm, "include-paths"@)), i) && wrapped(list_of(got_arr(sm, "allow-paths"@)), a) && wrapped(list_of(got_arr(sm, "remappings"@)), r)
    &&& got_str(vm, "path"@) == Some(vc) && got_str(vm, "root-path"@) == ostr(vr)
}
pub open spec fn pp_prefs(a: PrettyPrintCLArgs, p: Preferences) -> bool {
    cl_says(p.map@, a.solidity_compiler@, a.solidity_base_path, a.solidity_include_path@, a.solidity_allow_paths@, a.solidity_remapping@, a.solidity_stop_after, a.vyper_compiler@, a.vyper_root_path)
}
pub open spec fn pp_done(a: PrettyPrintCLArgs, p: Preferences, i: int) -> bool {
    readable(p, a.file@[i]@) && io_ok() ==> if a.stdout { copy_shown(p, a.file@[i]@) } else { copied(p, a.file@[i]@, a.output_directory@) }
}
//@fn mutagenyx/src/pretty_printing.rs pretty_print_files props=C20 loops=1
//@ret r
//@spec
    requires
        forall|i: int| 0 <= i < args.file@.len() ==> base_of((#[trigger] args.file@[i])@) is Some,
        forall|p: Preferences, i: int| #[trigger] pp_prefs(args, p) && 0 <= i < args.file@.len() && !args.stdout ==> may_copy(p, (#[trigger] args.file@[i])@, args.output_directory@),
    ensures
        // every listed file that holds a program was printed, whatever happened to the others
        exists|p: Preferences| pp_prefs(args, p) && forall|i: int| 0 <= i < args.file@.len() ==> #[trigger] pp_done(args, p, i), // [C20]
//@subst std::io::stdout() ==> vx_stdout()
//@entry
    let ghost a0 = args;
//@beforeloop 0
    let ghost p0 = preferences;
    proof { assert(pp_prefs(a0, p0)); }
//@loop 0
        invariant
            vx_it0.seq() == a0.file@, pp_prefs(a0, p0), preferences == p0, args.stdout == a0.stdout, args.output_directory == a0.output_directory,
            forall|i: int| 0 <= i < a0.file@.len() ==> base_of((#[trigger] a0.file@[i])@) is Some,
            forall|i: int| 0 <= i < a0.file@.len() && !a0.stdout ==> may_copy(p0, (#[trigger] a0.file@[i])@, a0.output_directory@),
            forall|i: int| 0 <= i < vx_it0.index() ==> #[trigger] pp_done(a0, p0, i), // [C20]
//@loopstart 0
        proof { assert(file_name == a0.file@[vx_it0.index() as int]); }
//@end
// ---- mutate ----
//@include alg_all.vrs assumed
// the algorithms named in a list of texts
pub open spec fn named_s(a: Seq<Seq<char>>) -> Seq<MT>
    decreases a.len(),
{ if a.len() == 0 { Seq::empty() } else if is_mut_name(a.last()) { named_s(a.drop_last()).push(mut_of(a.last())) } else { named_s(a.drop_last()) } }
pub proof fn lemma_named_s(a: Seq<String>, n: int)
    requires 0 <= n < a.len(),
    ensures named_s(strv(a.take(n + 1))) == (if is_mut_name(a[n]@) { named_s(strv(a.take(n))).push(mut_of(a[n]@)) } else { named_s(strv(a.take(n))) }),
{ assert(strv(a.take(n + 1)).drop_last() =~= strv(a.take(n))); }
//@fn mutagenyx/src/mutation_generator.rs get_mutation_types_from_strings props=C09,C20 loops=1
//@ret r
//@spec
    ensures r@ == named_s(strv(array@)), // [C09,C20]
//@loop 0
        invariant vx_it0.seq().len() == array@.len(), forall|i: int| 0 <= i < array@.len() ==> *(#[trigger] vx_it0.seq()[i]) == array@[i],
            mts(vx_o0@) == named_s(strv(array@.take(vx_it0.index() as int))),
//@loopstart 0
        proof { lemma_named_s(array@, vx_it0.index() as int); lemma_names(); }
//@entry
    proof { assert(strv(array@.take(0)) =~= Seq::empty()); assert(array@.take(array@.len() as int) =~= array@); }
//@end
// what --function allows: everything may be visited; without names everything may be mutated, with names exactly the named nodes and what is inside them
pub open spec fn fn_allows(names: Seq<Seq<char>>, a: PV) -> bool {
    if !a.mutate || names.len() == 0 { sval(a.scope) }
    else { exists|i: int| 0 <= i < names.len() && (a.scope == SV::Name(OV::Value(#[trigger] names[i], true)) || a.scope == SV::Children(OV::Value(names[i], true))) }
}
pub open spec fn fn_pvs(names: Seq<Seq<char>>) -> Seq<PV>
    decreases names.len(),
{
    if names.len() == 0 { Seq::empty() } else {
        fn_pvs(names.drop_last()).push(PV { mutate: true, scope: SV::Name(OV::Value(names.last(), true)) }).push(PV { mutate: true, scope: SV::Children(OV::Value(names.last(), true)) })
    }
}
pub proof fn lemma_fn_pvs(names: Seq<Seq<char>>, a: PV)
    ensures granted(fn_pvs(names), a) == (a.mutate && names.len() > 0 && fn_allows(names, a)),
    decreases names.len(),
{
    if names.len() > 0 {
        let n0 = names.drop_last(); let p0 = fn_pvs(n0); let p = fn_pvs(names);
        lemma_fn_pvs(n0, a);
        assert(forall|i: int| 0 <= i < p0.len() ==> p[i] == p0[i]);
        assert(forall|i: int| 0 <= i < n0.len() ==> names[i] == n0[i]);
        let x = PV { mutate: true, scope: SV::Name(OV::Value(names.last(), true)) };
        let y = PV { mutate: true, scope: SV::Children(OV::Value(names.last(), true)) };
        assert(p[p0.len() as int] == x && p[(p0.len() + 1) as int] == y);
        if granted(p0, a) { let i = choose|i: int| 0 <= i < p0.len() && covers(#[trigger] p0[i], a); assert(covers(p[i], a)); }
        if granted(p, a) { let i = choose|i: int| 0 <= i < p.len() && covers(#[trigger] p[i], a); if i < p0.len() { assert(covers(p0[i], a)); } }
        assert(covers(x, a) <==> a.mutate && a.scope == SV::Name(OV::Value(names[names.len() - 1], true)));
        assert(covers(y, a) <==> a.mutate && a.scope == SV::Children(OV::Value(names[names.len() - 1], true)));
    }
}
pub open spec fn fn_perms(names: Seq<Seq<char>>, p: Permissions) -> bool { forall|a: PV| #[trigger] p.allows(a) == fn_allows(names, a) }
pub proof fn lemma_granted_push(l: Seq<PV>, x: PV, a: PV) ensures granted(l.push(x), a) == (granted(l, a) || covers(x, a)) {
    assert(l.push(x)[l.len() as int] == x);
    if granted(l, a) { let i = choose|i: int| 0 <= i < l.len() && covers(#[trigger] l[i], a); assert(l.push(x)[i] == l[i]); }
    if granted(l.push(x), a) { let i = choose|i: int| 0 <= i < l.push(x).len() && covers(#[trigger] l.push(x)[i], a); if i < l.len() { assert(covers(l[i], a)); } }
}
//@fn mutagenyx/src/mutation_generator.rs convert_function_names_to_permissions props=C01 loops=1
//@ret r
//@spec
    ensures fn_perms(strv(names@), r), // [C01]
//@loop 0
            invariant str_refs(vx_it0.seq(), names@), pvs(permissions.permissions@) == fn_pvs(strv(names@.take(vx_it0.index() as int))),
//@beforeloop 0
    proof { assert(strv(names@.take(0)) =~= Seq::empty()); }
//@loopstart 0
            proof { let i = vx_it0.index() as int; assert(strv(names@.take(i + 1)).drop_last() =~= strv(names@.take(i))); assert(strv(names@.take(i + 1)).last() == names@[i]@); }
//@afterloop 0
    proof { assert(names@.take(names@.len() as int) =~= names@); }
//@before add_permission 3
    let ghost q = pvs(permissions.permissions@);
//@after add_permission 3
    proof {
        assert forall|a: PV| #[trigger] permissions.allows(a) == fn_allows(strv(names@), a) by {
            lemma_fn_pvs(strv(names@), a);
            lemma_granted_push(q, pvs(permissions.permissions@).last(), a);
            lemma_granted_push(Seq::empty(), PV { mutate: true, scope: SV::Any(true) }, a);
        }
    }
//@end
