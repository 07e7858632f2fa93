// ---- the language delegates: source files, syntax tree files ----
pub open spec fn sol_ast(j: JV) -> bool { j.is_str("nodeType"@, "SourceUnit"@) }
pub open spec fn vy_ast(j: JV) -> bool { j.has("contract_name"@) && j.has("ast"@) }
pub open spec fn sol_out(f: Seq<char>) -> Seq<char> { temp_dir_text() + "/"@ + base_of(f)->0 + "_json.ast"@ }
pub open spec fn sol_src(p: Preferences, f: Seq<char>) -> bool { sol_run(p, seq!["--ast-compact-json"@, "--overwrite"@, "-o"@, temp_dir_text(), f]) }
pub open spec fn vy_pip(p: Preferences, f: Seq<char>) -> bool { version_of(vy_comp(p)) is Some && vy_run(p, vy_ast_args(p, f)) }
pub open spec fn vy_new(p: Preferences) -> bool { version_of(vy_comp(p)) is Some && version_of(vy_comp(p))->0 >= ver("3.0.0"@) }
pub open spec fn vy_pip_out(f: Seq<char>) -> Seq<char> { joined(temp_dir_text(), base_of(f)->0 + ".json"@) }
pub open spec fn vy_docker_out(f: Seq<char>) -> Seq<char> { temp_dir_text() + "/"@ + base_of(f)->0 + ".json"@ }
// ---- what each language promises about files ----
pub open spec fn is_ast(l: Language, j: JV) -> bool { match l { Language::Solidity => sol_ast(j), Language::Vyper => vy_ast(j) } }
// the compiler takes the file: `may` holds whenever the answer is yes, `must` makes it yes (they differ only where a temporary file cannot be written)
pub open spec fn may_src(l: Language, p: Preferences, f: Seq<char>) -> bool {
    match l { Language::Solidity => texts_only(p) ==> sol_src(p, f), Language::Vyper => vy_pip(p, f) || vy_docker_ast(p, f) }
}
pub open spec fn must_src(l: Language, p: Preferences, f: Seq<char>) -> bool {
    match l { Language::Solidity => texts_only(p) && sol_src(p, f), Language::Vyper => (vy_new(p) && vy_pip(p, f)) || vy_docker_ast(p, f) }
}
// a tree the compiler made from the file
pub open spec fn made_tree(l: Language, p: Preferences, f: Seq<char>, t: JV) -> bool {
    is_ast(l, t) && match l {
        Language::Solidity => (texts_only(p) ==> sol_src(p, f)) && file_json(sol_out(f)) == Some(t),
        Language::Vyper => (vy_pip(p, f) && file_json(vy_pip_out(f)) == Some(t)) || (vy_docker_ast(p, f) && file_json(vy_docker_out(f)) == Some(t)),
    }
}
pub open spec fn must_make(l: Language, p: Preferences, f: Seq<char>) -> bool {
    match l {
        Language::Solidity => texts_only(p) && sol_src(p, f) && file_json(sol_out(f)) is Some && sol_ast(file_json(sol_out(f))->0),
        Language::Vyper => vy_new(p) && vy_pip(p, f) && file_json(vy_pip_out(f)) is Some && vy_ast(file_json(vy_pip_out(f))->0),
    }
}
pub open spec fn may_compile(l: Language, p: Preferences, f: Seq<char>) -> bool {
    match l { Language::Solidity => texts_only(p) ==> sol_ok(p, f), Language::Vyper => vy_ok(p, f) }
}
pub open spec fn must_compile(l: Language, p: Preferences, f: Seq<char>) -> bool {
    match l { Language::Solidity => texts_only(p) && sol_ok(p, f), Language::Vyper => vy_ok(p, f) }
}
pub open spec fn sol_ok(p: Preferences, f: Seq<char>) -> bool {
    sol_run(p, seq!["--overwrite"@, "-o"@, temp_dir_text(), f]) || sol_run(p, seq!["--overwrite"@, "-o"@, temp_dir_text(), f, "--stop-after"@, "parsing"@])
}
pub open spec fn vy_ok(p: Preferences, f: Seq<char>) -> bool { vy_run(p, seq![f]) || run_ok("docker"@, docker_args(p, f, Seq::empty(), seq![f])) }
pub open spec fn lang_ext(l: Language) -> Seq<char> { match l { Language::Solidity => "sol"@, Language::Vyper => "vy"@ } }
pub open spec fn lang_compiler(l: Language) -> Seq<char> { match l { Language::Solidity => "solc"@, Language::Vyper => "vyper"@ } }
pub trait JSONLanguageDelegate {
    spec fn lang(&self) -> Language;
    fn recover_ast<'a>(&self, super_ast: &'a SuperAST) -> (r: Result<&'a Value, MutagenyxError>)
        ensures r is Ok <==> has_lang(self.lang(), *super_ast), r is Ok ==> r->Ok_0@ == sast(*super_ast), // [C23]
    ;
    fn get_value_as_super_ast(&self, value: Value) -> (r: Result<SuperAST, MutagenyxError>)
        ensures r is Ok <==> is_ast(self.lang(), value@), r is Ok ==> has_lang(self.lang(), r->Ok_0) && sast(r->Ok_0) == value@, // [C23]
    ;
    fn json_is_language_ast_json(&self, value: &Value) -> (r: bool)
        ensures !(value@ is Arr) ==> r == is_ast(self.lang(), value@), r ==> !(value@ is Arr), // [C23]
    ;
    fn convert_source_file_to_ast(&self, file_name: &str, prefs: &Preferences) -> (r: Result<SuperAST, MutagenyxError>)
        requires base_of(file_name@) is Some,
        ensures r is Ok ==> has_lang(self.lang(), r->Ok_0) && made_tree(self.lang(), *prefs, file_name@, sast(r->Ok_0)), // [C18,C23]
            must_make(self.lang(), *prefs, file_name@) ==> r is Ok, // [C18,C23]
    ;
    fn file_is_language_source_file(&self, file_name: &str, prefs: &Preferences) -> (r: bool)
        requires base_of(file_name@) is Some,
        ensures r ==> may_src(self.lang(), *prefs, file_name@), must_src(self.lang(), *prefs, file_name@) ==> r, // [C18,C23]
    ;
    fn implements(&self) -> (r: Language)
        ensures r == self.lang(), // [C23]
    ;
    fn get_file_extension(&self) -> (r: &str)
        ensures r@ == lang_ext(self.lang()), // [C19]
    ;
    fn default_compiler_settings(&self) -> (r: Preferences)
        ensures comp_path(r.map@, lang_compiler(self.lang())) == lang_compiler(self.lang()), // [C18]
    ;
    fn mutant_compiles(&self, file_name: &str, prefs: &Preferences) -> (r: bool)
        ensures r ==> may_compile(self.lang(), *prefs, file_name@), must_compile(self.lang(), *prefs, file_name@) ==> r, // [C18]
    ;
}
#[verifier::external_body]
pub struct SolidityLanguageSubDelegate { _p: u8 }
#[verifier::external_body]
pub struct VyperLanguageDelegate { _p: u8 }
impl SolidityLanguageSubDelegate {
    #[verifier::external_body]
    pub fn new() -> (r: SolidityLanguageSubDelegate) { unimplemented!() }
}
impl JSONLanguageDelegate for SolidityLanguageSubDelegate {
    closed spec fn lang(&self) -> Language { Language::Solidity }
//@fn mutagenyx_lib/src/solidity/language_interface.rs JSONLanguageDelegate@SolidityLanguageSubDelegate::recover_ast props=C23
//@end
//@fn mutagenyx_lib/src/solidity/language_interface.rs JSONLanguageDelegate@SolidityLanguageSubDelegate::get_value_as_super_ast props=C23
//@end
//@fn mutagenyx_lib/src/solidity/language_interface.rs JSONLanguageDelegate@SolidityLanguageSubDelegate::json_is_language_ast_json props=C23
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/language_interface.rs JSONLanguageDelegate@SolidityLanguageSubDelegate::convert_source_file_to_ast props=C18,C23
//@subst file_is_source_file( ==> sol_is_source(
//@end
//@fn mutagenyx_lib/src/solidity/language_interface.rs JSONLanguageDelegate@SolidityLanguageSubDelegate::file_is_language_source_file props=C18,C23
//@subst file_is_source_file( ==> sol_is_source(
//@end
//@fn mutagenyx_lib/src/solidity/language_interface.rs JSONLanguageDelegate@SolidityLanguageSubDelegate::implements props=C23
//@end
//@fn mutagenyx_lib/src/solidity/language_interface.rs JSONLanguageDelegate@SolidityLanguageSubDelegate::get_file_extension props=C19
//@end
//@fn mutagenyx_lib/src/solidity/language_interface.rs JSONLanguageDelegate@SolidityLanguageSubDelegate::default_compiler_settings props=C18
//@end
//@fn mutagenyx_lib/src/solidity/language_interface.rs JSONLanguageDelegate@SolidityLanguageSubDelegate::mutant_compiles props=C18
//@subst file_compiles( ==> sol_compiles(
//@end
}
impl VyperLanguageDelegate {
    #[verifier::external_body]
    pub fn new() -> (r: VyperLanguageDelegate) { unimplemented!() }
}
impl JSONLanguageDelegate for VyperLanguageDelegate {
    closed spec fn lang(&self) -> Language { Language::Vyper }
//@fn mutagenyx_lib/src/vyper/language_interface.rs JSONLanguageDelegate@VyperLanguageDelegate::recover_ast props=C23
//@end
//@fn mutagenyx_lib/src/vyper/language_interface.rs JSONLanguageDelegate@VyperLanguageDelegate::get_value_as_super_ast props=C23
//@end
//@fn mutagenyx_lib/src/vyper/language_interface.rs JSONLanguageDelegate@VyperLanguageDelegate::json_is_language_ast_json props=C23
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/language_interface.rs JSONLanguageDelegate@VyperLanguageDelegate::convert_source_file_to_ast props=C18,C23
//@end
//@fn mutagenyx_lib/src/vyper/language_interface.rs JSONLanguageDelegate@VyperLanguageDelegate::file_is_language_source_file props=C18,C23
//@end
//@fn mutagenyx_lib/src/vyper/language_interface.rs JSONLanguageDelegate@VyperLanguageDelegate::implements props=C23
//@end
//@fn mutagenyx_lib/src/vyper/language_interface.rs JSONLanguageDelegate@VyperLanguageDelegate::get_file_extension props=C19
//@end
//@fn mutagenyx_lib/src/vyper/language_interface.rs JSONLanguageDelegate@VyperLanguageDelegate::default_compiler_settings props=C18
//@end
//@fn mutagenyx_lib/src/vyper/language_interface.rs JSONLanguageDelegate@VyperLanguageDelegate::mutant_compiles props=C18
//@subst file_compiles( ==> vy_compiles(
//@end
}
//@fn mutagenyx_lib/src/solidity/delegate.rs get_solidity_delegate props=C23
//@ret r
//@spec
    ensures r.lang() == Language::Solidity, // [C23]
//@end
//@fn mutagenyx_lib/src/vyper/delegate.rs get_vyper_delegate props=C23
//@ret r
//@spec
    ensures r.lang() == Language::Vyper, // [C23]
//@end
