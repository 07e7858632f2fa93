//@include rec_spec.vrs
pub trait MutableLanguage {
    spec fn lang(&self) -> Language;
//@include lang_file.vrs
}
// the visitor that prints to a file
#[verifier::external_body]
pub struct PPV { _p: u8 }
impl PPV {
    pub uninterp spec fn to(&self) -> Option<Seq<char>>;
    pub uninterp spec fn of(&self) -> Language;
}
impl dyn JSONLanguageDelegate {
    #[verifier::external_body]
    pub fn get_pretty_print_visitor<W: Write>(&self, stream: &mut W, p: &mut PrettyPrinter) -> (r: PPV)
        ensures r.to() == old(stream).dest(), r.of() == self.lang(),
    { unimplemented!() }
}
// printing a tree is its traversal by the printing visitor
#[verifier::external_body]
pub fn vx_print(t: &Value, v: &mut PPV)
    requires old(v).to() is Some ==> own(old(v).to()->0) || may_put(old(v).to()->0, old(v).of(), t@), // [C19]
    ensures old(v).to() is Some ==> put(old(v).to()->0, old(v).of(), t@), old(v).to() is None ==> shown(old(v).of(), t@),
{ unimplemented!() }
//@item mutagenyx_lib/src/json_ast_language_interface.rs JSONLanguageInterface %% HashMap<MutationType, Box<dyn Mutator<Value>>> ==> StrMap<u64>
impl JSONLanguageInterface {
//@fn mutagenyx_lib/src/json_ast_language_interface.rs JSONLanguageInterface::new props=C23
//@ret r
//@spec
    ensures r.delegate.lang() == delegate.lang(), // [C23]
//@end
//@fn mutagenyx_lib/src/json_ast_language_interface.rs JSONLanguageInterface::recover_json_ast props=C23
//@ret r
//@spec
    ensures r is Ok <==> has_lang(self.delegate.lang(), *ast), r is Ok ==> r->Ok_0@ == sast(*ast), // [C23]
//@end
}
impl MutableLanguage for JSONLanguageInterface {
    closed spec fn lang(&self) -> Language { self.delegate.lang() }
//@fn mutagenyx_lib/src/json_ast_language_interface.rs MutableLanguage@JSONLanguageInterface::load_ast_from_file props=C23
//@end
//@fn mutagenyx_lib/src/json_ast_language_interface.rs MutableLanguage@JSONLanguageInterface::pretty_print_ast_to_file props=C19
//@subst std::fs::File::create( ==> std_fs::create(
//@subst ASTTraverser::traverse(actual_ast, &mut *pretty_print_visitor) ==> vx_print(actual_ast, &mut pretty_print_visitor)
//@end
//@fn mutagenyx_lib/src/json_ast_language_interface.rs MutableLanguage@JSONLanguageInterface::pretty_print_ast_to_stream props=C19
//@subst &mut dyn Write ==> &mut Stdout
//@subst ASTTraverser::traverse(actual_ast, &mut *pretty_print_visitor) ==> vx_print(actual_ast, &mut pretty_print_visitor)
//@end
//@fn mutagenyx_lib/src/json_ast_language_interface.rs MutableLanguage@JSONLanguageInterface::get_extension_for_output_file props=C19
//@end
//@fn mutagenyx_lib/src/json_ast_language_interface.rs MutableLanguage@JSONLanguageInterface::file_is_language_source_file props=C23
//@end
//@fn mutagenyx_lib/src/json_ast_language_interface.rs MutableLanguage@JSONLanguageInterface::convert_source_file_to_ast props=C23
//@end
//@fn mutagenyx_lib/src/json_ast_language_interface.rs MutableLanguage@JSONLanguageInterface::file_is_language_ast_file props=C23
//@end
//@fn mutagenyx_lib/src/json_ast_language_interface.rs MutableLanguage@JSONLanguageInterface::default_compiler_settings props=C18
//@end
//@fn mutagenyx_lib/src/json_ast_language_interface.rs MutableLanguage@JSONLanguageInterface::mutant_compiles props=C18,C19 exactfmt
//@subst std::fs:: ==> std_fs::
//@entry
        proof { lits(); reveal_strlit(""); assert(""@ + "mutagenyx_"@ =~= "mutagenyx_"@); }
//@after create_dir_all 0 ?
        proof { assert(source_directory@ == own_dir()); }
//@end
//@fn mutagenyx_lib/src/json_ast_language_interface.rs MutableLanguage@JSONLanguageInterface::implements props=C23
//@end
}
