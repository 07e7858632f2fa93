//@item mutagenyx_lib/src/language_interface.rs LanguageInterface
impl LanguageInterface {
//@fn mutagenyx_lib/src/language_interface.rs LanguageInterface::get_language_object_for_language props=C23
//@ret r
//@spec
    ensures r is Ok, r->Ok_0.lang() == *language, // [C23]
//@end
//@fn mutagenyx_lib/src/language_interface.rs LanguageInterface::get_list_of_all_language_objects props=C23
//@ret r
//@spec
    ensures r is Ok, r->Ok_0@.len() == 2, r->Ok_0@[0].lang() == Language::Solidity, r->Ok_0@[1].lang() == Language::Vyper, // [C23]
//@end
}
impl RecognizeResult {
//@fn mutagenyx_lib/src/recognizer.rs RecognizeResult::new props=C23
//@ret r
//@spec
    ensures r.language == language, r.file_type == file_type, // [C23]
//@end
}
//@item mutagenyx_lib/src/recognizer.rs Recognizer
pub open spec fn rec(l: Language, t: FileType) -> RecognizeResult { RecognizeResult { language: l, file_type: t } }
// what a file is taken for: a configuration first, then source, then a tree; Solidity before Vyper
pub open spec fn src_rec(p: Preferences, f: Seq<char>, r: Option<RecognizeResult>) -> bool {
    match r {
        Some(x) => x.file_type == FileType::Source && may_src(x.language, p, f) && (x.language == Language::Vyper ==> !must_src(Language::Solidity, p, f)),
        None => !must_src(Language::Solidity, p, f) && !must_src(Language::Vyper, p, f),
    }
}
pub open spec fn ast_rec(f: Seq<char>) -> Option<RecognizeResult> {
    if ast_file(Language::Solidity, f) { Some(rec(Language::Solidity, FileType::AST)) } else if ast_file(Language::Vyper, f) { Some(rec(Language::Vyper, FileType::AST)) } else { None }
}
pub open spec fn conf_rec(f: Seq<char>) -> Option<RecognizeResult> {
    if conf_of(Language::Solidity, f) { Some(rec(Language::Solidity, FileType::Config)) } else if conf_of(Language::Vyper, f) { Some(rec(Language::Vyper, FileType::Config)) } else { None }
}
pub open spec fn recd(p: Preferences, f: Seq<char>, r: Result<RecognizeResult, MutagenyxError>) -> bool {
    if conf_rec(f) is Some { r is Ok && Some(r->Ok_0) == conf_rec(f) }
    else { match r {
        Ok(x) => src_rec(p, f, Some(x)) || (src_rec(p, f, None) && ast_rec(f) == Some(x)),
        Err(e) => src_rec(p, f, None) && ast_rec(f) is None && e is LanguageNotRecognized,
    } }
}
impl<'a> Recognizer<'a> {
//@fn mutagenyx_lib/src/recognizer.rs Recognizer::new props=C23
//@ret r
//@spec
    ensures *r.preferences == *old(prefs), *final(r.preferences) == *final(prefs),
//@end
//@fn mutagenyx_lib/src/recognizer.rs Recognizer::recognize_source_file props=C23 loops=1
//@ret r
//@spec
    requires base_of(file_name@) is Some,
    ensures src_rec(*old(self.preferences), file_name@, r), // [C23]
//@loop 0
            invariant
                vx_it0.seq().len() == 2, vx_it0.seq()[0].lang() == Language::Solidity, vx_it0.seq()[1].lang() == Language::Vyper, base_of(file_name@) is Some,
                forall|i: int| 0 <= i < vx_it0.index() ==> !must_src((#[trigger] vx_it0.seq()[i]).lang(), *old(self.preferences), file_name@),
//@end
//@fn mutagenyx_lib/src/recognizer.rs Recognizer::recognize_ast_file props=C23 loops=1
//@ret r
//@spec
    ensures r == ast_rec(file_name@), // [C23]
//@loop 0
            invariant
                vx_it0.seq().len() == 2, vx_it0.seq()[0].lang() == Language::Solidity, vx_it0.seq()[1].lang() == Language::Vyper,
                forall|i: int| 0 <= i < vx_it0.index() ==> !ast_file((#[trigger] vx_it0.seq()[i]).lang(), file_name@),
//@end
//@fn mutagenyx_lib/src/recognizer.rs Recognizer::recognize_config_file props=C23
//@ret r
//@spec
    ensures r == conf_rec(file_name@), // [C23]
//@subst extension.unwrap() == OsStr::new(CONFIG_FILE_EXTENSION) ==> vx_os_eq(extension.unwrap(), OsStr::new(CONFIG_FILE_EXTENSION))
//@entry
        proof { lits(); lemma_names(); }
//@end
//@fn mutagenyx_lib/src/recognizer.rs Recognizer::recognize_file props=C23
//@ret r
//@spec
    requires base_of(file_name@) is Some,
    ensures recd(*old(self.preferences), file_name@, r), // [C23]
//@end
}
