// ---- recognizer.rs, language_interface.rs: what files hold ----
//@item mutagenyx_lib/src/recognizer.rs FileType |#[derive(PartialEq, Eq, Structural)]
//@item mutagenyx_lib/src/recognizer.rs RecognizeResult |#[derive(PartialEq, Eq, Structural)]
// a file with a syntax tree of the language
pub open spec fn ast_file(l: Language, f: Seq<char>) -> bool { file_json(f) is Some && !(file_json(f)->0 is Arr) && is_ast(l, file_json(f)->0) }
// a configuration file of the language
pub open spec fn conf_of(l: Language, f: Seq<char>) -> bool {
    ext_of(f) == Some("mgnx"@) && file_json(f) is Some && file_json(f)->0.is_str("language"@, lang_name(l))
}
// the tree loaded from a file
pub open spec fn loaded(l: Language, p: Preferences, f: Seq<char>, t: FileType, a: SuperAST) -> bool {
    has_lang(l, a) && match t {
        FileType::Source => made_tree(l, p, f, sast(a)),
        FileType::AST => file_json(f) == Some(sast(a)) && is_ast(l, sast(a)),
        FileType::Config => false,
    }
}
pub open spec fn must_load(l: Language, p: Preferences, f: Seq<char>, t: FileType) -> bool {
    match t { FileType::Source => must_make(l, p, f), FileType::AST => file_json(f) is Some && is_ast(l, file_json(f)->0), FileType::Config => false }
}
