    fn load_ast_from_file(&mut self, file_name: &str, file_type: &FileType, prefs: &Preferences) -> (r: Result<SuperAST, MutagenyxError>)
        requires base_of(file_name@) is Some,
        ensures &*final(self) == &*old(self),
            r is Ok ==> loaded(old(self).lang(), *prefs, file_name@, *file_type, r->Ok_0), // [C23]
            must_load(old(self).lang(), *prefs, file_name@, *file_type) ==> r is Ok, // [C23]
    ;
    fn pretty_print_ast_to_file(&mut self, ast: &SuperAST, file_name: &str, pretty_printer: &mut PrettyPrinter) -> (r: Result<(), MutagenyxError>)
        requires own(file_name@) || may_put(file_name@, old(self).lang(), sast(*ast)), // [C19]
        ensures &*final(self) == &*old(self),
            r is Ok ==> has_lang(old(self).lang(), *ast) && put(file_name@, old(self).lang(), sast(*ast)), // [C19]
            has_lang(old(self).lang(), *ast) && io_ok() ==> r is Ok, // [C19]
    ;
    fn pretty_print_ast_to_stream(&mut self, ast: &SuperAST, stream: &mut Stdout, pretty_printer: &mut PrettyPrinter) -> (r: Result<(), MutagenyxError>)
        ensures &*final(self) == &*old(self),
            r is Ok <==> has_lang(old(self).lang(), *ast), // [C19]
            r is Ok ==> shown(old(self).lang(), sast(*ast)), // [C19]
    ;
    fn get_extension_for_output_file(&self) -> (r: &str)
        ensures r@ == lang_ext(self.lang()), // [C19]
    ;
    fn file_is_language_source_file(&self, file_name: &str, prefs: &Preferences) -> (r: bool)
        requires base_of(file_name@) is Some,
        ensures r ==> may_src(self.lang(), *prefs, file_name@), must_src(self.lang(), *prefs, file_name@) ==> r, // [C23]
    ;
    fn convert_source_file_to_ast(&self, file_name: &str, prefs: &Preferences) -> (r: Result<SuperAST, MutagenyxError>)
        requires base_of(file_name@) is Some,
        ensures r is Ok ==> loaded(self.lang(), *prefs, file_name@, FileType::Source, r->Ok_0), // [C23]
            must_load(self.lang(), *prefs, file_name@, FileType::Source) ==> r is Ok, // [C23]
    ;
    fn file_is_language_ast_file(&self, file_name: &str) -> (r: bool)
        ensures r == ast_file(self.lang(), file_name@), // [C23]
    ;
    fn default_compiler_settings(&self) -> (r: Preferences)
        ensures comp_path(r.map@, lang_compiler(self.lang())) == lang_compiler(self.lang()), // [C18]
    ;
    fn mutant_compiles(&mut self, original_file_name: &str, ast: &SuperAST, prefs: &Preferences) -> (r: bool)
        requires base_of(original_file_name@) is Some,
        ensures &*final(self) == &*old(self),
            // the compiler took the printed mutant
            r ==> has_lang(old(self).lang(), *ast) && put(joined(own_dir(), base_of(original_file_name@)->0), old(self).lang(), sast(*ast))
                && may_compile(old(self).lang(), *prefs, joined(own_dir(), base_of(original_file_name@)->0)), // [C18]
            io_ok() && has_lang(old(self).lang(), *ast) && must_compile(old(self).lang(), *prefs, joined(own_dir(), base_of(original_file_name@)->0)) ==> r, // [C18]
    ;
    fn implements(&self) -> (r: Language)
        ensures r == self.lang(), // [C23]
    ;
