// ---- json_language_delegate.rs: what the interface relies on ----
//@include lang_spec.vrs
pub trait MutatorFactory<N: View<V = JV>> {
    spec fn makes(&self, t: MT) -> bool;
    fn mutator_for(&self, m: &MutationType) -> (r: Option<Box<dyn Mutator<N>>>)
        ensures r is Some <==> self.makes(*m), r is Some ==> r->0.mwf() && r->0.typ() == *m, // [C09]
    ;
}
pub trait JSONLanguageDelegate {
    spec fn lang(&self) -> Language;
    spec fn recognizes(&self, t: JV) -> bool;
    spec fn d_name(&self, n: JV) -> Option<Seq<char>>;
    spec fn d_id(&self, n: JV) -> Option<u64>;
    spec fn d_makes(&self, t: MT) -> bool;
    spec fn d_place(&self, t: JV, c: JV, path: Seq<u64>, t2: JV) -> bool;
    fn recover_ast<'a>(&self, super_ast: &'a SuperAST) -> (r: Result<&'a Value, MutagenyxError>)
        ensures r is Ok <==> has_lang(self.lang(), *super_ast), r is Ok ==> r->Ok_0@ == sast(*super_ast),
    ;
    fn get_value_as_super_ast(&self, value: Value) -> (r: Result<SuperAST, MutagenyxError>)
        ensures r is Ok <==> self.recognizes(value@), r is Ok ==> has_lang(self.lang(), r->Ok_0) && sast(r->Ok_0) == value@,
    ;
    fn json_is_language_ast_json(&self, value: &Value) -> (r: bool)
        ensures r == self.recognizes(value@), // [C23]
    ;
    fn get_mutator_factory(&self) -> (r: Box<dyn MutatorFactory<Value>>)
        ensures forall|t: MT| #[trigger] r.makes(t) == self.d_makes(t),
    ;
    fn get_node_permitter<'a>(&'a self, permissions: &'a Permissions) -> (r: Box<dyn Permit<Value> + 'a>)
        ensures forall|a: PV| #[trigger] r.grants(a) == permissions.allows(a),
    ;
    fn get_namer(&self) -> (r: Box<dyn Namer<Value>>)
        ensures forall|n: JV| #[trigger] r.name(n) == self.d_name(n),
    ;
    fn get_node_id_maker(&self) -> (r: Box<dyn Id<Value>>)
        ensures forall|n: JV| #[trigger] r.id(n) == self.d_id(n),
    ;
    fn insert_comment_by_path(&self, ast: &mut Value, comment_node: Value, node_path: &NodePath)
        ensures self.d_place(old(ast)@, comment_node@, node_path@, final(ast)@),
    ;
}
// ---- json_ast_permitter.rs ----
//@item mutagenyx_lib/src/json_ast_permitter.rs JSONPermitter
impl<'a> JSONPermitter<'a> {
//@fn mutagenyx_lib/src/json_ast_permitter.rs JSONPermitter::new props=C01
//@ret r
//@spec
    ensures forall|a: PV| #[trigger] r.grants(a) == permissions.allows(a), // [C01]
//@end
}
impl<'a> Permit<Value> for JSONPermitter<'a> {
    closed spec fn grants(&self, a: PV) -> bool { self.permissions.allows(a) }
//@fn mutagenyx_lib/src/json_ast_permitter.rs Permit@JSONPermitter::has_permission_to props=C01
//@end
}
