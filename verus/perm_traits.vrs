// ---- permit.rs, namer.rs ----
pub trait Permit<AST: View<V = JV>> {
    spec fn grants(&self, a: PV) -> bool;
    fn has_permission_to(&self, action: PermissionAction) -> (r: bool)
        ensures r == self.grants(av(action)),
    ;
}
pub trait Namer<T: View<V = JV>> {
    spec fn name(&self, n: JV) -> Option<Seq<char>>;
    fn get_name(&self, thing: &T) -> (r: Option<String>)
        ensures (match r { Some(s) => Some(s@), None => None::<Seq<char>> }) == self.name(thing@),
    ;
}
