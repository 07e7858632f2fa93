// every JSON value of the model has a representation, and a closure without precondition returns (both assumed)
pub axiom fn ax_value(n: JV) -> (v: &'static Value) ensures v@ == n;
pub axiom fn ax_returns<T, F: Fn(&Value) -> T>(f: F, v: &Value) requires f.requires((v,)) ensures exists|r: T| f.ensures((v,), r);
// ---- json_ast_id_maker.rs, json_namer.rs ----
//@item mutagenyx_lib/src/json_ast_id_maker.rs JSONIDMaker
pub open spec fn id_det<F: Fn(&Value) -> Option<u64>>(f: F) -> bool {
    &&& forall|v: &Value| #[trigger] f.requires((v,))
    &&& forall|v: &Value, w: &Value, a: Option<u64>, b: Option<u64>| v@ == w@ && #[trigger] f.ensures((v,), a) && #[trigger] f.ensures((w,), b) ==> a == b
}
pub open spec fn id_out<F: Fn(&Value) -> Option<u64>>(f: F, n: JV, r: Option<u64>) -> bool { exists|v: &Value| v@ == n && #[trigger] f.ensures((v,), r) }
pub open spec fn id_res<F: Fn(&Value) -> Option<u64>>(f: F, n: JV) -> Option<u64> { choose|r: Option<u64>| #[trigger] id_out(f, n, r) }
impl<F> JSONIDMaker<F> where F: Fn(&Value) -> Option<u64> {
    #[verifier::type_invariant]
    pub closed spec fn inv(self) -> bool { id_det(self.f) }
//@fn mutagenyx_lib/src/json_ast_id_maker.rs JSONIDMaker::new props=C17
//@ret r
//@spec
    requires id_det(f),
    ensures forall|n: JV| id_out(f, n, #[trigger] r.id(n)),
//@entry
        proof {
            assert forall|n: JV| id_out(f, n, #[trigger] id_res(f, n)) by {
                let v = ax_value(n);
                ax_returns(f, v);
                let r = choose|r: Option<u64>| f.ensures((v,), r);
                assert(id_out(f, n, r));
            }
        }
//@end
}
impl<F> Id<Value> for JSONIDMaker<F> where F: Fn(&Value) -> Option<u64> {
    closed spec fn id(&self, n: JV) -> Option<u64> { id_res(self.f, n) }
//@fn mutagenyx_lib/src/json_ast_id_maker.rs Id@JSONIDMaker::get_id props=C17
//@entry
        proof {
            use_type_invariant(self);
            assert forall|r: Option<u64>| #[trigger] self.f.ensures((node,), r) implies r == self.id(node@) by { assert(id_out(self.f, node@, r)); }
        }
//@end
}
//@item mutagenyx_lib/src/json_namer.rs JSONNamer
pub open spec fn osv(s: Option<String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None::<Seq<char>> } }
pub open spec fn nm_det<F: Fn(&Value) -> Option<String>>(f: F) -> bool {
    &&& forall|v: &Value| #[trigger] f.requires((v,))
    &&& forall|v: &Value, w: &Value, a: Option<String>, b: Option<String>| v@ == w@ && #[trigger] f.ensures((v,), a) && #[trigger] f.ensures((w,), b) ==> osv(a) == osv(b)
}
pub open spec fn nm_out<F: Fn(&Value) -> Option<String>>(f: F, n: JV, r: Option<Seq<char>>) -> bool { exists|v: &Value, s: Option<String>| v@ == n && #[trigger] f.ensures((v,), s) && osv(s) == r }
pub open spec fn nm_res<F: Fn(&Value) -> Option<String>>(f: F, n: JV) -> Option<Seq<char>> { choose|r: Option<Seq<char>>| #[trigger] nm_out(f, n, r) }
impl<F> JSONNamer<F> where F: Fn(&Value) -> Option<String> {
    #[verifier::type_invariant]
    pub closed spec fn inv(self) -> bool { nm_det(self.value_to_name_converter) }
//@fn mutagenyx_lib/src/json_namer.rs JSONNamer::new props=C01
//@ret r
//@spec
    requires nm_det(f),
    ensures forall|n: JV| nm_out(f, n, #[trigger] r.name(n)),
//@entry
        proof {
            assert forall|n: JV| nm_out(f, n, #[trigger] nm_res(f, n)) by {
                let v = ax_value(n);
                ax_returns(f, v);
                let r = choose|r: Option<String>| f.ensures((v,), r);
                assert(nm_out(f, n, osv(r)));
            }
        }
//@end
}
impl<F> Namer<Value> for JSONNamer<F> where F: Fn(&Value) -> Option<String> {
    closed spec fn name(&self, n: JV) -> Option<Seq<char>> { nm_res(self.value_to_name_converter, n) }
//@fn mutagenyx_lib/src/json_namer.rs Namer@JSONNamer::get_name props=C01
//@entry
        proof {
            use_type_invariant(self);
            assert forall|r: Option<String>| #[trigger] self.value_to_name_converter.ensures((thing,), r) implies osv(r) == self.name(thing@) by { assert(nm_out(self.value_to_name_converter, thing@, osv(r))); }
        }
//@end
}
pub open spec fn js_name(n: JV) -> Option<Seq<char>> { if n.str_at("name"@) { Some(n.str("name"@)) } else { None } }
