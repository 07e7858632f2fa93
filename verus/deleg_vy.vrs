// ---- vyper/language_interface.rs ----
pub open spec fn vy_id(n: JV) -> Option<u64> { if n.int_at("node_id"@) { Some(n.int("node_id"@) as i64 as u64) } else { None } }
// the mutator factory; unit vy proves its contract
pub uninterp spec fn vy_makes(t: MT) -> bool;
pub struct VyperMutatorFactory { }
impl MutatorFactory<Value> for VyperMutatorFactory {
    closed spec fn makes(&self, t: MT) -> bool { vy_makes(t) }
    #[verifier::external_body]
    fn mutator_for(&self, m: &MutationType) -> Option<Box<dyn Mutator<Value>>> { unimplemented!() }
}
#[verifier::external_body]
pub struct VyperLanguageDelegate { _p: u8 }
impl JSONLanguageDelegate for VyperLanguageDelegate {
    open spec fn lang(&self) -> Language { Language::Vyper }
    open spec fn recognizes(&self, t: JV) -> bool { t.has("contract_name"@) && t.has("ast"@) }
    open spec fn d_name(&self, n: JV) -> Option<Seq<char>> { js_name(n) }
    open spec fn d_id(&self, n: JV) -> Option<u64> { vy_id(n) }
    closed spec fn d_makes(&self, t: MT) -> bool { vy_makes(t) }
    open spec fn d_place(&self, t: JV, c: JV, path: Seq<u64>, t2: JV) -> bool {
        t2 == place(|n: JV, id: u64, f: IF| vy_member(n, id, f), |n: JV, id: u64, c: JV, f: IF| vy_after(n, id, c, f), |n: JV| vy_id(n), t, c, path)
    }
//@fn mutagenyx_lib/src/vyper/language_interface.rs JSONLanguageDelegate@VyperLanguageDelegate::recover_ast props=C17,C02
//@end
//@fn mutagenyx_lib/src/vyper/language_interface.rs JSONLanguageDelegate@VyperLanguageDelegate::get_value_as_super_ast props=C17,C02,C23
//@end
//@fn mutagenyx_lib/src/vyper/language_interface.rs JSONLanguageDelegate@VyperLanguageDelegate::json_is_language_ast_json props=C23
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/language_interface.rs JSONLanguageDelegate@VyperLanguageDelegate::get_mutator_factory props=C09
//@end
//@fn mutagenyx_lib/src/vyper/language_interface.rs JSONLanguageDelegate@VyperLanguageDelegate::get_node_permitter props=C01
//@subst dyn Permit<Value> + '_ ==> dyn Permit<Value> + 'a
//@end
//@fn mutagenyx_lib/src/vyper/language_interface.rs JSONLanguageDelegate@VyperLanguageDelegate::get_namer props=C01
//@closure 0
    -> (r: Option<String>) ensures osv(r) == js_name($0@)
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/language_interface.rs JSONLanguageDelegate@VyperLanguageDelegate::get_node_id_maker props=C17 optmap truncate
//@closure 0
    -> (r: Option<u64>) ensures r == vy_id($0@)
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/vyper/language_interface.rs JSONLanguageDelegate@VyperLanguageDelegate::insert_comment_by_path props=C17
//@before insert_comment_by_path 0
        proof {
            assert(json_comment_inserter.mf() =~= (|n: JV, id: u64, f: IF| vy_member(n, id, f)));
            assert(json_comment_inserter.af() =~= (|n: JV, id: u64, c: JV, f: IF| vy_after(n, id, c, f)));
            assert(json_comment_inserter.idf() =~= (|n: JV| vy_id(n)));
        }
//@end
}
