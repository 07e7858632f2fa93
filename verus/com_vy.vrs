// ---- vyper/node_finder.rs, vyper/commenter.rs ----
pub open spec fn list_member(n: JV, k: Seq<char>, id: u64, f: IF) -> bool { n.arr_at(k) && holds(f, n.arr(k), id) }
pub open spec fn list_after(n: JV, k: Seq<char>, id: u64, c: JV, f: IF) -> JV { if n.arr_at(k) { n.set(k, JV::Arr(in_front(f, n.arr(k), id, c))) } else { n } }
pub open spec fn vy_block(n: JV) -> bool { n.is_str("ast_type"@, "For"@) || n.is_str("ast_type"@, "FunctionDef"@) || n.is_str("ast_type"@, "Module"@) }
pub open spec fn if_after(n: JV, id: u64, c: JV, f: IF) -> JV { if list_member(n, "body"@, id, f) { list_after(n, "body"@, id, c, f) } else { list_after(n, "orelse"@, id, c, f) } }
// a loop, function or module holds statements in its body, a conditional in its body and its else part
pub open spec fn vy_member(n: JV, id: u64, f: IF) -> bool {
    if vy_block(n) { list_member(n, "body"@, id, f) }
    else if n.is_str("ast_type"@, "If"@) { list_member(n, "body"@, id, f) || list_member(n, "orelse"@, id, f) }
    else { false }
}
pub open spec fn vy_after(n: JV, id: u64, c: JV, f: IF) -> JV {
    if vy_block(n) { list_after(n, "body"@, id, c, f) }
    else if n.is_str("ast_type"@, "If"@) { if_after(n, id, c, f) }
    else { n }
}
//@item mutagenyx_lib/src/vyper/node_finder.rs DummyFinder
impl NodeFinder<VyperAST> for DummyFinder {
    open spec fn member(&self, n: JV, id: u64, f: IF) -> bool { false }
//@fn mutagenyx_lib/src/vyper/node_finder.rs NodeFinder@DummyFinder::node_is_a_direct_member props=C17 default=mutagenyx_lib/src/node_finder.rs:NodeFinder::node_is_a_direct_member
//@end
}
//@item mutagenyx_lib/src/vyper/node_finder.rs GenericBlockFinder
impl NodeFinder<VyperAST> for GenericBlockFinder {
    open spec fn member(&self, n: JV, id: u64, f: IF) -> bool { list_member(n, "body"@, id, f) }
//@fn mutagenyx_lib/src/vyper/node_finder.rs NodeFinder@GenericBlockFinder::node_is_a_direct_member props=C17
//@entry
        proof { lits(); }
//@end
}
//@item mutagenyx_lib/src/vyper/node_finder.rs IfFinder
impl NodeFinder<VyperAST> for IfFinder {
    open spec fn member(&self, n: JV, id: u64, f: IF) -> bool { list_member(n, "body"@, id, f) || list_member(n, "orelse"@, id, f) }
//@fn mutagenyx_lib/src/vyper/node_finder.rs NodeFinder@IfFinder::node_is_a_direct_member props=C17
//@entry
        proof { lits(); }
//@end
}
//@item mutagenyx_lib/src/vyper/node_finder.rs VyperNodeFinderFactory
impl NodeFinderFactory<VyperAST> for VyperNodeFinderFactory {
    open spec fn f_member(&self, n: JV, id: u64, f: IF) -> bool { vy_member(n, id, f) }
//@fn mutagenyx_lib/src/vyper/node_finder.rs NodeFinderFactory@VyperNodeFinderFactory::node_finder_for props=C17
//@entry
        proof { lits(); }
//@end
}
//@item mutagenyx_lib/src/vyper/commenter.rs DummyCommenter
impl Commenter<VyperAST> for DummyCommenter {
    open spec fn after(&self, n: JV, id: u64, c: JV, f: IF) -> JV { n }
//@fn mutagenyx_lib/src/vyper/commenter.rs Commenter@DummyCommenter::insert_comment props=C17 default=mutagenyx_lib/src/commenter.rs:Commenter::insert_comment
//@end
}
//@item mutagenyx_lib/src/vyper/commenter.rs GenericBlockCommenter
impl Commenter<VyperAST> for GenericBlockCommenter {
    open spec fn after(&self, n: JV, id: u64, c: JV, f: IF) -> JV { list_after(n, "body"@, id, c, f) }
//@fn mutagenyx_lib/src/vyper/commenter.rs Commenter@GenericBlockCommenter::insert_comment props=C17
//@entry
        proof { lits(); }
//@end
}
//@item mutagenyx_lib/src/vyper/commenter.rs IfCommenter
impl Commenter<VyperAST> for IfCommenter {
    open spec fn after(&self, n: JV, id: u64, c: JV, f: IF) -> JV { if_after(n, id, c, f) }
//@fn mutagenyx_lib/src/vyper/commenter.rs Commenter@IfCommenter::insert_comment props=C17
//@entry
        proof { lits(); }
//@end
}
//@item mutagenyx_lib/src/vyper/commenter.rs VyperCommenterFactory
impl CommenterFactory<VyperAST> for VyperCommenterFactory {
    open spec fn f_after(&self, n: JV, id: u64, c: JV, f: IF) -> JV { vy_after(n, id, c, f) }
//@fn mutagenyx_lib/src/vyper/commenter.rs CommenterFactory@VyperCommenterFactory::commenter_for props=C17
//@entry
        proof { lits(); }
//@end
}
