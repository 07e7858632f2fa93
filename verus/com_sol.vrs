// ---- solidity/node_finder.rs, solidity/commenter.rs ----
pub open spec fn list_member(n: JV, k: Seq<char>, id: u64, f: IF) -> bool { n.arr_at(k) && holds(f, n.arr(k), id) }
pub open spec fn list_after(n: JV, k: Seq<char>, id: u64, c: JV, f: IF) -> JV { if n.arr_at(k) { n.set(k, JV::Arr(in_front(f, n.arr(k), id, c))) } else { n } }
pub open spec fn same_id(b: JV, id: u64) -> bool { b.int_at("id"@) && (b.int("id"@) as i64 as u64) == id }
// the body under k is a block that is the node or has a statement with it, or a single statement with it
pub open spec fn body_member(n: JV, k: Seq<char>, id: u64, f: IF) -> bool {
    n.has(k) && n.at(k).str_at("nodeType"@) && {
        let b = n.at(k);
        if b.is_str("nodeType"@, "Block"@) { same_id(b, id) || list_member(b, "statements"@, id, f) } else { occurs(f, b, id) }
    }
}
pub open spec fn block_of(s: Seq<JV>) -> JV { jv_empty().set("id"@, JV::Num(NumV::Int(9999994))).set("nodeType"@, JV::Str("Block"@)).set("statements"@, JV::Arr(s)) }
pub open spec fn body_after(n: JV, k: Seq<char>, id: u64, c: JV, f: IF) -> JV {
    if body_member(n, k, id, f) {
        let b = n.at(k);
        if b.is_str("nodeType"@, "Block"@) {
            if same_id(b, id) { if b.arr_at("statements"@) { n.set(k, b.set("statements"@, JV::Arr(b.arr("statements"@).insert(0, c)))) } else { n } }
            else { n.set(k, list_after(b, "statements"@, id, c, f)) }
        } else { n.set(k, block_of(seq![c, b])) }
    } else { n }
}
pub open spec fn sol_list(n: JV) -> bool { n.is_str("nodeType"@, "Block"@) || n.is_str("nodeType"@, "UncheckedBlock"@) }
pub open spec fn sol_body(n: JV) -> bool {
    n.is_str("nodeType"@, "DoWhileStatement"@) || n.is_str("nodeType"@, "ForStatement"@) || n.is_str("nodeType"@, "FunctionDefinition"@)
    || n.is_str("nodeType"@, "ModifierDefinition"@) || n.is_str("nodeType"@, "WhileStatement"@)
}
pub open spec fn sif_member(n: JV, id: u64, f: IF) -> bool { body_member(n, "trueBody"@, id, f) || body_member(n, "falseBody"@, id, f) }
pub open spec fn sif_after(n: JV, id: u64, c: JV, f: IF) -> JV { if body_member(n, "trueBody"@, id, f) { body_after(n, "trueBody"@, id, c, f) } else { body_after(n, "falseBody"@, id, c, f) } }
// where each kind of node holds statements
pub open spec fn sol_member(n: JV, id: u64, f: IF) -> bool {
    if sol_list(n) { list_member(n, "statements"@, id, f) }
    else if n.is_str("nodeType"@, "ContractDefinition"@) { list_member(n, "nodes"@, id, f) }
    else if sol_body(n) { body_member(n, "body"@, id, f) }
    else if n.is_str("nodeType"@, "IfStatement"@) { sif_member(n, id, f) }
    else if n.is_str("nodeType"@, "TryCatchClause"@) { body_member(n, "block"@, id, f) }
    else { false }
}
pub open spec fn sol_after(n: JV, id: u64, c: JV, f: IF) -> JV {
    if sol_list(n) { list_after(n, "statements"@, id, c, f) }
    else if n.is_str("nodeType"@, "ContractDefinition"@) { list_after(n, "nodes"@, id, c, f) }
    else if sol_body(n) { body_after(n, "body"@, id, c, f) }
    else if n.is_str("nodeType"@, "IfStatement"@) { sif_after(n, id, c, f) }
    else if n.is_str("nodeType"@, "TryCatchClause"@) { body_after(n, "block"@, id, c, f) }
    else { n }
}
//@fn mutagenyx_lib/src/solidity/node_finder.rs found_node_id_in_node_with_key props=C17 truncate
//@ret r
//@spec
    requires plain(key@),
    ensures r == body_member(old(node)@, key@, node_id, idd(id_maker)), final(node)@ == old(node)@, // [C17]
//@entry
    proof { lits(); if node@.has(key@) { lemma_put_found(idd(id_maker), node@.at(key@), node_id); } }
//@end
//@fn mutagenyx_lib/src/solidity/node_finder.rs found_node_in_statements_array props=C17
//@ret r
//@spec
    ensures r == list_member(old(node)@, "statements"@, node_id, idd(id_maker)), final(node)@ == old(node)@, // [C17]
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/commenter.rs new_block_node props=C17
//@ret r
//@spec
    ensures r@ == block_of(jvs(array@)), // [C17]
//@entry
        proof { lits(); }
//@end
//@fn mutagenyx_lib/src/solidity/commenter.rs insert_comment_into_node_with_key props=C17 truncate
//@ret r
//@spec
    requires plain(key@), !(old(node)@ is Arr && numeric(key@)),
    ensures r == body_member(old(node)@, key@, node_id, idd(id_maker)), final(node)@ == body_after(old(node)@, key@, node_id, comment_node@, idd(id_maker)), // [C17]
//@entry
        proof { lits(); assert forall|v: Seq<Value>| v.len() == 2 implies #[trigger] jvs(v) == seq![v[0]@, v[1]@] by { assert(jvs(v) =~= seq![v[0]@, v[1]@]); } }
//@end
//@fn mutagenyx_lib/src/solidity/commenter.rs insert_comment_into_statements_array props=C17
//@spec
    ensures final(node)@ == list_after(old(node)@, "statements"@, node_id, comment_node@, idd(id_maker)), // [C17]
//@entry
        proof { lits(); }
//@end
//@item mutagenyx_lib/src/solidity/node_finder.rs DummyFinder
impl NodeFinder<SolidityAST> for DummyFinder {
    open spec fn member(&self, n: JV, id: u64, f: IF) -> bool { false }
//@fn mutagenyx_lib/src/solidity/node_finder.rs NodeFinder@DummyFinder::node_is_a_direct_member props=C17 default=mutagenyx_lib/src/node_finder.rs:NodeFinder::node_is_a_direct_member
//@end
}
//@item mutagenyx_lib/src/solidity/node_finder.rs ContractDefinitionFinder
impl NodeFinder<SolidityAST> for ContractDefinitionFinder {
    open spec fn member(&self, n: JV, id: u64, f: IF) -> bool { list_member(n, "nodes"@, id, f) }
//@fn mutagenyx_lib/src/solidity/node_finder.rs NodeFinder@ContractDefinitionFinder::node_is_a_direct_member props=C17
//@entry
        proof { lits(); }
//@end
}
//@item mutagenyx_lib/src/solidity/node_finder.rs DoWhileStatementFinder
impl NodeFinder<SolidityAST> for DoWhileStatementFinder {
    open spec fn member(&self, n: JV, id: u64, f: IF) -> bool { body_member(n, "body"@, id, f) }
//@fn mutagenyx_lib/src/solidity/node_finder.rs NodeFinder@DoWhileStatementFinder::node_is_a_direct_member props=C17
//@entry
        proof { lits(); }
//@end
}
//@item mutagenyx_lib/src/solidity/node_finder.rs ForStatementFinder
impl NodeFinder<SolidityAST> for ForStatementFinder {
    open spec fn member(&self, n: JV, id: u64, f: IF) -> bool { body_member(n, "body"@, id, f) }
//@fn mutagenyx_lib/src/solidity/node_finder.rs NodeFinder@ForStatementFinder::node_is_a_direct_member props=C17
//@entry
        proof { lits(); }
//@end
}
//@item mutagenyx_lib/src/solidity/node_finder.rs FunctionDefinitionFinder
impl NodeFinder<SolidityAST> for FunctionDefinitionFinder {
    open spec fn member(&self, n: JV, id: u64, f: IF) -> bool { body_member(n, "body"@, id, f) }
//@fn mutagenyx_lib/src/solidity/node_finder.rs NodeFinder@FunctionDefinitionFinder::node_is_a_direct_member props=C17
//@entry
        proof { lits(); }
//@end
}
//@item mutagenyx_lib/src/solidity/node_finder.rs ModifierDefinitionFinder
impl NodeFinder<SolidityAST> for ModifierDefinitionFinder {
    open spec fn member(&self, n: JV, id: u64, f: IF) -> bool { body_member(n, "body"@, id, f) }
//@fn mutagenyx_lib/src/solidity/node_finder.rs NodeFinder@ModifierDefinitionFinder::node_is_a_direct_member props=C17
//@entry
        proof { lits(); }
//@end
}
//@item mutagenyx_lib/src/solidity/node_finder.rs WhileStatementFinder
impl NodeFinder<SolidityAST> for WhileStatementFinder {
    open spec fn member(&self, n: JV, id: u64, f: IF) -> bool { body_member(n, "body"@, id, f) }
//@fn mutagenyx_lib/src/solidity/node_finder.rs NodeFinder@WhileStatementFinder::node_is_a_direct_member props=C17
//@entry
        proof { lits(); }
//@end
}
//@item mutagenyx_lib/src/solidity/node_finder.rs GenericBlockFinder
impl NodeFinder<SolidityAST> for GenericBlockFinder {
    open spec fn member(&self, n: JV, id: u64, f: IF) -> bool { list_member(n, "statements"@, id, f) }
//@fn mutagenyx_lib/src/solidity/node_finder.rs NodeFinder@GenericBlockFinder::node_is_a_direct_member props=C17
//@entry
        proof { lits(); }
//@end
}
//@item mutagenyx_lib/src/solidity/node_finder.rs IfStatementFinder
impl NodeFinder<SolidityAST> for IfStatementFinder {
    open spec fn member(&self, n: JV, id: u64, f: IF) -> bool { sif_member(n, id, f) }
//@fn mutagenyx_lib/src/solidity/node_finder.rs NodeFinder@IfStatementFinder::node_is_a_direct_member props=C17
//@entry
        proof { lits(); }
//@end
}
//@item mutagenyx_lib/src/solidity/node_finder.rs TryCatchClauseFinder
impl NodeFinder<SolidityAST> for TryCatchClauseFinder {
    open spec fn member(&self, n: JV, id: u64, f: IF) -> bool { body_member(n, "block"@, id, f) }
//@fn mutagenyx_lib/src/solidity/node_finder.rs NodeFinder@TryCatchClauseFinder::node_is_a_direct_member props=C17
//@entry
        proof { lits(); }
//@end
}
//@item mutagenyx_lib/src/solidity/commenter.rs DummyCommenter
impl Commenter<SolidityAST> for DummyCommenter {
    open spec fn after(&self, n: JV, id: u64, c: JV, f: IF) -> JV { n }
//@fn mutagenyx_lib/src/solidity/commenter.rs Commenter@DummyCommenter::insert_comment props=C17 default=mutagenyx_lib/src/commenter.rs:Commenter::insert_comment
//@end
}
//@item mutagenyx_lib/src/solidity/commenter.rs ContractDefinitionCommenter
impl Commenter<SolidityAST> for ContractDefinitionCommenter {
    open spec fn after(&self, n: JV, id: u64, c: JV, f: IF) -> JV { list_after(n, "nodes"@, id, c, f) }
//@fn mutagenyx_lib/src/solidity/commenter.rs Commenter@ContractDefinitionCommenter::insert_comment props=C17
//@entry
        proof { lits(); }
//@end
}
//@item mutagenyx_lib/src/solidity/commenter.rs DoWhileStatementCommenter
impl Commenter<SolidityAST> for DoWhileStatementCommenter {
    open spec fn after(&self, n: JV, id: u64, c: JV, f: IF) -> JV { body_after(n, "body"@, id, c, f) }
//@fn mutagenyx_lib/src/solidity/commenter.rs Commenter@DoWhileStatementCommenter::insert_comment props=C17
//@entry
        proof { lits(); }
//@end
}
//@item mutagenyx_lib/src/solidity/commenter.rs ForStatementCommenter
impl Commenter<SolidityAST> for ForStatementCommenter {
    open spec fn after(&self, n: JV, id: u64, c: JV, f: IF) -> JV { body_after(n, "body"@, id, c, f) }
//@fn mutagenyx_lib/src/solidity/commenter.rs Commenter@ForStatementCommenter::insert_comment props=C17
//@entry
        proof { lits(); }
//@end
}
//@item mutagenyx_lib/src/solidity/commenter.rs FunctionDefinitionCommenter
impl Commenter<SolidityAST> for FunctionDefinitionCommenter {
    open spec fn after(&self, n: JV, id: u64, c: JV, f: IF) -> JV { body_after(n, "body"@, id, c, f) }
//@fn mutagenyx_lib/src/solidity/commenter.rs Commenter@FunctionDefinitionCommenter::insert_comment props=C17
//@entry
        proof { lits(); }
//@end
}
//@item mutagenyx_lib/src/solidity/commenter.rs ModifierDefinitionCommenter
impl Commenter<SolidityAST> for ModifierDefinitionCommenter {
    open spec fn after(&self, n: JV, id: u64, c: JV, f: IF) -> JV { body_after(n, "body"@, id, c, f) }
//@fn mutagenyx_lib/src/solidity/commenter.rs Commenter@ModifierDefinitionCommenter::insert_comment props=C17
//@entry
        proof { lits(); }
//@end
}
//@item mutagenyx_lib/src/solidity/commenter.rs WhileStatementCommenter
impl Commenter<SolidityAST> for WhileStatementCommenter {
    open spec fn after(&self, n: JV, id: u64, c: JV, f: IF) -> JV { body_after(n, "body"@, id, c, f) }
//@fn mutagenyx_lib/src/solidity/commenter.rs Commenter@WhileStatementCommenter::insert_comment props=C17
//@entry
        proof { lits(); }
//@end
}
//@item mutagenyx_lib/src/solidity/commenter.rs GenericBlockCommenter
impl Commenter<SolidityAST> for GenericBlockCommenter {
    open spec fn after(&self, n: JV, id: u64, c: JV, f: IF) -> JV { list_after(n, "statements"@, id, c, f) }
//@fn mutagenyx_lib/src/solidity/commenter.rs Commenter@GenericBlockCommenter::insert_comment props=C17
//@entry
        proof { lits(); }
//@end
}
//@item mutagenyx_lib/src/solidity/commenter.rs IfStatementCommenter
impl Commenter<SolidityAST> for IfStatementCommenter {
    open spec fn after(&self, n: JV, id: u64, c: JV, f: IF) -> JV { sif_after(n, id, c, f) }
//@fn mutagenyx_lib/src/solidity/commenter.rs Commenter@IfStatementCommenter::insert_comment props=C17
//@entry
        proof { lits(); }
//@end
}
//@item mutagenyx_lib/src/solidity/commenter.rs TryCatchClauseCommenter
impl Commenter<SolidityAST> for TryCatchClauseCommenter {
    open spec fn after(&self, n: JV, id: u64, c: JV, f: IF) -> JV { body_after(n, "block"@, id, c, f) }
//@fn mutagenyx_lib/src/solidity/commenter.rs Commenter@TryCatchClauseCommenter::insert_comment props=C17
//@entry
        proof { lits(); }
//@end
}
//@item mutagenyx_lib/src/solidity/node_finder.rs SolidityNodeFinderFactory
impl NodeFinderFactory<SolidityAST> for SolidityNodeFinderFactory {
    open spec fn f_member(&self, n: JV, id: u64, f: IF) -> bool { sol_member(n, id, f) }
//@fn mutagenyx_lib/src/solidity/node_finder.rs NodeFinderFactory@SolidityNodeFinderFactory::node_finder_for props=C17
//@entry
        proof { lits(); }
//@end
}
//@item mutagenyx_lib/src/solidity/commenter.rs SolidityCommenterFactory
impl CommenterFactory<SolidityAST> for SolidityCommenterFactory {
    open spec fn f_after(&self, n: JV, id: u64, c: JV, f: IF) -> JV { sol_after(n, id, c, f) }
//@fn mutagenyx_lib/src/solidity/commenter.rs CommenterFactory@SolidityCommenterFactory::commenter_for props=C17
//@entry
        proof { lits(); }
//@end
}
