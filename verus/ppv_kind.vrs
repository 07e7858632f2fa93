// ---- the spelling of a node by its kind ---- (generated from the table of kinds)
// TWIN BEGIN
pub open spec fn v_entry(s: St, n: JV, c: Cfg) -> St {
    if is(n, "FunctionDef"@) { v_fundef_e(s, n, c) }
    else if is(n, "InterfaceDef"@) { v_interface_e(s, n, c) }
    else if is(n, "StructDef"@) { v_struct_e(s, n, c) }
    else if is(n, "Dict"@) { v_dict_e(s, n, c) }
    else { s }
}
pub open spec fn v_body(s: St, n: JV, c: Cfg) -> St {
    if is(n, "Name"@) { v_name(s, n, c) }
    else if is(n, "VariableDecl"@) { v_vardecl(s, n, c) }
    else if is(n, "Subscript"@) { v_subscript(s, n, c) }
    else if is(n, "Index"@) { v_index(s, n, c) }
    else if is(n, "Tuple"@) { v_tuple(s, n, c, c.paren) }
    else if is(n, "FunctionDef"@) { v_fundef(s, n, c, c.decl) }
    else if is(n, "arguments"@) { v_arguments(s, n, c) }
    else if is(n, "arg"@) { v_arg(s, n, c) }
    else if is(n, "Assign"@) { v_assign(s, n, c) }
    else if is(n, "Attribute"@) { v_attribute(s, n, c) }
    else if is(n, "AugAssign"@) { v_augassign(s, n, c) }
    else if is(n, "Int"@) { v_int(s, n, c) }
    else if is(n, "Decimal"@) || is(n, "Hex"@) { v_value(s, n, c) }
    else if is(n, "BinOp"@) || is(n, "Compare"@) { v_binop(s, n, c) }
    else if is(n, "BoolOp"@) { v_boolop(s, n, c) }
    else if is(n, "Assert"@) { v_assert(s, n, c) }
    else if is(n, "Str"@) { v_str(s, n, c) }
    else if is(n, "Module"@) { v_module(s, n, c) }
    else if is(n, "AnnAssign"@) { v_annassign(s, n, c) }
    else if is(n, "Expr"@) { v_expr(s, n, c) }
    else if is(n, "Call"@) { v_call(s, n, c) }
    else if is(n, "NameConstant"@) { v_nameconstant(s, n, c) }
    else if is(n, "UnaryOp"@) { v_unaryop(s, n, c) }
    else if is(n, "InterfaceDef"@) { v_interface(s, n, c) }
    else if is(n, "StructDef"@) { v_struct(s, n, c) }
    else if is(n, "For"@) { v_for(s, n, c) }
    else if is(n, "List"@) { v_list(s, n, c) }
    else if is(n, "If"@) { v_if(s, n, c) }
    else if is(n, "Break"@) { v_break(s, n, c) }
    else if is(n, "Continue"@) { v_continue(s, n, c) }
    else if is(n, "Pass"@) { v_pass(s, n, c) }
    else if is(n, "Return"@) { v_return(s, n, c) }
    else if is(n, "Raise"@) { v_raise(s, n, c) }
    else if is(n, "Import"@) { v_import(s, n, c) }
    else if is(n, "ImportFrom"@) { v_importfrom(s, n, c) }
    else if is(n, "EventDef"@) { v_event(s, n, c) }
    else if is(n, "Log"@) { v_log(s, n, c) }
    else if is(n, "Comment"@) { v_comment(s, n, c) }
    else if is(n, "And"@) || is(n, "Or"@) { v_and(s, n, c) }
    else if is(n, "keyword"@) { v_keyword(s, n, c) }
    else if is(n, "Bytes"@) { v_bytes(s, n, c) }
    else if is(n, "Dict"@) { v_dict(s, n, c) }
    else if is(n, "EnumDef"@) { v_enum(s, n, c) }
    else { s }
}
pub open spec fn v_exit(s: St, n: JV, c: Cfg) -> St {
    if is(n, "InterfaceDef"@) { v_dec(s, n, c) }
    else if is(n, "StructDef"@) { v_dec(s, n, c) }
    else if is(n, "Dict"@) { v_dict_x(s, n, c) }
    else { s }
}
pub open spec fn known(n: JV) -> bool { is(n, "Name"@) || is(n, "VariableDecl"@) || is(n, "Subscript"@) || is(n, "Index"@) || is(n, "Tuple"@) || is(n, "FunctionDef"@) || is(n, "arguments"@) || is(n, "arg"@) || is(n, "Assign"@) || is(n, "Attribute"@) || is(n, "AugAssign"@) || is(n, "Int"@) || is(n, "Decimal"@) || is(n, "Hex"@) || is(n, "BinOp"@) || is(n, "Compare"@) || is(n, "BoolOp"@) || is(n, "Assert"@) || is(n, "Str"@) || is(n, "Module"@) || is(n, "AnnAssign"@) || is(n, "Expr"@) || is(n, "Call"@) || is(n, "NameConstant"@) || is(n, "UnaryOp"@) || is(n, "InterfaceDef"@) || is(n, "StructDef"@) || is(n, "For"@) || is(n, "List"@) || is(n, "If"@) || is(n, "Break"@) || is(n, "Continue"@) || is(n, "Pass"@) || is(n, "Return"@) || is(n, "Raise"@) || is(n, "Import"@) || is(n, "ImportFrom"@) || is(n, "EventDef"@) || is(n, "Log"@) || is(n, "Comment"@) || is(n, "And"@) || is(n, "Or"@) || is(n, "keyword"@) || is(n, "Bytes"@) || is(n, "Dict"@) || is(n, "EnumDef"@) }
pub open spec fn v_node(s: St, n: JV, c: Cfg) -> St { v_exit(v_body(v_entry(s, n, c), n, c), n, c) }
// TWIN END
