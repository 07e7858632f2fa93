// ---- the spelling of a node by its kind ---- (generated from the table of kinds)
// TWIN BEGIN
pub open spec fn v_entry(s: St, n: JV, c: Cfg) -> St {
    if is(n, "Block"@) || is(n, "UncheckedBlock"@) || is(n, "YulBlock"@) { s_block_e(s, n, c) }
    else if is(n, "ContractDefinition"@) { s_contract_e(s, n, c) }
    else if is(n, "FunctionCall"@) { s_call_e(s, n, c) }
    else if is(n, "FunctionDefinition"@) { s_function_e(s, n, c) }
    else if is(n, "ImportDirective"@) { s_import_e(s, n, c) }
    else if is(n, "InlineAssembly"@) { s_assembly_e(s, n, c) }
    else if is(n, "ModifierDefinition"@) { s_modifier_e(s, n, c) }
    else if is(n, "ParameterList"@) { s_open(s, n, c) }
    else if is(n, "SourceUnit"@) { s_source_e(s, n, c) }
    else if is(n, "StructuredDocumentation"@) { s_doc_e(s, n, c) }
    else { s }
}
pub open spec fn v_body(s: St, n: JV, c: Cfg) -> St {
    if is(n, "ArrayTypeName"@) { s_array(s, n, c) }
    else if is(n, "Assignment"@) { s_assignment(s, n, c) }
    else if is(n, "BinaryOperation"@) { s_binary(s, n, c) }
    else if is(n, "Block"@) || is(n, "UncheckedBlock"@) || is(n, "YulBlock"@) { s_block(s, n, c, c.single) }
    else if is(n, "Break"@) { s_break(s, n, c) }
    else if is(n, "Comment"@) { s_comment(s, n, c) }
    else if is(n, "Conditional"@) { s_conditional(s, n, c) }
    else if is(n, "Continue"@) { s_continue(s, n, c) }
    else if is(n, "ContractDefinition"@) { s_contract(s, n, c) }
    else if is(n, "DoWhileStatement"@) { s_do(s, n, c) }
    else if is(n, "ElementaryTypeName"@) { s_elementary(s, n, c) }
    else if is(n, "ElementaryTypeNameExpression"@) { s_typeexpr(s, n, c) }
    else if is(n, "EmitStatement"@) { s_emit(s, n, c) }
    else if is(n, "EnumDefinition"@) { s_enum(s, n, c) }
    else if is(n, "EnumValue"@) || is(n, "IdentifierPath"@) || is(n, "YulIdentifier"@) || is(n, "YulTypedName"@) { s_name(s, n, c) }
    else if is(n, "ErrorDefinition"@) { s_error(s, n, c) }
    else if is(n, "EventDefinition"@) { s_event(s, n, c) }
    else if is(n, "ExpressionStatement"@) { s_expression(s, n, c) }
    else if is(n, "ForStatement"@) { s_for(s, n, c) }
    else if is(n, "FunctionCall"@) { s_call(s, n, c) }
    else if is(n, "FunctionCallOptions"@) { s_options(s, n, c) }
    else if is(n, "FunctionDefinition"@) { s_function(s, n, c, c.nonpay) }
    else if is(n, "FunctionTypeName"@) { s_functype(s, n, c) }
    else if is(n, "Identifier"@) { s_name(s, n, c) }
    else if is(n, "IfStatement"@) { s_if(s, n, c) }
    else if is(n, "ImportDirective"@) { s_import(s, n, c) }
    else if is(n, "IndexAccess"@) { s_index(s, n, c) }
    else if is(n, "IndexRangeAccess"@) { s_range(s, n, c) }
    else if is(n, "InheritanceSpecifier"@) { s_inherit(s, n, c) }
    else if is(n, "InlineAssembly"@) { s_assembly(s, n, c) }
    else if is(n, "Literal"@) { s_literal(s, n, c) }
    else if is(n, "Mapping"@) { s_mapping(s, n, c) }
    else if is(n, "MemberAccess"@) { s_member(s, n, c) }
    else if is(n, "ModifierDefinition"@) { s_modifier(s, n, c) }
    else if is(n, "ModifierInvocation"@) { s_invoke(s, n, c) }
    else if is(n, "NewExpression"@) { s_new(s, n, c) }
    else if is(n, "OverrideSpecifier"@) { s_override(s, n, c) }
    else if is(n, "ParameterList"@) { s_parameters(s, n, c) }
    else if is(n, "PlaceholderStatement"@) { s_placeholder(s, n, c) }
    else if is(n, "PragmaDirective"@) { s_pragma(s, n, c) }
    else if is(n, "Return"@) { s_return(s, n, c) }
    else if is(n, "RevertStatement"@) { s_revert(s, n, c) }
    else if is(n, "SourceUnit"@) { s_source(s, n, c) }
    else if is(n, "StructDefinition"@) { s_struct(s, n, c) }
    else if is(n, "StructuredDocumentation"@) { s_doc(s, n, c) }
    else if is(n, "TryCatchClause"@) { s_clause(s, n, c) }
    else if is(n, "TryStatement"@) { s_try(s, n, c) }
    else if is(n, "TupleExpression"@) { s_tuple(s, n, c) }
    else if is(n, "UnaryOperation"@) { s_unary(s, n, c) }
    else if is(n, "UserDefinedTypeName"@) { s_usertype(s, n, c) }
    else if is(n, "UserDefinedValueTypeDefinition"@) { s_valuetype(s, n, c) }
    else if is(n, "UsingForDirective"@) { s_using(s, n, c) }
    else if is(n, "VariableDeclaration"@) { s_variable(s, n, c) }
    else if is(n, "VariableDeclarationStatement"@) { s_declare(s, n, c) }
    else if is(n, "WhileStatement"@) { s_while(s, n, c) }
    else if is(n, "YulAssignment"@) { s_yulassign(s, n, c) }
    else if is(n, "YulBreak"@) { s_yulbreak(s, n, c) }
    else if is(n, "YulCase"@) { s_case(s, n, c) }
    else if is(n, "YulContinue"@) { s_yulcontinue(s, n, c) }
    else if is(n, "YulForLoop"@) { s_yulfor(s, n, c) }
    else if is(n, "YulFunctionCall"@) { s_yulcall(s, n, c) }
    else if is(n, "YulFunctionDefinition"@) { s_yulfunction(s, n, c) }
    else if is(n, "YulIf"@) { s_yulif(s, n, c) }
    else if is(n, "YulLeave"@) { s_leave(s, n, c) }
    else if is(n, "YulLiteral"@) { s_yulliteral(s, n, c) }
    else if is(n, "YulSwitch"@) { s_switch(s, n, c) }
    else if is(n, "YulVariableDeclaration"@) { s_let(s, n, c) }
    else { s }
}
pub open spec fn v_exit(s: St, n: JV, c: Cfg) -> St {
    if is(n, "Block"@) || is(n, "UncheckedBlock"@) || is(n, "YulBlock"@) { s_block_x(s, n, c) }
    else if is(n, "ExpressionStatement"@) { s_semicolon(s, n, c, c.semi) }
    else if is(n, "FunctionCall"@) { s_close(s, n, c) }
    else if is(n, "ParameterList"@) { s_close(s, n, c) }
    else if is(n, "SourceUnit"@) { s_source_x(s, n, c) }
    else if is(n, "StructDefinition"@) { s_struct_x(s, n, c) }
    else if is(n, "StructuredDocumentation"@) { s_doc_x(s, n, c) }
    else if is(n, "VariableDeclaration"@) { s_variable_x(s, n, c) }
    else { s }
}
pub open spec fn known(n: JV) -> bool { is(n, "ArrayTypeName"@) || is(n, "Assignment"@) || is(n, "BinaryOperation"@) || is(n, "Block"@) || is(n, "UncheckedBlock"@) || is(n, "YulBlock"@) || is(n, "Break"@) || is(n, "Comment"@) || is(n, "Conditional"@) || is(n, "Continue"@) || is(n, "ContractDefinition"@) || is(n, "DoWhileStatement"@) || is(n, "ElementaryTypeName"@) || is(n, "ElementaryTypeNameExpression"@) || is(n, "EmitStatement"@) || is(n, "EnumDefinition"@) || is(n, "EnumValue"@) || is(n, "IdentifierPath"@) || is(n, "YulIdentifier"@) || is(n, "YulTypedName"@) || is(n, "ErrorDefinition"@) || is(n, "EventDefinition"@) || is(n, "ExpressionStatement"@) || is(n, "ForStatement"@) || is(n, "FunctionCall"@) || is(n, "FunctionCallOptions"@) || is(n, "FunctionDefinition"@) || is(n, "FunctionTypeName"@) || is(n, "Identifier"@) || is(n, "IfStatement"@) || is(n, "ImportDirective"@) || is(n, "IndexAccess"@) || is(n, "IndexRangeAccess"@) || is(n, "InheritanceSpecifier"@) || is(n, "InlineAssembly"@) || is(n, "Literal"@) || is(n, "Mapping"@) || is(n, "MemberAccess"@) || is(n, "ModifierDefinition"@) || is(n, "ModifierInvocation"@) || is(n, "NewExpression"@) || is(n, "OverrideSpecifier"@) || is(n, "ParameterList"@) || is(n, "PlaceholderStatement"@) || is(n, "PragmaDirective"@) || is(n, "Return"@) || is(n, "RevertStatement"@) || is(n, "SourceUnit"@) || is(n, "StructDefinition"@) || is(n, "StructuredDocumentation"@) || is(n, "TryCatchClause"@) || is(n, "TryStatement"@) || is(n, "TupleExpression"@) || is(n, "UnaryOperation"@) || is(n, "UserDefinedTypeName"@) || is(n, "UserDefinedValueTypeDefinition"@) || is(n, "UsingForDirective"@) || is(n, "VariableDeclaration"@) || is(n, "VariableDeclarationStatement"@) || is(n, "WhileStatement"@) || is(n, "YulAssignment"@) || is(n, "YulBreak"@) || is(n, "YulCase"@) || is(n, "YulContinue"@) || is(n, "YulForLoop"@) || is(n, "YulFunctionCall"@) || is(n, "YulFunctionDefinition"@) || is(n, "YulIf"@) || is(n, "YulLeave"@) || is(n, "YulLiteral"@) || is(n, "YulSwitch"@) || is(n, "YulVariableDeclaration"@) }
pub open spec fn v_node(s: St, n: JV, c: Cfg) -> St { v_exit(v_body(v_entry(s, n, c), n, c), n, c) }
// TWIN END
