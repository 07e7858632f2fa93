// generated by tools/twin.py from verus/*.vrs: do not edit
use super::rt::*;
use serde_json::Value;
impl St {
    // a node, printed as its kind demands
    pub fn sub(self, n: JV, c: Cfg) -> St { pr(self, n, c) }
    pub fn opt(self, b: bool, t: &str) -> St { if b { self.tok(t) } else { self } }
    pub fn osp(self, b: bool) -> St { if b { self.sp() } else { self } }
    pub fn onl(self, b: bool) -> St { if b { self.nl() } else { self } }
    pub fn oind(self, b: bool) -> St { if b { self.indent() } else { self } }
    pub fn rep(self, t: &str, k: i64) -> St { if k <= 0 { self } else { self.rep(t, k - 1).tok(t) } }
    pub fn gap(self, b: bool) -> St { if b { self.tok(",").sp() } else { self } }
    // the node, text or list under a key, where there is one
    pub fn osub(self, n: JV, k: &str, c: Cfg) -> St { if n.has(k) { self.sub(n.at(k), c) } else { self } }
    pub fn nsub(self, n: JV, k: &str, c: Cfg) -> St { if live(n, k) { self.sub(n.at(k), c) } else { self } }
    pub fn ostr(self, n: JV, k: &str) -> St { if n.str_at(k) { self.tok(n.str(k)) } else { self } }
    // the first k elements, separated by commas
    pub fn list(self, a: &[Value], c: Cfg, k: i64) -> St { if k <= 0 { self } else { self.list(a, c, k - 1).gap(k > 1).sub(nth(a, k - 1), c) } }
    pub fn olist(self, n: JV, k: &str, c: Cfg) -> St { if n.arr_at(k) { self.list(n.arr(k), c, count(n.arr(k))) } else { self } }
    // the first k elements, each on a line of its own
    pub fn lines(self, a: &[Value], c: Cfg, k: i64) -> St { if k <= 0 { self } else { self.lines(a, c, k - 1).onl(k > 1).indent().sub(nth(a, k - 1), c) } }
    pub fn olines(self, n: JV, k: &str, c: Cfg) -> St { if n.arr_at(k) { self.lines(n.arr(k), c, count(n.arr(k))) } else { self } }
}
pub fn is(n: JV, k: &str) -> bool { n.is_str("ast_type", k) }
// the operator a Python AST operator name stands for
pub fn py(n: &str) -> Option<&str> {
    if n == "Add" { Some("+") } else if n == "Sub" { Some("-") } else if n == "Mult" { Some("*") } else if n == "Div" { Some("/") }
    else if n == "FloorDiv" { Some("//") } else if n == "LShift" { Some("<<") } else if n == "RShift" { Some(">>") }
    else if n == "Mod" { Some("%") } else if n == "Pow" { Some("**") } else if n == "And" { Some("&&") } else if n == "Or" { Some("||") }
    else if n == "BitAnd" { Some("&") } else if n == "BitOr" { Some("|") } else if n == "BitXor" { Some("^") } else if n == "Eq" { Some("==") }
    else if n == "NotEq" { Some("!=") } else if n == "Gt" { Some(">") } else if n == "GtE" { Some(">=") } else if n == "Lt" { Some("<") }
    else if n == "LtE" { Some("<=") } else if n == "Not" { Some("!") } else if n == "Invert" { Some("~") } else if n == "In" { Some("in") }
    else if n == "NotIn" { Some("not in") } else { None }
}
pub fn opr(n: JV) -> Option<&str> { if n.has("op") && n.at("op").str_at("ast_type") { py(n.at("op").str("ast_type")) } else { None } }
pub fn opis(n: JV, k: &str) -> bool { n.has("op") && is(n.at("op"), k) }
// operands that need parentheses to stay one operand
pub fn nested(n: JV) -> bool { is(n, "BinOp") || is(n, "Compare") || is(n, "BoolOp") || is(n, "UnaryOp") }
impl St {
    pub fn operand(self, n: JV, c: Cfg) -> St { if n.str_at("ast_type") { self.opt(nested(n), "(").sub(n, c).opt(nested(n), ")") } else { self } }
    pub fn ooperand(self, n: JV, k: &str, c: Cfg) -> St { if n.has(k) { self.operand(n.at(k), c) } else { self } }
    pub fn oval(self, n: JV, c: Cfg) -> St { if live(n, "value") { self.tok(" = ").sub(n.at("value"), c) } else { self } }
    pub fn open(self, b: bool, t: &str) -> St { if b { self.tok(t).tok("(") } else { self } }
    // statements, each on a line that is ended
    pub fn stmts(self, a: &[Value], c: Cfg, k: i64) -> St { if k <= 0 { self } else { self.stmts(a, c, k - 1).indent().sub(nth(a, k - 1), c).nl() } }
    pub fn ostmts(self, n: JV, c: Cfg) -> St { if n.arr_at("body") { self.stmts(n.arr("body"), c, count(n.arr("body"))) } else { self } }
    pub fn parts(self, a: &[Value], c: Cfg, k: i64) -> St { if k <= 0 { self } else { self.parts(a, c, k - 1).sub(nth(a, k - 1), c).nl().nl() } }
    pub fn doctext(self, t: &str) -> St { if has_nl(t) { self.quoted3(t) } else { self.tok("\"\"\"").flow(t, "").tok("\"\"\"") } }
    pub fn decorators(self, a: &[Value], c: Cfg, k: i64) -> St { if k <= 0 { self } else { self.decorators(a, c, k - 1).oind(k > 1).tok("@").sub(nth(a, k - 1), c).nl() } }
    pub fn args(self, a: &[Value], d: &[Value], c: Cfg, k: i64) -> St {
        if k <= 0 { self } else {
            let f = count(a) - count(d);
            let s = self.args(a, d, c, k - 1).gap(k > 1).sub(nth(a, k - 1), c);
            if k - 1 >= f { s.tok("=").sub(nth(d, k - 1 - f), c) } else { s }
        }
    }
    pub fn chain(self, n: JV, a: &[Value], c: Cfg, k: i64) -> St { if k <= 1 { self.operand(nth(a, 0), c) } else { self.chain(n, a, c, k - 1).sp().osub(n, "op", c).sp().operand(nth(a, k - 1), c) } }
    pub fn comma(self, b: bool) -> St { if b { self.tok(",").nl() } else { self } }
    pub fn entries(self, a: &[Value], v: &[Value], c: Cfg, k: i64) -> St {
        if k <= 0 { self } else {
            self.entries(a, v, c, k - 1).comma(k > 1).indent().sub(nth(a, k - 1), c).tok(":").sp().sub(nth(v, k - 1), c)
        }
    }
}
pub fn v_name(s: St, n: JV, c: Cfg) -> St { s.ostr(n, "id") }
pub fn v_vardecl(s: St, n: JV, c: Cfg) -> St {
    if n.has("target") {
        s.osub(n, "target", c).tok(":").sp()
            .open(flag(n, "is_public"), "public").open(flag(n, "is_constant"), "constant").open(flag(n, "is_immutable"), "immutable")
            .osub(n, "annotation", c.parens(true))
            .rep(")", one(flag(n, "is_public")) + one(flag(n, "is_constant")) + one(flag(n, "is_immutable")))
            .oval(n, c)
    } else { s }
}
pub fn v_subscript(s: St, n: JV, c: Cfg) -> St { s.osub(n, "value", c).osub(n, "slice", c) }
pub fn v_index(s: St, n: JV, c: Cfg) -> St { s.tok("[").osub(n, "value", c.parens(false)).tok("]") }
pub fn v_tuple(s: St, n: JV, c: Cfg, up: bool) -> St { s.opt(up, "(").olist(n, "elements", c).opt(up, ")") }
pub fn v_fundef_e(s: St, n: JV, c: Cfg) -> St { if n.arr_at("decorator_list") { s.decorators(n.arr("decorator_list"), c, count(n.arr("decorator_list"))) } else { s } }
pub fn v_fundef(s: St, n: JV, c: Cfg, decl: bool) -> St {
    let a = s.oind(some(n, "decorator_list")).tok("def").sp().ostr(n, "name").tok("(").osub(n, "args", c).tok(")");
    let b = if live(n, "returns") { a.sp().tok("->").sp().sub(n.at("returns"), c.parens(true)) } else { a };
    let d = b.tok(":");
    let e = if live(n, "doc_string") {
        let t = n.at("doc_string");
        if t.str_at("value") { d.inc().nl().indent().doctext(t.str("value")).nl().dec() } else { d.inc().dec() }
    } else { d };
    if decl { e.sp().olist(n, "body", c) } else if n.arr_at("body") { e.nl().inc().olines(n, "body", c).dec() } else { e }
}
pub fn v_arguments(s: St, n: JV, c: Cfg) -> St {
    if n.arr_at("defaults") {
        if count(n.arr("defaults")) == 0 { s.olist(n, "args", c) }
        else if n.arr_at("args") { s.args(n.arr("args"), n.arr("defaults"), c, count(n.arr("args"))) }
        else { s }
    } else { s }
}
pub fn v_arg(s: St, n: JV, c: Cfg) -> St { let a = s.ostr(n, "arg"); if live(n, "annotation") { a.tok(":").sp().sub(n.at("annotation"), c) } else { a } }
pub fn v_assign(s: St, n: JV, c: Cfg) -> St { s.osub(n, "target", c).tok(" = ").osub(n, "value", c) }
pub fn v_attribute(s: St, n: JV, c: Cfg) -> St { s.osub(n, "value", c).tok(".").ostr(n, "attr") }
pub fn v_augassign(s: St, n: JV, c: Cfg) -> St {
    let a = s.osub(n, "target", c).sp();
    let b = match opr(n) { Some(o) => a.tok(o), None => a };
    b.tok("=").sp().osub(n, "value", c)
}
pub fn v_int(s: St, n: JV, c: Cfg) -> St { if n.has("value") && number(n.at("value")) { s.tok(digits(n.at("value"))) } else { s } }
pub fn v_value(s: St, n: JV, c: Cfg) -> St { s.ostr(n, "value") }
pub fn v_binop(s: St, n: JV, c: Cfg) -> St {
    let a = s.ooperand(n, "left", c);
    let b = match opr(n) { Some(o) => a.sp().tok(o).sp(), None => a };
    b.ooperand(n, "right", c)
}
pub fn v_boolop(s: St, n: JV, c: Cfg) -> St { if n.arr_at("values") && count(n.arr("values")) >= 2 { s.chain(n, n.arr("values"), c, count(n.arr("values"))) } else { s } }
pub fn v_assert(s: St, n: JV, c: Cfg) -> St {
    let a = s.tok("assert").sp().osub(n, "test", c);
    if n.has("msg") && n.at("msg").object() { a.tok(",").sp().sub(n.at("msg"), c) } else { a }
}
pub fn v_str(s: St, n: JV, c: Cfg) -> St { if n.str_at("value") { s.quoted(esc(n.str("value"))) } else { s } }
pub fn v_module(s: St, n: JV, c: Cfg) -> St {
    let a = if n.has("doc_string") && n.at("doc_string").str_at("value") { s.doctext(n.at("doc_string").str("value")).nl().nl() } else { s };
    if n.arr_at("body") { a.parts(n.arr("body"), c, count(n.arr("body"))) } else { a }
}
pub fn v_annassign(s: St, n: JV, c: Cfg) -> St {
    let a = s.osub(n, "target", c);
    let b = if n.has("annotation") { a.tok(":").sp().sub(n.at("annotation"), c) } else { a };
    b.oval(n, c)
}
pub fn v_expr(s: St, n: JV, c: Cfg) -> St { s.osub(n, "value", c) }
pub fn v_call(s: St, n: JV, c: Cfg) -> St {
    let a = s.osub(n, "func", c).tok("(").olist(n, "args", c);
    let b = if some(n, "keywords") { a.gap(some(n, "args")).olist(n, "keywords", c) } else { a };
    b.tok(")")
}
pub fn v_nameconstant(s: St, n: JV, c: Cfg) -> St {
    if n.has("value") {
        let v = n.at("value");
        if v.boolean() { s.tok(if v.truth() { "True" } else { "False" }) } else { s.opt(v.null(), "None") }
    } else { s }
}
pub fn v_unaryop(s: St, n: JV, c: Cfg) -> St {
    let a = s.opt(opis(n, "Not"), "not").opt(opis(n, "Invert"), "~").opt(opis(n, "USub"), "-");
    if n.has("operand") { a.osp(opis(n, "Not")).operand(n.at("operand"), c) } else { a }
}
pub fn v_head(s: St, n: JV, t: &str) -> St { let a = s.tok(t).sp(); if n.str_at("name") { a.tok(n.str("name")).tok(":").nl() } else { a } }
pub fn v_interface_e(s: St, n: JV, c: Cfg) -> St { v_head(s, n, "interface").inc() }
pub fn v_interface(s: St, n: JV, c: Cfg) -> St { s.ostmts(n, c.decls(true)) }
pub fn v_struct_e(s: St, n: JV, c: Cfg) -> St { v_head(s, n, "struct").inc() }
pub fn v_struct(s: St, n: JV, c: Cfg) -> St { s.ostmts(n, c) }
pub fn v_dec(s: St, n: JV, c: Cfg) -> St { s.dec() }
pub fn v_for(s: St, n: JV, c: Cfg) -> St { s.tok("for").sp().osub(n, "target", c).sp().tok("in").sp().osub(n, "iter", c).tok(":").nl().inc().ostmts(n, c).dec() }
pub fn v_list(s: St, n: JV, c: Cfg) -> St { s.tok("[").olist(n, "elements", c).tok("]") }
pub fn v_if(s: St, n: JV, c: Cfg) -> St {
    let a = s.tok("if").sp().osub(n, "test", c).tok(":").nl().inc().olines(n, "body", c).dec();
    if some(n, "orelse") { a.nl().indent().tok("else:").nl().inc().olines(n, "orelse", c).dec() } else { a }
}
pub fn v_break(s: St, n: JV, c: Cfg) -> St { s.tok("break") }
pub fn v_continue(s: St, n: JV, c: Cfg) -> St { s.tok("continue") }
pub fn v_pass(s: St, n: JV, c: Cfg) -> St { s.tok("pass") }
pub fn v_return(s: St, n: JV, c: Cfg) -> St { let a = s.tok("return"); if live(n, "value") { a.sp().sub(n.at("value"), c) } else { a } }
pub fn v_raise(s: St, n: JV, c: Cfg) -> St { s.tok("raise").sp().osub(n, "exc", c) }
pub fn v_alias(s: St, n: JV) -> St { if n.str_at("alias") { s.sp().tok("as").sp().tok(n.str("alias")) } else { s } }
pub fn v_import(s: St, n: JV, c: Cfg) -> St { v_alias(s.tok("import").sp().ostr(n, "name"), n) }
pub fn v_importfrom(s: St, n: JV, c: Cfg) -> St {
    let a = s.tok("from").sp();
    let b = if n.has("module") { (if n.at("module").null() { a.tok(".") } else { a.ostr(n, "module") }).sp() } else { a };
    v_alias(b.tok("import").sp().ostr(n, "name"), n)
}
pub fn v_block(s: St, n: JV, t: &str, c: Cfg) -> St { s.tok(t).sp().ostr(n, "name").opt(n.str_at("name"), ":").nl().inc().olines(n, "body", c).dec() }
pub fn v_event(s: St, n: JV, c: Cfg) -> St { v_block(s, n, "event", c) }
pub fn v_enum(s: St, n: JV, c: Cfg) -> St { v_block(s, n, "enum", c) }
pub fn v_log(s: St, n: JV, c: Cfg) -> St { s.tok("log").sp().nsub(n, "value", c) }
pub fn v_comment(s: St, n: JV, c: Cfg) -> St {
    if n.has("value") {
        let v = n.at("value");
        if v.string() { s.tok("#").sp().flow(v.chars(), "# ") }
        else if v.object() { s.tok("#").sp().flow(ptext(v, c), "# ") }
        else { s }
    } else { s }
}
pub fn v_and(s: St, n: JV, c: Cfg) -> St { s.opt(is(n, "And"), "and").opt(is(n, "Or"), "or") }
pub fn v_keyword(s: St, n: JV, c: Cfg) -> St { if n.str_at("arg") { s.tok(n.str("arg")).tok("=").osub(n, "value", c) } else { s } }
pub fn v_bytes(s: St, n: JV, c: Cfg) -> St { if n.str_at("value") { s.tok(byte_text(n.str("value"))) } else { s } }
pub fn v_dict_e(s: St, n: JV, c: Cfg) -> St { s.tok("{") }
pub fn v_dict(s: St, n: JV, c: Cfg) -> St {
    if some(n, "keys") && n.arr_at("values") { s.nl().inc().entries(n.arr("keys"), n.arr("values"), c, count(n.arr("keys"))).dec().nl().indent() } else { s }
}
pub fn v_dict_x(s: St, n: JV, c: Cfg) -> St { s.tok("}") }
pub fn v_entry(s: St, n: JV, c: Cfg) -> St {
    if is(n, "FunctionDef") { v_fundef_e(s, n, c) }
    else if is(n, "InterfaceDef") { v_interface_e(s, n, c) }
    else if is(n, "StructDef") { v_struct_e(s, n, c) }
    else if is(n, "Dict") { v_dict_e(s, n, c) }
    else { s }
}
pub fn v_body(s: St, n: JV, c: Cfg) -> St {
    if is(n, "Name") { v_name(s, n, c) }
    else if is(n, "VariableDecl") { v_vardecl(s, n, c) }
    else if is(n, "Subscript") { v_subscript(s, n, c) }
    else if is(n, "Index") { v_index(s, n, c) }
    else if is(n, "Tuple") { v_tuple(s, n, c, c.paren) }
    else if is(n, "FunctionDef") { v_fundef(s, n, c, c.decl) }
    else if is(n, "arguments") { v_arguments(s, n, c) }
    else if is(n, "arg") { v_arg(s, n, c) }
    else if is(n, "Assign") { v_assign(s, n, c) }
    else if is(n, "Attribute") { v_attribute(s, n, c) }
    else if is(n, "AugAssign") { v_augassign(s, n, c) }
    else if is(n, "Int") { v_int(s, n, c) }
    else if is(n, "Decimal") || is(n, "Hex") { v_value(s, n, c) }
    else if is(n, "BinOp") || is(n, "Compare") { v_binop(s, n, c) }
    else if is(n, "BoolOp") { v_boolop(s, n, c) }
    else if is(n, "Assert") { v_assert(s, n, c) }
    else if is(n, "Str") { v_str(s, n, c) }
    else if is(n, "Module") { v_module(s, n, c) }
    else if is(n, "AnnAssign") { v_annassign(s, n, c) }
    else if is(n, "Expr") { v_expr(s, n, c) }
    else if is(n, "Call") { v_call(s, n, c) }
    else if is(n, "NameConstant") { v_nameconstant(s, n, c) }
    else if is(n, "UnaryOp") { v_unaryop(s, n, c) }
    else if is(n, "InterfaceDef") { v_interface(s, n, c) }
    else if is(n, "StructDef") { v_struct(s, n, c) }
    else if is(n, "For") { v_for(s, n, c) }
    else if is(n, "List") { v_list(s, n, c) }
    else if is(n, "If") { v_if(s, n, c) }
    else if is(n, "Break") { v_break(s, n, c) }
    else if is(n, "Continue") { v_continue(s, n, c) }
    else if is(n, "Pass") { v_pass(s, n, c) }
    else if is(n, "Return") { v_return(s, n, c) }
    else if is(n, "Raise") { v_raise(s, n, c) }
    else if is(n, "Import") { v_import(s, n, c) }
    else if is(n, "ImportFrom") { v_importfrom(s, n, c) }
    else if is(n, "EventDef") { v_event(s, n, c) }
    else if is(n, "Log") { v_log(s, n, c) }
    else if is(n, "Comment") { v_comment(s, n, c) }
    else if is(n, "And") || is(n, "Or") { v_and(s, n, c) }
    else if is(n, "keyword") { v_keyword(s, n, c) }
    else if is(n, "Bytes") { v_bytes(s, n, c) }
    else if is(n, "Dict") { v_dict(s, n, c) }
    else if is(n, "EnumDef") { v_enum(s, n, c) }
    else { s }
}
pub fn v_exit(s: St, n: JV, c: Cfg) -> St {
    if is(n, "InterfaceDef") { v_dec(s, n, c) }
    else if is(n, "StructDef") { v_dec(s, n, c) }
    else if is(n, "Dict") { v_dict_x(s, n, c) }
    else { s }
}
pub fn known(n: JV) -> bool { is(n, "Name") || is(n, "VariableDecl") || is(n, "Subscript") || is(n, "Index") || is(n, "Tuple") || is(n, "FunctionDef") || is(n, "arguments") || is(n, "arg") || is(n, "Assign") || is(n, "Attribute") || is(n, "AugAssign") || is(n, "Int") || is(n, "Decimal") || is(n, "Hex") || is(n, "BinOp") || is(n, "Compare") || is(n, "BoolOp") || is(n, "Assert") || is(n, "Str") || is(n, "Module") || is(n, "AnnAssign") || is(n, "Expr") || is(n, "Call") || is(n, "NameConstant") || is(n, "UnaryOp") || is(n, "InterfaceDef") || is(n, "StructDef") || is(n, "For") || is(n, "List") || is(n, "If") || is(n, "Break") || is(n, "Continue") || is(n, "Pass") || is(n, "Return") || is(n, "Raise") || is(n, "Import") || is(n, "ImportFrom") || is(n, "EventDef") || is(n, "Log") || is(n, "Comment") || is(n, "And") || is(n, "Or") || is(n, "keyword") || is(n, "Bytes") || is(n, "Dict") || is(n, "EnumDef") }
pub fn v_node(s: St, n: JV, c: Cfg) -> St { v_exit(v_body(v_entry(s, n, c), n, c), n, c) }
