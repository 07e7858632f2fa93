// ---- how each kind of Vyper node is spelled ----
pub ghost struct Cfg { pub paren: bool, pub decl: bool }
impl Cfg {
    pub open spec fn parens(self, b: bool) -> Cfg { Cfg { paren: b, ..self } }
    pub open spec fn decls(self, b: bool) -> Cfg { Cfg { decl: b, ..self } }
}
pub open spec fn pref(m: Map<Seq<char>, PreferenceValue>, k: Seq<char>) -> bool { m.dom().contains(k) && m[k] is Boolean && m[k]->Boolean_0 }
pub open spec fn cfg_of(m: Map<Seq<char>, PreferenceValue>) -> Cfg { Cfg { paren: pref(m, "tuples_should_use_parentheses"@), decl: pref(m, "function_def_uses_struct_decl_form"@) } }
// the text of a string literal: characters that would end it or change its meaning are escaped
pub open spec fn esc1(c: char) -> Seq<char> { if c == '\\' { "\\\\"@ } else if c == '"' { "\\\""@ } else if c == '\n' { "\\n"@ } else if c == '\r' { "\\r"@ } else { seq![c] } }
pub open spec fn esc(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { esc(s.drop_last()) + esc1(s.last()) } }
// a number as it is written: integers of up to 64 bits exactly
pub open spec fn number(v: JV) -> bool { v is Num }
pub open spec fn digits(v: JV) -> Seq<char> { match v->Num_0 { NumV::Int(i) => dec(i), NumV::Float(f) => float_text(f) } }
// the bytes 0xabcd as \xab\xcd: the first k characters of the text
pub open spec fn hexes(t: Seq<char>, k: int) -> Seq<char> decreases k { if k <= 2 { Seq::empty() } else { hexes(t, k - 2) + "\\x"@ + t.subrange(k - 2, k) } }
pub open spec fn byte_text(t: Seq<char>) -> Seq<char> { "b'"@ + hexes(t, t.len() as int) + "'"@ }
// the text of a node printed on a page of its own
pub open spec fn fresh() -> St { St { out: Seq::empty(), row: 1, col: 1, ind: 0, tab: 4, page: 150, max: 36, nls: "\n"@ } }
pub open spec fn ptext(n: JV, c: Cfg) -> Seq<char> { pr(fresh(), n, c).out }
// what the compiler's trees look like where the printers rely on it: no more defaults than arguments, a value per key, bytes as even hexadecimal (assumption)
pub axiom fn ax_defaults(n: JV) ensures n.arr_at("defaults"@) && n.arr_at("args"@) ==> n.arr("args"@).len() >= n.arr("defaults"@).len();
pub axiom fn ax_dict(n: JV) ensures n.arr_at("keys"@) && n.arr_at("values"@) ==> n.arr("keys"@).len() == n.arr("values"@).len();
pub axiom fn ax_bytes(n: JV) ensures n.str_at("value"@) ==> ascii(n.str("value"@)) && n.str("value"@).len() >= 2 && n.str("value"@).len() % 2 == 0;
// TWIN BEGIN
pub open spec fn is(n: JV, k: Seq<char>) -> bool { n.is_str("ast_type"@, k) }
// the operator a Python AST operator name stands for
pub open spec fn py(n: Seq<char>) -> Option<Seq<char>> {
    if n == "Add"@ { Some("+"@) } else if n == "Sub"@ { Some("-"@) } else if n == "Mult"@ { Some("*"@) } else if n == "Div"@ { Some("/"@) }
    else if n == "FloorDiv"@ { Some("//"@) } else if n == "LShift"@ { Some("<<"@) } else if n == "RShift"@ { Some(">>"@) }
    else if n == "Mod"@ { Some("%"@) } else if n == "Pow"@ { Some("**"@) } else if n == "And"@ { Some("&&"@) } else if n == "Or"@ { Some("||"@) }
    else if n == "BitAnd"@ { Some("&"@) } else if n == "BitOr"@ { Some("|"@) } else if n == "BitXor"@ { Some("^"@) } else if n == "Eq"@ { Some("=="@) }
    else if n == "NotEq"@ { Some("!="@) } else if n == "Gt"@ { Some(">"@) } else if n == "GtE"@ { Some(">="@) } else if n == "Lt"@ { Some("<"@) }
    else if n == "LtE"@ { Some("<="@) } else if n == "Not"@ { Some("!"@) } else if n == "Invert"@ { Some("~"@) } else if n == "In"@ { Some("in"@) }
    else if n == "NotIn"@ { Some("not in"@) } else { None }
}
pub open spec fn opr(n: JV) -> Option<Seq<char>> { if n.has("op"@) && n.at("op"@).str_at("ast_type"@) { py(n.at("op"@).str("ast_type"@)) } else { None } }
pub open spec fn opis(n: JV, k: Seq<char>) -> bool { n.has("op"@) && is(n.at("op"@), k) }
// operands that need parentheses to stay one operand
pub open spec fn nested(n: JV) -> bool { is(n, "BinOp"@) || is(n, "Compare"@) || is(n, "BoolOp"@) || is(n, "UnaryOp"@) }
impl St {
    pub open spec fn operand(self, n: JV, c: Cfg) -> St { if n.str_at("ast_type"@) { self.opt(nested(n), "("@).sub(n, c).opt(nested(n), ")"@) } else { self } }
    pub open spec fn ooperand(self, n: JV, k: Seq<char>, c: Cfg) -> St { if n.has(k) { self.operand(n.at(k), c) } else { self } }
    pub open spec fn oval(self, n: JV, c: Cfg) -> St { if live(n, "value"@) { self.tok(" = "@).sub(n.at("value"@), c) } else { self } }
    pub open spec fn open(self, b: bool, t: Seq<char>) -> St { if b { self.tok(t).tok("("@) } else { self } }
    // statements, each on a line that is ended
    pub open spec fn stmts(self, a: Seq<JV>, c: Cfg, k: int) -> St decreases k { if k <= 0 { self } else { self.stmts(a, c, k - 1).indent().sub(nth(a, k - 1), c).nl() } }
    pub open spec fn ostmts(self, n: JV, c: Cfg) -> St { if n.arr_at("body"@) { self.stmts(n.arr("body"@), c, count(n.arr("body"@))) } else { self } }
    pub open spec fn parts(self, a: Seq<JV>, c: Cfg, k: int) -> St decreases k { if k <= 0 { self } else { self.parts(a, c, k - 1).sub(nth(a, k - 1), c).nl().nl() } }
    pub open spec fn doctext(self, t: Seq<char>) -> St { if has_nl(t) { self.quoted3(t) } else { self.tok("\"\"\""@).flow(t, ""@).tok("\"\"\""@) } }
    pub open spec fn decorators(self, a: Seq<JV>, c: Cfg, k: int) -> St decreases k { if k <= 0 { self } else { self.decorators(a, c, k - 1).oind(k > 1).tok("@"@).sub(nth(a, k - 1), c).nl() } }
    pub open spec fn args(self, a: Seq<JV>, d: Seq<JV>, c: Cfg, k: int) -> St decreases k {
        if k <= 0 { self } else {
            let f = count(a) - count(d);
            let s = self.args(a, d, c, k - 1).gap(k > 1).sub(nth(a, k - 1), c);
            if k - 1 >= f { s.tok("="@).sub(nth(d, k - 1 - f), c) } else { s }
        }
    }
    pub open spec fn chain(self, n: JV, a: Seq<JV>, c: Cfg, k: int) -> St decreases k { if k <= 1 { self.operand(nth(a, 0), c) } else { self.chain(n, a, c, k - 1).sp().osub(n, "op"@, c).sp().operand(nth(a, k - 1), c) } }
    pub open spec fn comma(self, b: bool) -> St { if b { self.tok(","@).nl() } else { self } }
    pub open spec fn entries(self, a: Seq<JV>, v: Seq<JV>, c: Cfg, k: int) -> St decreases k {
        if k <= 0 { self } else {
            self.entries(a, v, c, k - 1).comma(k > 1).indent().sub(nth(a, k - 1), c).tok(":"@).sp().sub(nth(v, k - 1), c)
        }
    }
}
pub open spec fn v_name(s: St, n: JV, c: Cfg) -> St { s.ostr(n, "id"@) }
pub open spec fn v_vardecl(s: St, n: JV, c: Cfg) -> St {
    if n.has("target"@) {
        s.osub(n, "target"@, c).tok(":"@).sp()
            .open(flag(n, "is_public"@), "public"@).open(flag(n, "is_constant"@), "constant"@).open(flag(n, "is_immutable"@), "immutable"@)
            .osub(n, "annotation"@, c.parens(true))
            .rep(")"@, one(flag(n, "is_public"@)) + one(flag(n, "is_constant"@)) + one(flag(n, "is_immutable"@)))
            .oval(n, c)
    } else { s }
}
pub open spec fn v_subscript(s: St, n: JV, c: Cfg) -> St { s.osub(n, "value"@, c).osub(n, "slice"@, c) }
pub open spec fn v_index(s: St, n: JV, c: Cfg) -> St { s.tok("["@).osub(n, "value"@, c.parens(false)).tok("]"@) }
pub open spec fn v_tuple(s: St, n: JV, c: Cfg, up: bool) -> St { s.opt(up, "("@).olist(n, "elements"@, c).opt(up, ")"@) }
pub open spec fn v_fundef_e(s: St, n: JV, c: Cfg) -> St { if n.arr_at("decorator_list"@) { s.decorators(n.arr("decorator_list"@), c, count(n.arr("decorator_list"@))) } else { s } }
pub open spec fn v_fundef(s: St, n: JV, c: Cfg, decl: bool) -> St {
    let a = s.oind(some(n, "decorator_list"@)).tok("def"@).sp().ostr(n, "name"@).tok("("@).osub(n, "args"@, c).tok(")"@);
    let b = if live(n, "returns"@) { a.sp().tok("->"@).sp().sub(n.at("returns"@), c.parens(true)) } else { a };
    let d = b.tok(":"@);
    let e = if live(n, "doc_string"@) {
        let t = n.at("doc_string"@);
        if t.str_at("value"@) { d.inc().nl().indent().doctext(t.str("value"@)).nl().dec() } else { d.inc().dec() }
    } else { d };
    if decl { e.sp().olist(n, "body"@, c) } else if n.arr_at("body"@) { e.nl().inc().olines(n, "body"@, c).dec() } else { e }
}
pub open spec fn v_arguments(s: St, n: JV, c: Cfg) -> St {
    if n.arr_at("defaults"@) {
        if count(n.arr("defaults"@)) == 0 { s.olist(n, "args"@, c) }
        else if n.arr_at("args"@) { s.args(n.arr("args"@), n.arr("defaults"@), c, count(n.arr("args"@))) }
        else { s }
    } else { s }
}
pub open spec fn v_arg(s: St, n: JV, c: Cfg) -> St { let a = s.ostr(n, "arg"@); if live(n, "annotation"@) { a.tok(":"@).sp().sub(n.at("annotation"@), c) } else { a } }
pub open spec fn v_assign(s: St, n: JV, c: Cfg) -> St { s.osub(n, "target"@, c).tok(" = "@).osub(n, "value"@, c) }
pub open spec fn v_attribute(s: St, n: JV, c: Cfg) -> St { s.osub(n, "value"@, c).tok("."@).ostr(n, "attr"@) }
pub open spec fn v_augassign(s: St, n: JV, c: Cfg) -> St {
    let a = s.osub(n, "target"@, c).sp();
    let b = match opr(n) { Some(o) => a.tok(o), None => a };
    b.tok("="@).sp().osub(n, "value"@, c)
}
pub open spec fn v_int(s: St, n: JV, c: Cfg) -> St { if n.has("value"@) && number(n.at("value"@)) { s.tok(digits(n.at("value"@))) } else { s } }
pub open spec fn v_value(s: St, n: JV, c: Cfg) -> St { s.ostr(n, "value"@) }
pub open spec fn v_binop(s: St, n: JV, c: Cfg) -> St {
    let a = s.ooperand(n, "left"@, c);
    let b = match opr(n) { Some(o) => a.sp().tok(o).sp(), None => a };
    b.ooperand(n, "right"@, c)
}
pub open spec fn v_boolop(s: St, n: JV, c: Cfg) -> St { if n.arr_at("values"@) && count(n.arr("values"@)) >= 2 { s.chain(n, n.arr("values"@), c, count(n.arr("values"@))) } else { s } }
pub open spec fn v_assert(s: St, n: JV, c: Cfg) -> St {
    let a = s.tok("assert"@).sp().osub(n, "test"@, c);
    if n.has("msg"@) && n.at("msg"@).object() { a.tok(","@).sp().sub(n.at("msg"@), c) } else { a }
}
pub open spec fn v_str(s: St, n: JV, c: Cfg) -> St { if n.str_at("value"@) { s.quoted(esc(n.str("value"@))) } else { s } }
pub open spec fn v_module(s: St, n: JV, c: Cfg) -> St {
    let a = if n.has("doc_string"@) && n.at("doc_string"@).str_at("value"@) { s.doctext(n.at("doc_string"@).str("value"@)).nl().nl() } else { s };
    if n.arr_at("body"@) { a.parts(n.arr("body"@), c, count(n.arr("body"@))) } else { a }
}
pub open spec fn v_annassign(s: St, n: JV, c: Cfg) -> St {
    let a = s.osub(n, "target"@, c);
    let b = if n.has("annotation"@) { a.tok(":"@).sp().sub(n.at("annotation"@), c) } else { a };
    b.oval(n, c)
}
pub open spec fn v_expr(s: St, n: JV, c: Cfg) -> St { s.osub(n, "value"@, c) }
pub open spec fn v_call(s: St, n: JV, c: Cfg) -> St {
    let a = s.osub(n, "func"@, c).tok("("@).olist(n, "args"@, c);
    let b = if some(n, "keywords"@) { a.gap(some(n, "args"@)).olist(n, "keywords"@, c) } else { a };
    b.tok(")"@)
}
pub open spec fn v_nameconstant(s: St, n: JV, c: Cfg) -> St {
    if n.has("value"@) {
        let v = n.at("value"@);
        if v.boolean() { s.tok(if v.truth() { "True"@ } else { "False"@ }) } else { s.opt(v.null(), "None"@) }
    } else { s }
}
pub open spec fn v_unaryop(s: St, n: JV, c: Cfg) -> St {
    let a = s.opt(opis(n, "Not"@), "not"@).opt(opis(n, "Invert"@), "~"@).opt(opis(n, "USub"@), "-"@);
    if n.has("operand"@) { a.osp(opis(n, "Not"@)).operand(n.at("operand"@), c) } else { a }
}
pub open spec fn v_head(s: St, n: JV, t: Seq<char>) -> St { let a = s.tok(t).sp(); if n.str_at("name"@) { a.tok(n.str("name"@)).tok(":"@).nl() } else { a } }
pub open spec fn v_interface_e(s: St, n: JV, c: Cfg) -> St { v_head(s, n, "interface"@).inc() }
pub open spec fn v_interface(s: St, n: JV, c: Cfg) -> St { s.ostmts(n, c.decls(true)) }
pub open spec fn v_struct_e(s: St, n: JV, c: Cfg) -> St { v_head(s, n, "struct"@).inc() }
pub open spec fn v_struct(s: St, n: JV, c: Cfg) -> St { s.ostmts(n, c) }
pub open spec fn v_dec(s: St, n: JV, c: Cfg) -> St { s.dec() }
pub open spec fn v_for(s: St, n: JV, c: Cfg) -> St { s.tok("for"@).sp().osub(n, "target"@, c).sp().tok("in"@).sp().osub(n, "iter"@, c).tok(":"@).nl().inc().ostmts(n, c).dec() }
pub open spec fn v_list(s: St, n: JV, c: Cfg) -> St { s.tok("["@).olist(n, "elements"@, c).tok("]"@) }
pub open spec fn v_if(s: St, n: JV, c: Cfg) -> St {
    let a = s.tok("if"@).sp().osub(n, "test"@, c).tok(":"@).nl().inc().olines(n, "body"@, c).dec();
    if some(n, "orelse"@) { a.nl().indent().tok("else:"@).nl().inc().olines(n, "orelse"@, c).dec() } else { a }
}
pub open spec fn v_break(s: St, n: JV, c: Cfg) -> St { s.tok("break"@) }
pub open spec fn v_continue(s: St, n: JV, c: Cfg) -> St { s.tok("continue"@) }
pub open spec fn v_pass(s: St, n: JV, c: Cfg) -> St { s.tok("pass"@) }
pub open spec fn v_return(s: St, n: JV, c: Cfg) -> St { let a = s.tok("return"@); if live(n, "value"@) { a.sp().sub(n.at("value"@), c) } else { a } }
pub open spec fn v_raise(s: St, n: JV, c: Cfg) -> St { s.tok("raise"@).sp().osub(n, "exc"@, c) }
pub open spec fn v_alias(s: St, n: JV) -> St { if n.str_at("alias"@) { s.sp().tok("as"@).sp().tok(n.str("alias"@)) } else { s } }
pub open spec fn v_import(s: St, n: JV, c: Cfg) -> St { v_alias(s.tok("import"@).sp().ostr(n, "name"@), n) }
pub open spec fn v_importfrom(s: St, n: JV, c: Cfg) -> St {
    let a = s.tok("from"@).sp();
    let b = if n.has("module"@) { (if n.at("module"@).null() { a.tok("."@) } else { a.ostr(n, "module"@) }).sp() } else { a };
    v_alias(b.tok("import"@).sp().ostr(n, "name"@), n)
}
pub open spec fn v_block(s: St, n: JV, t: Seq<char>, c: Cfg) -> St { s.tok(t).sp().ostr(n, "name"@).opt(n.str_at("name"@), ":"@).nl().inc().olines(n, "body"@, c).dec() }
pub open spec fn v_event(s: St, n: JV, c: Cfg) -> St { v_block(s, n, "event"@, c) }
pub open spec fn v_enum(s: St, n: JV, c: Cfg) -> St { v_block(s, n, "enum"@, c) }
pub open spec fn v_log(s: St, n: JV, c: Cfg) -> St { s.tok("log"@).sp().nsub(n, "value"@, c) }
pub open spec fn v_comment(s: St, n: JV, c: Cfg) -> St {
    if n.has("value"@) {
        let v = n.at("value"@);
        if v.string() { s.tok("#"@).sp().flow(v.chars(), "# "@) }
        else if v.object() { s.tok("#"@).sp().flow(ptext(v, c), "# "@) }
        else { s }
    } else { s }
}
pub open spec fn v_and(s: St, n: JV, c: Cfg) -> St { s.opt(is(n, "And"@), "and"@).opt(is(n, "Or"@), "or"@) }
pub open spec fn v_keyword(s: St, n: JV, c: Cfg) -> St { if n.str_at("arg"@) { s.tok(n.str("arg"@)).tok("="@).osub(n, "value"@, c) } else { s } }
pub open spec fn v_bytes(s: St, n: JV, c: Cfg) -> St { if n.str_at("value"@) { s.tok(byte_text(n.str("value"@))) } else { s } }
pub open spec fn v_dict_e(s: St, n: JV, c: Cfg) -> St { s.tok("{"@) }
pub open spec fn v_dict(s: St, n: JV, c: Cfg) -> St {
    if some(n, "keys"@) && n.arr_at("values"@) { s.nl().inc().entries(n.arr("keys"@), n.arr("values"@), c, count(n.arr("keys"@))).dec().nl().indent() } else { s }
}
pub open spec fn v_dict_x(s: St, n: JV, c: Cfg) -> St { s.tok("}"@) }
// TWIN END
