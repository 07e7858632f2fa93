// ---- how each kind of Solidity node is spelled ----
// semi: statements of one expression end with a semicolon; single: a block of one statement stays on its line; nonpay: nonpayable is written out
pub ghost struct Cfg { pub semi: bool, pub single: bool, pub nonpay: bool }
impl Cfg {
    pub open spec fn semis(self, b: bool) -> Cfg { Cfg { semi: b, ..self } }
    pub open spec fn singles(self, b: bool) -> Cfg { Cfg { single: b, ..self } }
}
pub open spec fn pref(m: Map<Seq<char>, PreferenceValue>, k: Seq<char>) -> bool { m.dom().contains(k) && m[k] is Boolean && m[k]->Boolean_0 }
pub open spec fn cfg_of(m: Map<Seq<char>, PreferenceValue>) -> Cfg {
    Cfg { semi: pref(m, "write_expression_statement_semicolon"@), single: pref(m, "single_block_statements_on_same_line"@), nonpay: pref(m, "write_nonpayable_state_mutability"@) }
}
// the text of a string literal: printable ASCII as it is, everything else by an escape sequence
pub open spec fn hexdigit(d: int) -> char { if d < 10 { (48 + d) as char } else { (87 + d) as char } }
pub open spec fn hex2(n: int) -> Seq<char> { seq![hexdigit(n / 16 % 16), hexdigit(n % 16)] }
pub open spec fn hex4(n: int) -> Seq<char> { seq![hexdigit(n / 4096 % 16), hexdigit(n / 256 % 16), hexdigit(n / 16 % 16), hexdigit(n % 16)] }
pub uninterp spec fn utf8(c: char) -> Seq<u8>;
pub open spec fn xs(b: Seq<u8>) -> Seq<char> decreases b.len() { if b.len() == 0 { Seq::empty() } else { xs(b.drop_last()) + ("\\x"@ + hex2(b.last() as int)) } }
pub open spec fn esc1(c: char) -> Seq<char> {
    if c == '\t' { "\\t"@ } else if c == '\n' { "\\n"@ } else if c == '\r' { "\\r"@ }
    else if (c as int) < 32 { "\\x"@ + hex2(c as int) }
    else if c == '"' || c == '\\' { seq!['\\', c] }
    else if (c as int) < 127 { seq![c] }
    else if (c as int) < 0x10000 { "\\u"@ + hex4(c as int) }
    else { xs(utf8(c)) }
}
pub open spec fn esc(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { esc(s.drop_last()) + esc1(s.last()) } }
// a part of a version number
pub open spec fn dotted(t: Seq<char>) -> bool { t.len() > 0 && forall|i: int| 0 <= i < t.len() ==> ('0' <= #[trigger] t[i] && t[i] <= '9') || t[i] == '.' }
// the lines of a text: what splitting it at line ends gives
pub uninterp spec fn split_nl(t: Seq<char>) -> Seq<Seq<char>>;
pub open spec fn part(t: Seq<char>, i: int) -> Seq<char> { split_nl(t)[i] }
pub open spec fn nparts(t: Seq<char>) -> int { split_nl(t).len() as int }
pub open spec fn blank(t: Seq<char>) -> bool { t.len() == 0 }
// the text of a node printed on a page of its own
pub open spec fn fresh() -> St { St { out: Seq::empty(), row: 1, col: 1, ind: 0, tab: 4, page: 150, max: 36, nls: "\n"@ } }
pub open spec fn ptext(n: JV, c: Cfg) -> Seq<char> { pr(fresh(), n, c).out }
// what the compiler's trees look like where the printers rely on it: a value per name, and names are texts (assumption)
pub axiom fn ax_names(n: JV) ensures n.arr_at("names"@) && n.arr_at("arguments"@) && n.arr("names"@).len() > 0 ==> n.arr("names"@).len() == n.arr("arguments"@).len(),
    n.arr_at("names"@) && n.arr_at("options"@) ==> n.arr("names"@).len() == n.arr("options"@).len();
pub axiom fn ax_name(n: JV, i: int) ensures n.arr_at("names"@) && 0 <= i < n.arr("names"@).len() ==> n.arr("names"@)[i] is Str;
// TWIN BEGIN
pub open spec fn is(n: JV, k: Seq<char>) -> bool { n.is_str("nodeType"@, k) }
// how tightly an operator binds its operands
pub open spec fn prec(o: Seq<char>) -> int {
    if o == "**"@ { 11 } else if o == "*"@ || o == "/"@ || o == "%"@ { 10 } else if o == "+"@ || o == "-"@ { 9 } else if o == "<<"@ || o == ">>"@ { 8 }
    else if o == "&"@ { 7 } else if o == "^"@ { 6 } else if o == "|"@ { 5 } else if o == "<"@ || o == ">"@ || o == "<="@ || o == ">="@ { 4 }
    else if o == "=="@ || o == "!="@ { 3 } else if o == "&&"@ { 2 } else if o == "||"@ { 1 } else { 0 }
}
// operand m of the operation n would fall apart without parentheses: operators group from the left, but ** groups from the right
pub open spec fn parted(n: JV, m: JV, left: bool) -> bool {
    is(m, "BinaryOperation"@) && n.str_at("operator"@) && m.str_at("operator"@) && (prec(m.str("operator"@)) < prec(n.str("operator"@)) || prec(m.str("operator"@)) == prec(n.str("operator"@)) && left == (n.str("operator"@) == "**"@))
}
pub open spec fn relation(t: Seq<char>) -> bool { t == "<"@ || t == "<="@ || t == ">="@ || t == ">"@ || t == "^"@ }
pub open spec fn glued(p: Seq<char>, t: Seq<char>) -> bool { relation(p) || dotted(p) && dotted(t) }
// the last word among the first k
pub open spec fn word(a: Seq<JV>, k: int) -> Seq<char> decreases k { if k <= 0 { "pragma"@ } else if nth(a, k - 1).string() { nth(a, k - 1).chars() } else { word(a, k - 1) } }
impl St {
    pub open spec fn otok(self, b: bool, t: Seq<char>) -> St { if b { self.sp().tok(t) } else { self } }
    pub open spec fn spsub(self, n: JV, k: Seq<char>, c: Cfg) -> St { if n.has(k) { self.sp().sub(n.at(k), c) } else { self } }
    pub open spec fn label(self, n: JV, k: Seq<char>) -> St { if n.str_at(k) { self.otok(!blank(n.str(k)), n.str(k)) } else { self } }
    pub open spec fn docs(self, n: JV, c: Cfg) -> St { if n.has("documentation"@) { self.sub(n.at("documentation"@), c).nl().indent() } else { self } }
    pub open spec fn words(self, a: Seq<JV>, k: int) -> St decreases k {
        if k <= 0 { self } else if nth(a, k - 1).string() { self.words(a, k - 1).osp(!glued(word(a, k - 1), nth(a, k - 1).chars())).tok(nth(a, k - 1).chars()) } else { self.words(a, k - 1) }
    }
    // the first k parts of a file or contract, a blank line between two
    pub open spec fn apart(self, b: bool) -> St { if b { self.nl().nl() } else { self } }
    pub open spec fn members(self, a: Seq<JV>, c: Cfg, k: int) -> St decreases k {
        if k <= 0 { self } else { self.members(a, c, k - 1).apart(k > 1).indent().sub(nth(a, k - 1), c).opt(is(nth(a, k - 1), "VariableDeclaration"@), ";"@) }
    }
    pub open spec fn fields(self, a: Seq<JV>, c: Cfg, k: int) -> St decreases k { if k <= 0 { self } else { self.fields(a, c, k - 1).onl(k > 1).indent().sub(nth(a, k - 1), c).tok(";"@) } }
    // each after a space
    pub open spec fn spaced(self, a: Seq<JV>, c: Cfg, k: int) -> St decreases k { if k <= 0 { self } else { self.spaced(a, c, k - 1).sp().sub(nth(a, k - 1), c) } }
    // each on a new line
    pub open spec fn under(self, a: Seq<JV>, c: Cfg, k: int) -> St decreases k { if k <= 0 { self } else { self.under(a, c, k - 1).nl().indent().sub(nth(a, k - 1), c) } }
    // parts of a tuple, some of which may be missing
    pub open spec fn comma(self, b: bool, n: JV) -> St { if b { self.tok(","@).osp(!n.null()) } else { self } }
    pub open spec fn tuple(self, a: Seq<JV>, c: Cfg, k: int) -> St decreases k { if k <= 0 { self } else { self.tuple(a, c, k - 1).comma(k > 1, nth(a, k - 1)).sub(nth(a, k - 1), c) } }
    pub open spec fn results(self, n: JV, k: Seq<char>, c: Cfg) -> St {
        if n.has(k) && some(n.at(k), "parameters"@) { self.sp().tok("returns"@).sp().sub(n.at(k), c) } else { self }
    }
    pub open spec fn returns(self, n: JV, c: Cfg) -> St { self.results(n, "returnParameters"@, c) }
    pub open spec fn block(self, n: JV, c: Cfg, single: bool) -> St {
        if some(n, "statements"@) {
            let a = n.arr("statements"@);
            if count(a) == 1 && single { self.sp().sub(nth(a, 0), c).sp() } else { self.inc().nl().lines(a, c, count(a)).dec().nl().indent() }
        } else { self }
    }
    pub open spec fn operand(self, n: JV, m: JV, c: Cfg, left: bool) -> St { self.opt(parted(n, m, left), "("@).sub(m, c).opt(parted(n, m, left), ")"@) }
    pub open spec fn ooperand(self, n: JV, k: Seq<char>, c: Cfg, left: bool) -> St { if n.has(k) { self.operand(n, n.at(k), c, left) } else { self } }
    pub open spec fn operator(self, n: JV) -> St { if n.str_at("operator"@) { self.sp().tok(n.str("operator"@)).sp() } else { self } }
    pub open spec fn hexlit(self, n: JV) -> St { if n.str_at("hexValue"@) { self.tok("hex"@).quoted(n.str("hexValue"@)) } else { self } }
    pub open spec fn named(self, a: Seq<JV>, v: Seq<JV>, c: Cfg, k: int) -> St decreases k {
        if k <= 0 { self } else { self.named(a, v, c, k - 1).opt(k > 1, ","@).nl().indent().tok(nth(a, k - 1).chars()).tok(":"@).sp().sub(nth(v, k - 1), c) }
    }
    pub open spec fn options(self, a: Seq<JV>, v: Seq<JV>, c: Cfg, k: int) -> St decreases k {
        if k <= 0 { self } else { self.options(a, v, c, k - 1).gap(k > 1).tok(nth(a, k - 1).chars()).tok(":"@).sp().sub(nth(v, k - 1), c) }
    }
    // a body that is no block stands on a line of its own
    pub open spec fn below(self, n: JV, c: Cfg) -> St { self.nl().inc().indent().sub(n, c).dec() }
    pub open spec fn oas(self, b: bool, t: Seq<char>) -> St { if b { self.sp().tok("as"@).sp().tok(t) } else { self } }
    pub open spec fn alias(self, n: JV, c: Cfg) -> St { let s = self.osub(n, "foreign"@, c); if n.str_at("local"@) { s.oas(true, n.str("local"@)) } else { s } }
    pub open spec fn aliases(self, a: Seq<JV>, c: Cfg, k: int) -> St decreases k { if k <= 0 { self } else { self.aliases(a, c, k - 1).gap(k > 1).alias(nth(a, k - 1), c) } }
    pub open spec fn using(self, n: JV) -> St {
        let s = if n.has("function"@) { self.ostr(n.at("function"@), "name"@) } else { self };
        let t = if n.has("definition"@) { s.ostr(n.at("definition"@), "name"@) } else { s };
        if n.str_at("operator"@) { t.oas(true, n.str("operator"@)) } else { t }
    }
    pub open spec fn next(self, b: bool) -> St { if b { self.tok(","@).nl().indent() } else { self } }
    pub open spec fn usings(self, a: Seq<JV>, k: int) -> St decreases k { if k <= 0 { self } else { self.usings(a, k - 1).next(k > 1).using(nth(a, k - 1)) } }
    pub open spec fn doclines(self, t: Seq<char>, k: int) -> St decreases k { if k <= 0 { self } else { self.doclines(t, k - 1).nl().indent().sp().tok("*"@).sp().flow(part(t, k - 1), " *   "@) } }
    pub open spec fn oquoted(self, n: JV) -> St { if n.string() { self.quoted(esc(n.chars())) } else { self } }
    pub open spec fn flags(self, a: Seq<JV>, k: int) -> St decreases k { if k <= 0 { self } else { self.flags(a, k - 1).gap(k > 1).oquoted(nth(a, k - 1)) } }
    pub open spec fn values(self, a: Seq<JV>, c: Cfg, k: int) -> St decreases k { if k <= 0 { self } else { self.values(a, c, k - 1).gap(k > 1).nl().indent().sub(nth(a, k - 1), c) } }
    pub open spec fn clause(self, n: JV, c: Cfg, first: bool) -> St {
        let s = if !first { self.tok("catch"@).sp() } else if n.has("parameters"@) { self.tok("returns"@).sp() } else { self };
        s.sub(n, c).sp()
    }
    pub open spec fn clauses(self, a: Seq<JV>, c: Cfg, k: int) -> St decreases k { if k <= 0 { self } else { self.clauses(a, c, k - 1).clause(nth(a, k - 1), c, k <= 1) } }
    pub open spec fn place(self, n: JV, k: Seq<char>, c: Cfg) -> St { if n.has(k) { self.nl().indent().sub(n.at(k), c) } else { self } }
}
pub open spec fn s_source_e(s: St, n: JV, c: Cfg) -> St { if n.str_at("license"@) { s.tok("//"@).sp().tok("SPDX-License-Identifier"@).tok(":"@).sp().tok(n.str("license"@)).nl() } else { s } }
pub open spec fn s_source(s: St, n: JV, c: Cfg) -> St { if n.arr_at("nodes"@) { s.members(n.arr("nodes"@), c, count(n.arr("nodes"@))).nl() } else { s } }
pub open spec fn s_source_x(s: St, n: JV, c: Cfg) -> St { s.nl() }
pub open spec fn s_pragma(s: St, n: JV, c: Cfg) -> St { if n.arr_at("literals"@) { s.tok("pragma"@).words(n.arr("literals"@), count(n.arr("literals"@))).tok(";"@) } else { s } }
pub open spec fn s_contract_e(s: St, n: JV, c: Cfg) -> St {
    let a = s.docs(n, c);
    let b = if flag(n, "abstract"@) { a.tok("abstract"@).sp() } else { a };
    let d = if n.str_at("contractKind"@) { b.tok(n.str("contractKind"@)) } else { b.tok("contract"@) };
    let e = d.sp().ostr(n, "name"@);
    if some(n, "baseContracts"@) { e.sp().tok("is"@).sp().olist(n, "baseContracts"@, c) } else { e }
}
pub open spec fn s_contract(s: St, n: JV, c: Cfg) -> St {
    let a = s.sp().tok("{"@);
    let b = if some(n, "nodes"@) { a.inc().nl().members(n.arr("nodes"@), c, count(n.arr("nodes"@))).nl().dec().indent() } else { a };
    b.tok("}"@)
}
pub open spec fn s_struct(s: St, n: JV, c: Cfg) -> St {
    let a = s.docs(n, c).tok("struct"@).sp().ostr(n, "name"@).sp().tok("{"@).nl().inc();
    if n.arr_at("members"@) { a.fields(n.arr("members"@), c, count(n.arr("members"@))) } else { a }
}
pub open spec fn s_struct_x(s: St, n: JV, c: Cfg) -> St { s.dec().nl().indent().tok("}"@) }
pub open spec fn s_elementary(s: St, n: JV, c: Cfg) -> St { s.ostr(n, "name"@).otok(n.is_str("stateMutability"@, "payable"@), "payable"@) }
pub open spec fn s_mapping(s: St, n: JV, c: Cfg) -> St { s.tok("mapping"@).tok("("@).osub(n, "keyType"@, c).label(n, "keyName"@).sp().tok("=>"@).sp().osub(n, "valueType"@, c).label(n, "valueName"@).tok(")"@) }
pub open spec fn s_usertype(s: St, n: JV, c: Cfg) -> St { if n.has("pathNode"@) { s.ostr(n.at("pathNode"@), "name"@) } else { s.ostr(n, "name"@) } }
pub open spec fn s_variable(s: St, n: JV, c: Cfg) -> St {
    let a = s.docs(n, c).osub(n, "typeName"@, c);
    let b = if n.str_at("visibility"@) { a.otok(!n.is_str("visibility"@, "internal"@), n.str("visibility"@)) } else { a };
    b.otok(flag(n, "constant"@), "constant"@).otok(flag(n, "indexed"@), "indexed"@).spsub(n, "overrides"@, c).otok(n.is_str("mutability"@, "immutable"@), "immutable"@)
}
pub open spec fn s_variable_x(s: St, n: JV, c: Cfg) -> St {
    let a = s.otok(n.is_str("storageLocation"@, "memory"@), "memory"@).otok(n.is_str("storageLocation"@, "storage"@), "storage"@).otok(n.is_str("storageLocation"@, "calldata"@), "calldata"@);
    let b = if n.str_at("name"@) { a.otok(!blank(n.str("name"@)), n.str("name"@)) } else { a };
    if n.has("value"@) { b.sp().tok("="@).sp().sub(n.at("value"@), c) } else { b }
}
pub open spec fn s_function_e(s: St, n: JV, c: Cfg) -> St {
    let a = s.docs(n, c);
    if n.is_str("kind"@, "function"@) || n.is_str("kind"@, "freeFunction"@) { a.tok("function"@).sp().ostr(n, "name"@) }
    else { a.opt(n.is_str("kind"@, "constructor"@), "constructor"@).opt(n.is_str("kind"@, "receive"@), "receive"@).opt(n.is_str("kind"@, "fallback"@), "fallback"@) }
}
pub open spec fn s_function(s: St, n: JV, c: Cfg, nonpay: bool) -> St {
    let a = s.osub(n, "parameters"@, c);
    let b = if n.str_at("visibility"@) { a.otok(!n.is_str("kind"@, "freeFunction"@), n.str("visibility"@)) } else { a };
    let d = b.otok(flag(n, "virtual"@), "virtual"@);
    let e = if n.str_at("stateMutability"@) { d.otok(nonpay || !n.is_str("stateMutability"@, "nonpayable"@), n.str("stateMutability"@)) } else { d };
    let f = e.spsub(n, "overrides"@, c);
    let g = if n.arr_at("modifiers"@) { f.spaced(n.arr("modifiers"@), c, count(n.arr("modifiers"@))) } else { f };
    g.returns(n, c).spsub(n, "body"@, c).opt(n.bool_at("implemented"@) && !n.bool("implemented"@), ";"@)
}
pub open spec fn s_open(s: St, n: JV, c: Cfg) -> St { s.tok("("@) }
pub open spec fn s_parameters(s: St, n: JV, c: Cfg) -> St { s.olist(n, "parameters"@, c) }
pub open spec fn s_close(s: St, n: JV, c: Cfg) -> St { s.tok(")"@) }
pub open spec fn s_block_e(s: St, n: JV, c: Cfg) -> St { let a = if is(n, "UncheckedBlock"@) { s.tok("unchecked"@).sp() } else { s }; a.tok("{"@) }
pub open spec fn s_block(s: St, n: JV, c: Cfg, single: bool) -> St { s.block(n, c, single) }
pub open spec fn s_block_x(s: St, n: JV, c: Cfg) -> St { s.tok("}"@) }
pub open spec fn s_declare(s: St, n: JV, c: Cfg) -> St {
    let a = if n.arr_at("declarations"@) { let d = n.arr("declarations"@); s.opt(count(d) > 1, "("@).tuple(d, c, count(d)).opt(count(d) > 1, ")"@) } else { s };
    let b = if n.has("initialValue"@) { a.sp().tok("="@).sp().sub(n.at("initialValue"@), c) } else { a };
    b.tok(";"@)
}
pub open spec fn s_binary(s: St, n: JV, c: Cfg) -> St { s.ooperand(n, "leftExpression"@, c, true).operator(n).ooperand(n, "rightExpression"@, c, false) }
pub open spec fn s_literal(s: St, n: JV, c: Cfg) -> St {
    let a = if n.str_at("value"@) {
        if n.is_str("kind"@, "string"@) { s.quoted(esc(n.str("value"@))) }
        else if n.is_str("kind"@, "hexString"@) { s.hexlit(n) }
        else if n.is_str("kind"@, "unicodeString"@) { s.tok("unicode"@).quoted(esc(n.str("value"@))) }
        else { s.tok(n.str("value"@)) }
    } else { s.hexlit(n) };
    if n.str_at("subdenomination"@) { a.sp().tok(n.str("subdenomination"@)) } else { a }
}
pub open spec fn s_expression(s: St, n: JV, c: Cfg) -> St { s.osub(n, "expression"@, c) }
pub open spec fn s_semicolon(s: St, n: JV, c: Cfg, semi: bool) -> St { s.opt(semi, ";"@) }
pub open spec fn s_assignment(s: St, n: JV, c: Cfg) -> St { s.osub(n, "leftHandSide"@, c).operator(n).osub(n, "rightHandSide"@, c) }
pub open spec fn s_name(s: St, n: JV, c: Cfg) -> St { s.ostr(n, "name"@) }
pub open spec fn s_call_e(s: St, n: JV, c: Cfg) -> St { if n.has("expression"@) { s.sub(n.at("expression"@), c).tok("("@) } else { s } }
pub open spec fn s_call(s: St, n: JV, c: Cfg) -> St {
    if some(n, "names"@) {
        if n.arr_at("arguments"@) { s.tok("{"@).inc().named(n.arr("names"@), n.arr("arguments"@), c, count(n.arr("names"@))).dec().nl().indent().tok("}"@) } else { s }
    } else { s.olist(n, "arguments"@, c) }
}
pub open spec fn s_unary(s: St, n: JV, c: Cfg) -> St {
    if n.bool_at("prefix"@) {
        if n.bool("prefix"@) {
            let a = if n.str_at("operator"@) { s.tok(n.str("operator"@)).osp(n.is_str("operator"@, "delete"@) || n.has("subExpression"@) && flag(n.at("subExpression"@), "prefix"@)) } else { s };
            a.osub(n, "subExpression"@, c)
        } else { s.osub(n, "subExpression"@, c).ostr(n, "operator"@) }
    } else { s }
}
pub open spec fn s_member(s: St, n: JV, c: Cfg) -> St { s.osub(n, "expression"@, c).tok("."@).ostr(n, "memberName"@) }
pub open spec fn s_index(s: St, n: JV, c: Cfg) -> St { s.osub(n, "baseExpression"@, c).tok("["@).osub(n, "indexExpression"@, c).tok("]"@) }
pub open spec fn s_range(s: St, n: JV, c: Cfg) -> St { s.osub(n, "baseExpression"@, c).tok("["@).osub(n, "startExpression"@, c).tok(":"@).osub(n, "endExpression"@, c).tok("]"@) }
pub open spec fn s_if(s: St, n: JV, c: Cfg) -> St {
    let a = s.tok("if"@).tok("("@).osub(n, "condition"@, c).tok(")"@).sp();
    let b = if n.has("trueBody"@) && n.at("trueBody"@).str_at("nodeType"@) { if is(n.at("trueBody"@), "Block"@) { a.sub(n.at("trueBody"@), c) } else { a.below(n.at("trueBody"@), c) } } else { a };
    if n.has("falseBody"@) && n.at("falseBody"@).str_at("nodeType"@) {
        if is(n.at("falseBody"@), "Block"@) { b.sp().tok("else"@).sp().sub(n.at("falseBody"@), c) } else { b.nl().indent().tok("else"@).below(n.at("falseBody"@), c) }
    } else { b }
}
pub open spec fn s_import_e(s: St, n: JV, c: Cfg) -> St { s.tok("import"@) }
pub open spec fn s_import(s: St, n: JV, c: Cfg) -> St {
    let a = if some(n, "symbolAliases"@) { s.sp().tok("{"@).aliases(n.arr("symbolAliases"@), c, count(n.arr("symbolAliases"@))).tok("}"@).sp().tok("from"@).sp() } else { s.sp() };
    let b = if n.str_at("file"@) { a.quoted(n.str("file"@)) } else { a };
    let d = if n.str_at("unitAlias"@) { b.oas(!blank(n.str("unitAlias"@)), n.str("unitAlias"@)) } else { b };
    d.tok(";"@)
}
pub open spec fn s_inherit(s: St, n: JV, c: Cfg) -> St { let a = s.osub(n, "baseName"@, c); if n.arr_at("arguments"@) { a.tok("("@).olist(n, "arguments"@, c).tok(")"@) } else { a } }
pub open spec fn s_invoke(s: St, n: JV, c: Cfg) -> St { let a = s.osub(n, "modifierName"@, c); if n.arr_at("arguments"@) { a.tok("("@).olist(n, "arguments"@, c).tok(")"@) } else { a } }
pub open spec fn s_using(s: St, n: JV, c: Cfg) -> St {
    let a = s.tok("using"@).spsub(n, "libraryName"@, c);
    let b = if some(n, "functionList"@) { a.sp().tok("{"@).inc().nl().indent().usings(n.arr("functionList"@), count(n.arr("functionList"@))).nl().dec().indent().tok("}"@) } else { a };
    let d = b.sp().tok("for"@).sp();
    let e = if n.has("typeName"@) { d.sub(n.at("typeName"@), c) } else { d.tok("*"@) };
    e.otok(flag(n, "global"@), "global"@).tok(";"@)
}
pub open spec fn s_modifier_e(s: St, n: JV, c: Cfg) -> St { s.docs(n, c).tok("modifier"@).sp().ostr(n, "name"@).osub(n, "parameters"@, c) }
pub open spec fn s_modifier(s: St, n: JV, c: Cfg) -> St {
    let a = s.otok(flag(n, "virtual"@), "virtual"@).spsub(n, "overrides"@, c);
    if n.has("body"@) { a.sp().sub(n.at("body"@), c) } else { a.tok(";"@) }
}
pub open spec fn s_doc_e(s: St, n: JV, c: Cfg) -> St { s.tok("/**"@) }
pub open spec fn s_doc(s: St, n: JV, c: Cfg) -> St { if n.str_at("text"@) { s.doclines(n.str("text"@), nparts(n.str("text"@))) } else { s } }
pub open spec fn s_doc_x(s: St, n: JV, c: Cfg) -> St { s.nl().indent().sp().tok("*/"@) }
pub open spec fn s_placeholder(s: St, n: JV, c: Cfg) -> St { s.tok("_"@).tok(";"@) }
pub open spec fn s_return(s: St, n: JV, c: Cfg) -> St { s.tok("return"@).spsub(n, "expression"@, c).tok(";"@) }
pub open spec fn s_emit(s: St, n: JV, c: Cfg) -> St { if n.has("eventCall"@) { s.tok("emit"@).sp().sub(n.at("eventCall"@), c).tok(";"@) } else { s } }
pub open spec fn s_override(s: St, n: JV, c: Cfg) -> St { let a = s.tok("override"@); if some(n, "overrides"@) { a.tok("("@).olist(n, "overrides"@, c).tok(")"@) } else { a } }
pub open spec fn s_typeexpr(s: St, n: JV, c: Cfg) -> St {
    if flag(n, "isPure"@) && n.has("typeName"@) {
        if n.at("typeName"@).str_at("stateMutability"@) { s.tok(n.at("typeName"@).str("stateMutability"@)) } else { s.sub(n.at("typeName"@), c) }
    } else { s }
}
pub open spec fn s_tuple(s: St, n: JV, c: Cfg) -> St {
    if n.arr_at("components"@) {
        let a = n.arr("components"@);
        if flag(n, "isInlineArray"@) { s.tok("["@).tuple(a, c, count(a)).tok("]"@) } else { s.tok("("@).tuple(a, c, count(a)).tok(")"@) }
    } else { s }
}
pub open spec fn s_comment(s: St, n: JV, c: Cfg) -> St {
    let a = s.tok("//"@).sp();
    let b = if n.str_at("text"@) && !blank(n.str("text"@)) { a.flow(n.str("text"@), "// "@) } else { a };
    if n.has("value"@) { b.flow(ptext(n.at("value"@), c), "// "@) } else { b }
}
pub open spec fn s_error(s: St, n: JV, c: Cfg) -> St { s.docs(n, c).tok("error"@).sp().ostr(n, "name"@).osub(n, "parameters"@, c).tok(";"@) }
pub open spec fn s_for(s: St, n: JV, c: Cfg) -> St {
    let a = s.tok("for("@);
    let b = if n.has("initializationExpression"@) { a.sub(n.at("initializationExpression"@), c) } else { a.tok(";"@) };
    let d = b.spsub(n, "condition"@, c).tok(";"@).spsub(n, "loopExpression"@, c.semis(false)).tok(")"@);
    if n.has("body"@) && n.at("body"@).str_at("nodeType"@) { if is(n.at("body"@), "Block"@) { d.sp().sub(n.at("body"@), c) } else { d.below(n.at("body"@), c) } } else { d }
}
pub open spec fn s_array(s: St, n: JV, c: Cfg) -> St { s.osub(n, "baseType"@, c).tok("["@).osub(n, "length"@, c).tok("]"@) }
pub open spec fn s_assembly_e(s: St, n: JV, c: Cfg) -> St { if n.str_at("documentation"@) { s.tok("///"@).sp().flow(n.str("documentation"@), "/// "@).nl().indent() } else { s } }
pub open spec fn s_assembly(s: St, n: JV, c: Cfg) -> St {
    let a = s.tok("assembly"@).sp();
    let b = if some(n, "flags"@) { a.tok("("@).flags(n.arr("flags"@), count(n.arr("flags"@))).tok(")"@).sp() } else { a };
    b.osub(n, "AST"@, c)
}
pub open spec fn s_let(s: St, n: JV, c: Cfg) -> St { let a = s.tok("let"@).sp().olist(n, "variables"@, c); if n.has("value"@) { a.sp().tok(":="@).sp().sub(n.at("value"@), c) } else { a } }
pub open spec fn s_yulcall(s: St, n: JV, c: Cfg) -> St { s.osub(n, "functionName"@, c).tok("("@).olist(n, "arguments"@, c).tok(")"@) }
pub open spec fn s_yulassign(s: St, n: JV, c: Cfg) -> St { let a = if n.arr_at("variableNames"@) { s.olist(n, "variableNames"@, c).sp() } else { s }; a.tok(":="@).sp().osub(n, "value"@, c) }
pub open spec fn s_yulliteral(s: St, n: JV, c: Cfg) -> St {
    if n.is_str("kind"@, "number"@) || n.is_str("kind"@, "bool"@) { s.ostr(n, "value"@) }
    else if n.is_str("kind"@, "string"@) { if n.str_at("value"@) { s.quoted(esc(n.str("value"@))) } else { s.hexlit(n) } }
    else { s }
}
pub open spec fn s_yulfor(s: St, n: JV, c: Cfg) -> St { s.tok("for"@).inc().place(n, "pre"@, c.singles(true)).place(n, "condition"@, c).place(n, "post"@, c.singles(true)).dec().nl().indent().osub(n, "body"@, c) }
pub open spec fn s_functype(s: St, n: JV, c: Cfg) -> St {
    let a = s.tok("function"@).osub(n, "parameterTypes"@, c).otok(n.is_str("visibility"@, "external"@), "external"@);
    let b = if n.str_at("stateMutability"@) { a.otok(!n.is_str("stateMutability"@, "nonpayable"@), n.str("stateMutability"@)) } else { a };
    b.results(n, "returnParameterTypes"@, c)
}
pub open spec fn s_event(s: St, n: JV, c: Cfg) -> St { s.docs(n, c).tok("event"@).sp().ostr(n, "name"@).osub(n, "parameters"@, c).otok(flag(n, "anonymous"@), "anonymous"@).tok(";"@) }
pub open spec fn s_revert(s: St, n: JV, c: Cfg) -> St { s.tok("revert"@).sp().osub(n, "errorCall"@, c).tok(";"@) }
pub open spec fn s_enum(s: St, n: JV, c: Cfg) -> St {
    let a = s.docs(n, c).tok("enum"@).sp().ostr(n, "name"@);
    if some(n, "members"@) { a.sp().tok("{"@).inc().values(n.arr("members"@), c, count(n.arr("members"@))).dec().nl().indent().tok("}"@) } else { a }
}
pub open spec fn s_valuetype(s: St, n: JV, c: Cfg) -> St { s.tok("type"@).sp().ostr(n, "name"@).sp().tok("is"@).sp().osub(n, "underlyingType"@, c).tok(";"@) }
pub open spec fn s_new(s: St, n: JV, c: Cfg) -> St { s.tok("new"@).spsub(n, "typeName"@, c) }
pub open spec fn s_conditional(s: St, n: JV, c: Cfg) -> St { s.osub(n, "condition"@, c).sp().tok("?"@).sp().osub(n, "trueExpression"@, c).sp().tok(":"@).sp().osub(n, "falseExpression"@, c) }
pub open spec fn s_options(s: St, n: JV, c: Cfg) -> St {
    let a = s.osub(n, "expression"@, c);
    if some(n, "names"@) && n.arr_at("options"@) { a.tok("{"@).options(n.arr("names"@), n.arr("options"@), c, count(n.arr("names"@))).tok("}"@) } else { a }
}
pub open spec fn s_try(s: St, n: JV, c: Cfg) -> St {
    let a = s.tok("try"@).sp();
    let b = if n.has("externalCall"@) { a.sub(n.at("externalCall"@), c).sp() } else { a };
    if n.arr_at("clauses"@) { b.clauses(n.arr("clauses"@), c, count(n.arr("clauses"@))) } else { b }
}
pub open spec fn s_clause(s: St, n: JV, c: Cfg) -> St {
    let a = if n.str_at("errorName"@) { s.opt(!blank(n.str("errorName"@)), n.str("errorName"@)) } else { s };
    let b = if n.has("parameters"@) { a.sub(n.at("parameters"@), c).sp() } else { a };
    b.osub(n, "block"@, c)
}
pub open spec fn s_while(s: St, n: JV, c: Cfg) -> St {
    let a = s.tok("while"@).sp();
    let b = if n.has("condition"@) { a.tok("("@).sub(n.at("condition"@), c).tok(")"@) } else { a };
    b.spsub(n, "body"@, c)
}
pub open spec fn s_do(s: St, n: JV, c: Cfg) -> St {
    let a = s.tok("do"@).spsub(n, "body"@, c);
    let b = if n.has("condition"@) { a.sp().tok("while"@).sp().tok("("@).sub(n.at("condition"@), c).tok(")"@) } else { a };
    b.tok(";"@)
}
pub open spec fn s_continue(s: St, n: JV, c: Cfg) -> St { s.tok("continue"@).tok(";"@) }
pub open spec fn s_break(s: St, n: JV, c: Cfg) -> St { s.tok("break"@).tok(";"@) }
pub open spec fn s_yulif(s: St, n: JV, c: Cfg) -> St { s.tok("if"@).sp().osub(n, "condition"@, c).spsub(n, "body"@, c) }
pub open spec fn s_switch(s: St, n: JV, c: Cfg) -> St {
    let a = s.tok("switch"@).sp();
    let b = if n.has("expression"@) { a.sub(n.at("expression"@), c).sp() } else { a };
    if some(n, "cases"@) { b.inc().under(n.arr("cases"@), c, count(n.arr("cases"@))).dec() } else { b }
}
pub open spec fn s_case(s: St, n: JV, c: Cfg) -> St {
    let a = if n.has("value"@) && n.at("value"@).object() { s.tok("case"@).sp().sub(n.at("value"@), c).sp() } else if n.is_str("value"@, "default"@) { s.tok("default"@).sp() } else { s };
    a.osub(n, "body"@, c)
}
pub open spec fn s_yulfunction(s: St, n: JV, c: Cfg) -> St {
    let a = s.tok("function"@).sp().ostr(n, "name"@).tok("("@).olist(n, "parameters"@, c).tok(")"@).sp();
    let b = if some(n, "returnVariables"@) { a.tok("->"@).sp().olist(n, "returnVariables"@, c).sp() } else { a };
    b.osub(n, "body"@, c)
}
pub open spec fn s_yulbreak(s: St, n: JV, c: Cfg) -> St { s.tok("break"@) }
pub open spec fn s_yulcontinue(s: St, n: JV, c: Cfg) -> St { s.tok("continue"@) }
pub open spec fn s_leave(s: St, n: JV, c: Cfg) -> St { s.tok("leave"@) }
// TWIN END
