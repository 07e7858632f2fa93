// ---- the standard output: takes what it is given (assumption); what a stream was given is on the screen when the stream is done with ----
#[verifier::external_body]
pub struct Stdout { _p: u8 }
impl Stdout { pub uninterp spec fn text(&self) -> Seq<char>; pub uninterp spec fn good(&self) -> bool; }
pub uninterp spec fn on_screen(s: Seq<char>) -> bool;
#[verifier::external_body]
pub fn stdout() -> (r: Stdout) ensures r.text() == Seq::<char>::empty(), r.good() { unimplemented!() }
pub axiom fn ax_screen(w: &Stdout) ensures w.good() ==> on_screen(w.text());
// ---- the state of printing, and one function on it per printing primitive ----
// The primitives are uninterpreted here: pp_st.vrs defines them and the unit pp proves that the functions of pretty_printer.rs compute them.
pub ghost struct St { pub out: Seq<char>, pub row: int, pub col: int, pub ind: int, pub tab: int, pub page: int, pub max: int, pub nls: Seq<char> }
pub open spec fn st(p: PrettyPrinter, w: &Stdout) -> St {
    St { out: w.text(), row: p.row as int, col: p.column as int, ind: p.indent as int, tab: p.tab_width as int, page: p.page_width as int, max: p.max_indent as int, nls: p.newline@ }
}
pub uninterp spec fn pwf(p: PrettyPrinter) -> bool;
pub uninterp spec fn blen(s: Seq<char>) -> int;
pub uninterp spec fn spaces(n: int) -> Seq<char>;
impl St {
    pub uninterp spec fn raw(self, s: Seq<char>) -> St;
    pub uninterp spec fn nl(self) -> St;
    pub uninterp spec fn indent(self) -> St;
    pub uninterp spec fn sp(self) -> St;
    pub uninterp spec fn tok(self, s: Seq<char>) -> St;
    pub uninterp spec fn sps(self, n: nat) -> St;
    pub uninterp spec fn toks(self, s: Seq<char>, n: nat) -> St;
    pub uninterp spec fn quoted(self, s: Seq<char>) -> St;
    pub uninterp spec fn quoted3(self, s: Seq<char>) -> St;
    // flowable text: a function of the state, the text and the leader (C15 says which)
    pub uninterp spec fn flow(self, s: Seq<char>, next: Seq<char>) -> St;
    pub open spec fn inc(self) -> St { St { ind: if self.ind >= self.max { self.max } else { self.ind + 1 }, ..self } }
    pub open spec fn dec(self) -> St { St { ind: if self.ind <= 0 { 0 } else { self.ind - 1 }, ..self } }
}
// printing into an accepting stream left state s, and the printer's settings as they were
pub open spec fn did(p: PrettyPrinter, w: &Stdout, p2: PrettyPrinter, w2: &Stdout, s: St) -> bool {
    w2.good() == w.good() && pwf(p2) && p2.indent == p.indent && p2.tab_width == p.tab_width && p2.page_width == p.page_width && p2.max_indent == p.max_indent && p2.newline@ == p.newline@ && (w.good() ==> st(p2, w2) == s)
}
