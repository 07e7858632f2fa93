// ---- where printed text goes ----
pub trait Write {
    spec fn text(&self) -> Seq<char>;
    // the stream accepts everything written to it
    spec fn good(&self) -> bool;
    fn vx_write(&mut self, s: &str) -> (r: Result<(), Foreign>)
        ensures final(self).good() == old(self).good(), old(self).good() ==> r is Ok, r is Ok ==> final(self).text() == old(self).text() + s@;
}
// ---- the state of printing: the text so far and the printer's position and settings ----
pub ghost struct St { pub out: Seq<char>, pub row: int, pub col: int, pub ind: int, pub tab: int, pub page: int, pub max: int, pub nls: Seq<char> }
pub open spec fn st(p: PrettyPrinter, w: &dyn Write) -> St {
    St { out: w.text(), row: p.row as int, col: p.column as int, ind: p.indent as int, tab: p.tab_width as int, page: p.page_width as int, max: p.max_indent as int, nls: p.newline@ }
}
pub open spec fn spaces(n: int) -> Seq<char> { Seq::new(if n < 0 { 0nat } else { n as nat }, |i: int| ' ') }
// the layout settings are ones PrettyPrinter::new makes
pub open spec fn pwf(p: PrettyPrinter) -> bool {
    p.page_width >= 1 && p.indent <= p.max_indent && (p.max_indent * p.tab_width == 0 || p.max_indent * p.tab_width + p.tab_width <= p.page_width)
}
impl St {
    pub open spec fn indlen(self) -> int { self.ind * self.tab }
    pub open spec fn raw(self, s: Seq<char>) -> St { St { out: self.out + s, col: self.col + blen(s), ..self } }
    pub open spec fn nl(self) -> St { St { out: self.out + self.nls, row: self.row + 1, col: 1, ..self } }
    pub open spec fn indent(self) -> St { self.raw(spaces(self.indlen())) }
    pub open spec fn inc(self) -> St { St { ind: if self.ind >= self.max { self.max } else { self.ind + 1 }, ..self } }
    pub open spec fn dec(self) -> St { St { ind: if self.ind <= 0 { 0 } else { self.ind - 1 }, ..self } }
    pub open spec fn sp(self) -> St { if self.col == self.page { self.nl().indent().raw(" "@) } else { self.raw(" "@) } }
    pub open spec fn tok(self, s: Seq<char>) -> St {
        let a = if self.col > self.page { self.nl() } else { self };
        if blen(s) > a.page { if a.col > a.indlen() { a.nl().indent().raw(s) } else { a.raw(s) } }
        else if blen(s) > a.page - a.col { a.nl().indent().raw(s) }
        else { a.raw(s) }
    }
    pub open spec fn sps(self, n: nat) -> St decreases n { if n == 0 { self } else { self.sps((n - 1) as nat).sp() } }
    pub open spec fn toks(self, s: Seq<char>, n: nat) -> St decreases n { if n == 0 { self } else { self.toks(s, (n - 1) as nat).tok(s) } }
    pub open spec fn quoted(self, s: Seq<char>) -> St { self.tok("\""@ + s + "\""@) }
    pub open spec fn quoted3(self, s: Seq<char>) -> St { self.tok("\"\"\""@ + s + "\"\"\""@) }
}
