// ---- spelling: steps shared by both languages ---- (tools/twin.py makes the harness's executable version of this text)
impl JV {
    pub open spec fn null(self) -> bool { self is Null }
    pub open spec fn object(self) -> bool { self is Obj }
    pub open spec fn boolean(self) -> bool { self is Bool }
    pub open spec fn string(self) -> bool { self is Str }
    pub open spec fn truth(self) -> bool { self->Bool_0 }
    pub open spec fn chars(self) -> Seq<char> { self->Str_0 }
}
pub open spec fn nth(a: Seq<JV>, i: int) -> JV { a[i] }
pub open spec fn count(a: Seq<JV>) -> int { a.len() as int }
pub open spec fn has_nl(t: Seq<char>) -> bool { t.contains('\n') }
pub open spec fn flag(n: JV, k: Seq<char>) -> bool { n.bool_at(k) && n.bool(k) }
pub open spec fn live(n: JV, k: Seq<char>) -> bool { n.has(k) && !n.at(k).null() }
pub open spec fn some(n: JV, k: Seq<char>) -> bool { n.arr_at(k) && count(n.arr(k)) > 0 }
pub open spec fn one(b: bool) -> int { if b { 1 } else { 0 } }
// TWIN BEGIN
impl St {
    // a node, printed as its kind demands
    pub open spec fn sub(self, n: JV, c: Cfg) -> St { pr(self, n, c) }
    pub open spec fn opt(self, b: bool, t: Seq<char>) -> St { if b { self.tok(t) } else { self } }
    pub open spec fn osp(self, b: bool) -> St { if b { self.sp() } else { self } }
    pub open spec fn onl(self, b: bool) -> St { if b { self.nl() } else { self } }
    pub open spec fn oind(self, b: bool) -> St { if b { self.indent() } else { self } }
    pub open spec fn rep(self, t: Seq<char>, k: int) -> St decreases k { if k <= 0 { self } else { self.rep(t, k - 1).tok(t) } }
    pub open spec fn gap(self, b: bool) -> St { if b { self.tok(","@).sp() } else { self } }
    // the node, text or list under a key, where there is one
    pub open spec fn osub(self, n: JV, k: Seq<char>, c: Cfg) -> St { if n.has(k) { self.sub(n.at(k), c) } else { self } }
    pub open spec fn nsub(self, n: JV, k: Seq<char>, c: Cfg) -> St { if live(n, k) { self.sub(n.at(k), c) } else { self } }
    pub open spec fn ostr(self, n: JV, k: Seq<char>) -> St { if n.str_at(k) { self.tok(n.str(k)) } else { self } }
    // the first k elements, separated by commas
    pub open spec fn list(self, a: Seq<JV>, c: Cfg, k: int) -> St decreases k { if k <= 0 { self } else { self.list(a, c, k - 1).gap(k > 1).sub(nth(a, k - 1), c) } }
    pub open spec fn olist(self, n: JV, k: Seq<char>, c: Cfg) -> St { if n.arr_at(k) { self.list(n.arr(k), c, count(n.arr(k))) } else { self } }
    // the first k elements, each on a line of its own
    pub open spec fn lines(self, a: Seq<JV>, c: Cfg, k: int) -> St decreases k { if k <= 0 { self } else { self.lines(a, c, k - 1).onl(k > 1).indent().sub(nth(a, k - 1), c) } }
    pub open spec fn olines(self, n: JV, k: Seq<char>, c: Cfg) -> St { if n.arr_at(k) { self.lines(n.arr(k), c, count(n.arr(k))) } else { self } }
}
// TWIN END
