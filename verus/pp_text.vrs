// ---- texts as bytes (UTF-8) ----
pub uninterp spec fn enc(c: char) -> Seq<u8>;
// UTF-8: an ASCII character is its own byte, any other character is two to four bytes outside ASCII
pub broadcast axiom fn ax_enc(c: char) ensures #![trigger enc(c)] c < '\u{80}' ==> enc(c) == seq![c as u8], c >= '\u{80}' ==> 2 <= enc(c).len() <= 4 && forall|i: int| 0 <= i < enc(c).len() ==> #[trigger] enc(c)[i] >= 128;
pub open spec fn b8(s: Seq<char>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { b8(s.drop_last()) + enc(s.last()) } }
pub open spec fn blen(s: Seq<char>) -> int { b8(s).len() as int }
// the characters in front of byte n
pub open spec fn at_byte(s: Seq<char>, n: int, k: int) -> bool { 0 <= k <= s.len() && blen(s.take(k)) == n }
pub open spec fn boundary(s: Seq<char>, n: int) -> bool { exists|k: int| #[trigger] at_byte(s, n, k) }
pub open spec fn cidx(s: Seq<char>, n: int) -> int { choose|k: int| #[trigger] at_byte(s, n, k) }
pub proof fn lemma_b8_add(a: Seq<char>, b: Seq<char>) ensures b8(a + b) == b8(a) + b8(b), blen(a + b) == blen(a) + blen(b) decreases b.len()
{
    if b.len() == 0 { assert(a + b == a); assert(b8(a) + b8(b) == b8(a)); }
    else { lemma_b8_add(a, b.drop_last()); assert((a + b).drop_last() == a + b.drop_last()); assert(b8(a + b) == (b8(a) + b8(b.drop_last())) + enc(b.last())); assert(b8(a + b) == b8(a) + b8(b)); }
}
pub proof fn lemma_blen(s: Seq<char>) ensures blen(s) >= s.len(), s.len() > 0 ==> blen(s) > 0 decreases s.len()
{ broadcast use ax_enc; if s.len() > 0 { lemma_blen(s.drop_last()); assert(enc(s.last()).len() > 0); } }
pub proof fn lemma_take_blen(s: Seq<char>, i: int, j: int) requires 0 <= i <= j <= s.len() ensures blen(s.take(i)) + (j - i) <= blen(s.take(j)), blen(s.take(j)) == blen(s.take(i)) + blen(s.subrange(i, j)), blen(s) == blen(s.take(j)) + blen(s.skip(j))
{
    lemma_b8_add(s.take(i), s.subrange(i, j)); assert(s.take(i) + s.subrange(i, j) == s.take(j)); lemma_blen(s.subrange(i, j));
    lemma_b8_add(s.take(j), s.skip(j)); assert(s.take(j) + s.skip(j) == s);
}
pub proof fn lemma_cidx(s: Seq<char>, n: int, k: int) requires at_byte(s, n, k) ensures boundary(s, n), cidx(s, n) == k
{ let c = cidx(s, n); if c < k { lemma_take_blen(s, c, k); } else if k < c { lemma_take_blen(s, k, c); } }
// the byte of a character; an ASCII byte is a character of its own
pub proof fn lemma_char_byte(s: Seq<char>, k: int) requires 0 <= k < s.len()
    ensures blen(s.take(k)) < blen(s), blen(s.take(k + 1)) == blen(s.take(k)) + enc(s[k]).len(),
        s[k] < '\u{80}' ==> b8(s)[blen(s.take(k))] == s[k] as u8 && blen(s.take(k + 1)) == blen(s.take(k)) + 1,
        s[k] >= '\u{80}' ==> b8(s)[blen(s.take(k))] >= 128,
{
    broadcast use ax_enc;
    assert(s.take(k + 1).drop_last() == s.take(k)); assert(s.take(k + 1).last() == s[k]);
    lemma_b8_add(s.take(k + 1), s.skip(k + 1)); assert(s.take(k + 1) + s.skip(k + 1) == s);
    assert(b8(s)[blen(s.take(k))] == b8(s.take(k + 1))[blen(s.take(k))]);
    assert(b8(s.take(k + 1))[blen(s.take(k))] == enc(s[k])[0]);
}
pub proof fn lemma_ascii_byte(s: Seq<char>, n: int) -> (k: int) requires 0 <= n < blen(s), b8(s)[n] < 128
    ensures 0 <= k < s.len(), at_byte(s, n, k), s[k] < '\u{80}', s[k] as u8 == b8(s)[n], at_byte(s, n + 1, k + 1) decreases s.len()
{
    broadcast use ax_enc;
    let p = s.drop_last();
    if n < blen(p) {
        assert(b8(s)[n] == b8(p)[n]);
        let k = lemma_ascii_byte(p, n);
        assert(s.take(k) == p.take(k)); assert(s.take(k + 1) == p.take(k + 1));
        k
    } else {
        let k = s.len() - 1;
        assert(s.take(k) == p); assert(s.take(k + 1) == s);
        assert(b8(s)[n] == enc(s.last())[n - blen(p)]);
        if s.last() >= '\u{80}' { assert(enc(s.last())[n - blen(p)] >= 128); }
        k
    }
}
// ---- str and String methods that count bytes ----
pub trait VxPat { spec fn hit(&self, s: Seq<char>, k: int) -> bool; spec fn absent(&self, s: Seq<char>) -> bool; }
impl VxPat for char { open spec fn hit(&self, s: Seq<char>, k: int) -> bool { 0 <= k < s.len() && s[k] == *self } open spec fn absent(&self, s: Seq<char>) -> bool { !s.contains(*self) } }
impl VxPat for &str { open spec fn hit(&self, s: Seq<char>, k: int) -> bool { 0 <= k && k + self@.len() <= s.len() && s.subrange(k, k + self@.len()) == self@ } open spec fn absent(&self, s: Seq<char>) -> bool { forall|k: int| 0 <= k && k + self@.len() <= s.len() ==> #[trigger] s.subrange(k, k + self@.len()) != self@ } }
pub open spec fn found<P: VxPat>(s: Seq<char>, p: P, i: int, k: int) -> bool { p.hit(s, k) && at_byte(s, i, k) && forall|j: int| 0 <= j < k ==> !#[trigger] p.hit(s, j) }
// every character c replaced by the text t
pub open spec fn replaced(s: Seq<char>, c: char, t: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { s } else { replaced(s.drop_last(), c, t) + if s.last() == c { t } else { seq![s.last()] } } }
pub trait VxText {
    spec fn tv(&self) -> Seq<char>;
    fn vx_blen(&self) -> (r: usize) ensures r == blen(self.tv());
    fn vx_is_empty(&self) -> (r: bool) ensures r == (self.tv().len() == 0);
    fn vx_find<P: VxPat>(&self, p: P) -> (r: Option<usize>) ensures r is Some ==> exists|k: int| #[trigger] found(self.tv(), p, r->0 as int, k), r is None ==> p.absent(self.tv()), r is Some ==> r->0 <= blen(self.tv());
    fn vx_starts(&self, c: char) -> (r: bool) ensures r == (self.tv().len() > 0 && self.tv()[0] == c);
    fn vx_replace(&self, c: char, t: &str) -> (r: String) ensures r@ == replaced(self.tv(), c, t@);
    fn vx_as_bytes(&self) -> (r: &[u8]) ensures r@ == b8(self.tv());
}
macro_rules! vx_text { ($t:ty) => { verus! {
impl VxText for $t {
    open spec fn tv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_blen(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn vx_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_find<P: VxPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_starts(&self, c: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_replace(&self, c: char, t: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn vx_as_bytes(&self) -> (r: &[u8]) { unimplemented!() }
}
} } }
vx_text!(str);
vx_text!(String);
pub trait VxRemove {
    spec fn rv(&self) -> Seq<char>;
    fn vx_remove(&mut self, i: usize) -> (r: char)
        requires i < blen(old(self).rv()), boundary(old(self).rv(), i as int),
        ensures final(self).rv() == old(self).rv().take(cidx(old(self).rv(), i as int)) + old(self).rv().skip(cidx(old(self).rv(), i as int) + 1);
}
impl VxRemove for String {
    open spec fn rv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_remove(&mut self, i: usize) -> (r: char) { unimplemented!() }
}
// &s[start..end]
#[verifier::external_body]
pub fn vx_slice<'a>(s: &'a str, start: usize, end: Option<usize>) -> (r: &'a str)
    requires boundary(s@, start as int), end is Some ==> start <= end->0 && boundary(s@, end->0 as int),
    ensures r@ == s@.subrange(cidx(s@, start as int), if end is Some { cidx(s@, end->0 as int) } else { s@.len() as int }),
{ unimplemented!() }
pub fn vx_usize_from(b: bool) -> (r: usize) ensures r == if b { 1int } else { 0int } { if b { 1 } else { 0 } }
// ---- words ----
pub open spec fn sep(c: char) -> bool { c == ' ' || c == '\n' }
pub ghost struct Wst { pub done: Seq<Seq<char>>, pub cur: Seq<char> }
pub open spec fn wst(s: Seq<char>) -> Wst decreases s.len()
{
    if s.len() == 0 { Wst { done: Seq::empty(), cur: Seq::empty() } }
    else {
        let w = wst(s.drop_last());
        if !sep(s.last()) { Wst { done: w.done, cur: w.cur.push(s.last()) } }
        else if w.cur.len() == 0 { w }
        else { Wst { done: w.done.push(w.cur), cur: Seq::empty() } }
    }
}
// the words of a text: its longest parts without spaces and line breaks
pub open spec fn words(s: Seq<char>) -> Seq<Seq<char>> { let w = wst(s); if w.cur.len() == 0 { w.done } else { w.done.push(w.cur) } }
pub proof fn lemma_wst_same(a: Seq<char>, b: Seq<char>, x: Seq<char>) requires wst(a) == wst(b) ensures wst(a + x) == wst(b + x) decreases x.len()
{
    if x.len() == 0 { assert(a + x == a); assert(b + x == b); }
    else { lemma_wst_same(a, b, x.drop_last()); assert((a + x).drop_last() == a + x.drop_last()); assert((b + x).drop_last() == b + x.drop_last()); }
}
pub proof fn lemma_wst_add(a: Seq<char>, b: Seq<char>) requires wst(a).cur.len() == 0 ensures wst(a + b).done == wst(a).done + wst(b).done, wst(a + b).cur == wst(b).cur, words(a + b) == words(a) + words(b) decreases b.len()
{
    if b.len() == 0 { assert(a + b == a); assert(wst(a).done + wst(b).done == wst(a).done); assert(wst(a).cur == wst(b).cur); }
    else {
        lemma_wst_add(a, b.drop_last()); assert((a + b).drop_last() == a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(wst(a + b).done == wst(a).done + wst(b).done);
    }
    assert(words(a + b) == words(a) + words(b));
}
// a separator ends a word
pub proof fn lemma_words_sep(a: Seq<char>, c: char, b: Seq<char>) requires sep(c)
    ensures wst(a + seq![c]).cur.len() == 0, words(a + seq![c]) == words(a), words(a + seq![c] + b) == words(a) + words(b), words(seq![c] + b) == words(b), words(a) + words(seq![c] + b) == words(a + seq![c] + b), wst(a + seq![c]) == (Wst { done: words(a), cur: Seq::empty() })
{
    assert((a + seq![c]).drop_last() == a); assert((a + seq![c]).last() == c);
    assert(wst(a + seq![c]).cur =~= Seq::<char>::empty());
    lemma_wst_add(a + seq![c], b);
    let e = Seq::<char>::empty();
    assert((e + seq![c]).drop_last() == e); assert((e + seq![c]).last() == c); assert(e + seq![c] == seq![c]);
    assert(wst(e).cur.len() == 0); assert(wst(seq![c]) == wst(e));
    lemma_wst_add(seq![c], b); assert(words(seq![c]) == Seq::<Seq<char>>::empty()); assert(words(seq![c]) + words(b) == words(b));
}
pub proof fn lemma_replaced(s: Seq<char>) ensures words(replaced(s, '\n', " "@)) == words(s), wst(replaced(s, '\n', " "@)) == wst(s), !replaced(s, '\n', " "@).contains('\n'), blen(replaced(s, '\n', " "@)) == blen(s), replaced(s, '\n', " "@).len() == s.len() decreases s.len()
{
    reveal_strlit(" "); broadcast use ax_enc;
    if s.len() > 0 {
        let p = replaced(s.drop_last(), '\n', " "@);
        lemma_replaced(s.drop_last());
        let t = if s.last() == '\n' { " "@ } else { seq![s.last()] };
        let r = p + t;
        assert(r.drop_last() == p); assert(r.last() == t[0]); assert(" "@ == seq![' ']);
        assert forall|i: int| 0 <= i < r.len() implies r[i] != '\n' by { if i < p.len() { assert(r[i] == p[i]); assert(p.contains(p[i])); } }
        assert(enc(' ').len() == enc('\n').len());
    }
}
// one of two spaces removed
pub proof fn lemma_drop_space(s: Seq<char>, k: int) requires 0 <= k, k + 1 < s.len(), s[k] == ' ', s[k + 1] == ' '
    ensures words(s.take(k) + s.skip(k + 1)) == words(s), blen(s.take(k) + s.skip(k + 1)) == blen(s) - 1, (s.take(k) + s.skip(k + 1)).len() == s.len() - 1
{
    broadcast use ax_enc;
    let a = s.take(k); let b = s.skip(k + 2); let sp = seq![' '];
    assert(s.take(k) + s.skip(k + 1) == a + sp + b);
    assert(s == a + sp + sp + b);
    lemma_words_sep(a, ' ', b); lemma_words_sep(a + sp, ' ', b); lemma_words_sep(a, ' ', sp);
    lemma_take_blen(s, k, k + 1); lemma_b8_add(s.take(k), s.skip(k + 1)); lemma_char_byte(s, k);
}
pub open spec fn nonl(s: Seq<char>) -> bool { !s.contains('\n') }
