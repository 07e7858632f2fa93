// ---- flowable text ----
pub open spec fn no2(s: Seq<char>) -> bool { forall|k: int| 0 <= k && k + 1 < s.len() && s[k] == ' ' ==> #[trigger] s[k + 1] != ' ' }
pub open spec fn brk(s: St, next: Seq<char>) -> St { s.nl().indent().tok(next) }
// the pieces of a text, one on each line
pub open spec fn flow_st(s: St, ps: Seq<Seq<char>>, next: Seq<char>) -> St decreases ps.len()
{ if ps.len() == 0 { s } else if ps.len() == 1 { s.raw(ps[0]) } else { flow_st(brk(s.raw(ps[0]), next), ps.skip(1), next) } }
pub open spec fn wordcat(ps: Seq<Seq<char>>) -> Seq<Seq<char>> decreases ps.len() { if ps.len() == 0 { Seq::empty() } else { words(ps[0]) + wordcat(ps.skip(1)) } }
// a piece ends within the page unless it is one word on a line of its own
pub open spec fn fits(s: St, p: Seq<char>, next: Seq<char>) -> bool { nonl(p) && (p.len() == 0 || s.col + blen(p) <= s.page || words(p).len() <= 1 && s.col <= s.indlen() + blen(next) + 1) }
// a line ends only where the next word has no room any more
pub open spec fn full(s: St, p: Seq<char>, rest: Seq<Seq<char>>) -> bool { rest.len() > 0 ==> s.col + blen(p) + 2 + blen(rest[0]) > s.page }
pub open spec fn flow_ok(s: St, ps: Seq<Seq<char>>, next: Seq<char>) -> bool decreases ps.len()
{
    ps.len() > 0 && fits(s, ps[0], next) && (ps.len() > 1 ==> full(s, ps[0], wordcat(ps.skip(1))) && flow_ok(brk(s.raw(ps[0]), next), ps.skip(1), next))
}
pub open spec fn flow_by(s: St, s2: St, text: Seq<char>, next: Seq<char>, ps: Seq<Seq<char>>) -> bool { flow_ok(s, ps, next) && s2 == flow_st(s, ps, next) && wordcat(ps) == words(text) }
pub open spec fn flowed(s: St, s2: St, text: Seq<char>, next: Seq<char>) -> bool { exists|ps: Seq<Seq<char>>| #[trigger] flow_by(s, s2, text, next, ps) }
pub proof fn lemma_flow_one(s: St, p: Seq<char>, text: Seq<char>, next: Seq<char>) requires fits(s, p, next), words(p) == words(text) ensures flowed(s, s.raw(p), text, next)
{ let ps = seq![p]; assert(ps.skip(1) == Seq::<Seq<char>>::empty()); assert(wordcat(ps.skip(1)) == Seq::<Seq<char>>::empty()); assert(wordcat(ps) == words(p)); assert(flow_by(s, s.raw(p), text, next, ps)); }
pub proof fn lemma_flow_more(s: St, p: Seq<char>, rest: Seq<char>, s2: St, text: Seq<char>, next: Seq<char>)
    requires fits(s, p, next), flowed(brk(s.raw(p), next), s2, rest, next), words(text) == words(p) + words(rest), full(s, p, words(rest)) ensures flowed(s, s2, text, next)
{
    let q = choose|ps: Seq<Seq<char>>| #[trigger] flow_by(brk(s.raw(p), next), s2, rest, next, ps);
    let ps = seq![p] + q; assert(ps.skip(1) == q); assert(ps[0] == p);
    assert(flow_by(s, s2, text, next, ps));
}
pub proof fn lemma_flow_none(s: St, x: Seq<char>, s2: St, text: Seq<char>, next: Seq<char>)
    requires flowed(brk(s, next), s2, x, next), words(text) == words(x), s.col >= s.page ensures flowed(s, s2, text, next)
{
    let e = Seq::<char>::empty(); assert(words(e) == Seq::<Seq<char>>::empty()); assert(words(e) + words(x) == words(x)); if words(x).len() > 0 { lemma_words_nonempty(x); }
    lemma_raw0(s); lemma_flow_more(s, e, x, s2, text, next);
}
// no text or page is near 2^64 bytes (assumption)
pub axiom fn ax_fit(p: PrettyPrinter, s: Seq<char>) ensures p.page_width + blen(s) + 1 <= usize::MAX;
pub proof fn lemma_raw0(s: St) ensures s.raw(Seq::empty()) == s { let e = Seq::<char>::empty(); assert(s.out + e == s.out); assert(b8(e).len() == 0); }
pub proof fn lemma_brk(p: PrettyPrinter, s: St, next: Seq<char>) requires pwf(p), s.ind == p.indent, s.tab == p.tab_width, s.page == p.page_width
    ensures brk(s, next).col == 1 + s.indlen() + blen(next), brk(s, next).page == s.page, brk(s, next).indlen() == s.indlen()
{ lemma_indlen(p); lemma_spaces(s.indlen()); }
pub proof fn lemma_sub_byte(s: Seq<char>, a: int, ka: int, n: int, k: int) requires at_byte(s, a, ka), at_byte(s.skip(ka), n, k) ensures at_byte(s, a + n, ka + k), s.skip(ka).skip(k) == s.skip(ka + k)
{ lemma_b8_add(s.take(ka), s.skip(ka).take(k)); assert(s.take(ka) + s.skip(ka).take(k) == s.take(ka + k)); assert(s.skip(ka).skip(k) == s.skip(ka + k)); }
pub proof fn lemma_cover(s: Seq<char>, n: int) -> (k: int) requires 0 <= n < blen(s) ensures 0 <= k < s.len(), blen(s.take(k)) <= n < blen(s.take(k + 1)) decreases s.len()
{
    if s.len() == 0 { 0 }
    else {
        let p = s.drop_last(); assert(s.take(s.len() - 1) == p); assert(s.take(s.len() as int) == s);
        if n < blen(p) { let k = lemma_cover(p, n); assert(s.take(k) == p.take(k)); assert(s.take(k + 1) == p.take(k + 1)); k } else { s.len() - 1 }
    }
}
pub open spec fn solid(s: Seq<char>, k: int) -> bool { forall|i: int| 0 <= i < k ==> !sep(#[trigger] s[i]) }
pub proof fn lemma_solid(s: Seq<char>) requires solid(s, s.len() as int) ensures wst(s).done.len() == 0, wst(s).cur == s decreases s.len()
{ if s.len() > 0 { let p = s.drop_last(); assert forall|i: int| 0 <= i < p.len() implies !sep(#[trigger] p[i]) by { assert(p[i] == s[i]); } lemma_solid(p); assert(!sep(s[s.len() - 1])); assert(wst(p).cur.push(s.last()) == s); } else { assert(wst(s).cur == s); } }
// a word at the start of a text is its first word
pub proof fn lemma_first_word(s: Seq<char>, k: int) requires 0 < k <= s.len(), solid(s, k)
    ensures if wst(s).done.len() > 0 { starts(wst(s).done[0], s.take(k)) } else { starts(wst(s).cur, s.take(k)) }, words(s).len() > 0, blen(words(s)[0]) >= blen(s.take(k)) decreases s.len() - k
{
    if s.len() == k { lemma_solid(s); assert(s.take(k) == s); }
    else { let p = s.drop_last(); assert forall|i: int| 0 <= i < k implies !sep(#[trigger] p[i]) by { assert(p[i] == s[i]); } lemma_first_word(p, k); assert(p.take(k) == s.take(k));
        if wst(p).done.len() == 0 && !sep(s.last()) { assert(wst(s).cur.take(k) == wst(p).cur.take(k)); } }
    let w = words(s)[0]; lemma_take_blen(w, 0, k); assert(w.take(k) == s.take(k));
}
pub proof fn lemma_nonl(s: Seq<char>, t: Seq<char>) requires nonl(s), forall|i: int| 0 <= i < t.len() ==> s.contains(#[trigger] t[i]) ensures nonl(t) { assert forall|i: int| 0 <= i < t.len() implies t[i] != '\n' by { assert(s.contains(t[i])); } }
pub trait MutagenyxString {
    spec fn mv(&self) -> Seq<char>;
    fn remove_all(&mut self, s: &str)
        requires s@.len() > 0,
        ensures s.absent(final(self).mv()), // [C15]
            final(self).mv().len() <= old(self).mv().len(), blen(final(self).mv()) <= blen(old(self).mv()), forall|c: char| final(self).mv().contains(c) ==> #[trigger] old(self).mv().contains(c), // [C15]
            s@ == "  "@ ==> words(final(self).mv()) == words(old(self).mv()); // [C15]
}
pub open spec fn wrotef(p: PrettyPrinter, w: &dyn Write, p2: PrettyPrinter, w2: &dyn Write, ok: bool, text: Seq<char>, next: Seq<char>) -> bool {
    w2.good() == w.good() && pwf(p2) && p2.indent == p.indent && p2.tab_width == p.tab_width && p2.page_width == p.page_width && p2.max_indent == p.max_indent && p2.newline@ == p.newline@ && (w.good() ==> ok) && (ok ==> flowed(st(p, w), st(p2, w2), text, next))
}
// where the word that starts at character a ends
pub open spec fn wordend(s: Seq<char>, a: int) -> int decreases s.len() - a { if a < 0 || a >= s.len() || s[a] == ' ' { a } else { wordend(s, a + 1) } }
pub proof fn lemma_wordend(s: Seq<char>, a: int) requires 0 <= a <= s.len() ensures a <= wordend(s, a) <= s.len(), forall|i: int| a <= i < wordend(s, a) ==> #[trigger] s[i] != ' ', wordend(s, a) < s.len() ==> s[wordend(s, a)] == ' ' decreases s.len() - a { if a < s.len() && s[a] != ' ' { lemma_wordend(s, a + 1); } }
pub proof fn lemma_words_nonempty(s: Seq<char>) ensures forall|i: int| 0 <= i < words(s).len() ==> #[trigger] words(s)[i].len() > 0 && blen(words(s)[i]) > 0, forall|i: int| 0 <= i < wst(s).done.len() ==> #[trigger] wst(s).done[i].len() > 0 decreases s.len()
{ if s.len() > 0 { let p = s.drop_last(); lemma_words_nonempty(p); let w = wst(p); assert forall|i: int| 0 <= i < wst(s).done.len() implies #[trigger] wst(s).done[i].len() > 0 by { if i < w.done.len() { assert(w.done[i].len() > 0); } } } assert forall|i: int| 0 <= i < words(s).len() implies #[trigger] words(s)[i].len() > 0 && blen(words(s)[i]) > 0 by { lemma_blen(words(s)[i]); } }
pub proof fn lemma_flow_empty(s: St, next: Seq<char>, rest: Seq<char>) requires rest.len() == 0, s.col <= s.indlen() + blen(next) + 1 ensures flowed(s, s, rest, next)
{ lemma_raw0(s); assert(rest == Seq::<char>::empty()); assert(words(rest).len() == 0); lemma_flow_one(s, rest, rest, next); }
// a text of at most one space and then no further one has at most one word
pub proof fn lemma_one_word(s: Seq<char>, a: int) requires nonl(s), 0 <= a <= 1, a <= s.len(), a == 1 ==> s[0] == ' ', forall|i: int| a <= i < s.len() ==> #[trigger] s[i] != ' ' ensures words(s).len() <= 1
{
    let t = s.skip(a);
    assert forall|i: int| 0 <= i < t.len() implies !sep(#[trigger] t[i]) by { assert(t[i] == s[a + i]); assert(s.contains(s[a + i])); }
    lemma_solid(t);
    if a == 1 { assert(s == Seq::<char>::empty() + seq![' '] + t); lemma_words_sep(Seq::empty(), ' ', t); assert(seq![' '] + t == s); } else { assert(t == s); }
}
pub open spec fn starts_at(x: Seq<char>, j: int) -> bool { 1 <= j < blen(x) && b8(x)[j - 1] == 32 && b8(x)[j] != 32 }
pub open spec fn idxinv(x: Seq<char>, i: int, idx: int) -> bool { 0 <= idx <= i && (idx == 0 || starts_at(x, idx)) && forall|j: int| #![trigger starts_at(x, j)] j < i && starts_at(x, j) ==> idx >= j }
pub proof fn lemma_no2(x: Seq<char>, j: int) requires no2(x), 0 <= j, j + 1 < blen(x), b8(x)[j] == 32 ensures starts_at(x, j + 1)
{ let k = lemma_ascii_byte(x, j); if k + 1 < x.len() { assert(x[k] == ' '); assert(x[k + 1] != ' '); lemma_char_byte(x, k + 1); } else { assert(x.take(k + 1) == x); } }
pub open spec fn fpos(x: Seq<char>, sl: int, idx: int) -> int { if b8(x)[sl] == 32 { sl } else { idx } }
pub open spec fn gpos(x: Seq<char>, sl: int, idx: int) -> int { let f = fpos(x, sl, idx); if b8(x)[f] == 32 { f + 1 } else { f } }
pub proof fn lemma_no2_text(x: Seq<char>) requires "  ".absent(x) ensures no2(x)
{ reveal_strlit("  "); assert forall|k: int| 0 <= k && k + 1 < x.len() && x[k] == ' ' implies #[trigger] x[k + 1] != ' ' by { if x[k + 1] == ' ' { assert(x.subrange(k, k + 2) == "  "@); } } }
pub proof fn lemma_empty() ensures b8(Seq::<char>::empty()).len() == 0, words(Seq::<char>::empty()) == Seq::<Seq<char>>::empty() { }
// the word that starts at byte idx goes on to the last column but one
pub proof fn lemma_run(x: Seq<char>, kr: int, idx: int, sl: int) requires nonl(x), no2(x), 0 < sl < blen(x), idxinv(x, sl, idx), at_byte(x, idx, kr), idx < sl - 1, b8(x)[idx] != 32
    ensures words(x.skip(kr)).len() > 0, blen(words(x.skip(kr))[0]) >= sl - 1 - idx
{
    hide(words); hide(wst); hide(b8);
    let y = x.skip(kr);
    let k2 = lemma_cover(x, sl - 2);
    if k2 < kr { lemma_take_blen(x, k2 + 1, kr); }
    let n = k2 + 1 - kr;
    assert forall|i: int| 0 <= i < n implies !sep(#[trigger] y[i]) by {
        let c = kr + i; assert(y[i] == x[c]); assert(x.contains(x[c]));
        lemma_char_byte(x, c); lemma_take_blen(x, kr, c); lemma_take_blen(x, c, k2);
        if x[c] == ' ' { lemma_no2(x, blen(x.take(c))); }
    }
    lemma_first_word(y, n);
    lemma_b8_add(x.take(kr), y.take(n)); assert(x.take(kr) + y.take(n) == x.take(k2 + 1));
}
pub proof fn lemma_break(x: Seq<char>, sl: int, idx: int) -> (r: (int, int)) requires nonl(x), no2(x), 0 < sl < blen(x), idxinv(x, sl, idx)
    ensures at_byte(x, fpos(x, sl, idx), r.0), at_byte(x, gpos(x, sl, idx), r.1), words(x) == words(x.take(r.0)) + words(x.skip(r.1)), nonl(x.take(r.0)),
        fpos(x, sl, idx) <= sl, words(x.skip(r.1)).len() > 0 ==> fpos(x, sl, idx) + 2 + blen(words(x.skip(r.1))[0]) > sl,
        gpos(x, sl, idx) == 0 ==> r.1 == 0, gpos(x, sl, idx) > 0 ==> blen(x.skip(r.1)) < blen(x),
{
    hide(words); hide(wst); hide(b8);
    let e = Seq::<char>::empty();
    lemma_empty();
    assert(x.take(0) == e);
    let r = if b8(x)[sl] == 32 { let k = lemma_ascii_byte(x, sl); assert(x[k] == ' '); assert(x == x.take(k) + seq![' '] + x.skip(k + 1)); lemma_words_sep(x.take(k), ' ', x.skip(k + 1)); (k, k + 1) }
    else if idx > 0 { let k = lemma_ascii_byte(x, idx - 1); assert(x[k] == ' '); assert(x == x.take(k) + seq![' '] + x.skip(k + 1)); assert(x.take(k + 1) == x.take(k) + seq![' ']); lemma_words_sep(x.take(k), ' ', x.skip(k + 1)); (k + 1, k + 1) }
    else if b8(x)[0] == 32 { let k = lemma_ascii_byte(x, 0); if k > 0 { lemma_take_blen(x, 0, k); } assert(x == x.take(0) + seq![' '] + x.skip(1)); lemma_words_sep(x.take(0), ' ', x.skip(1)); (0, 1) }
    else { assert(x.skip(0) == x); assert(words(e) + words(x) == words(x)); (0, 0) };
    lemma_nonl(x, x.take(r.0));
    lemma_take_blen(x, 0, r.1); lemma_take_blen(x, 0, r.0);
    let y = x.skip(r.1);
    if words(y).len() > 0 {
        lemma_words_nonempty(y); assert(words(y)[0].len() > 0);
        if b8(x)[sl] != 32 && idx < sl - 1 { if b8(x)[idx] == 32 { lemma_no2(x, idx); assert(false); } lemma_run(x, r.1, idx, sl); }
        if b8(x)[sl] != 32 && idx == 0 && b8(x)[0] == 32 { if sl > 1 { lemma_no2(x, 0); assert(false); } }
    }
    r
}
// a fresh line whose first word ends before the last column has another word start on it
pub proof fn lemma_progress(x: Seq<char>, sl: int, fw: int, kw: int) requires no2(x), 0 < sl < blen(x), fw + 1 < sl, at_byte(x, fw, kw), kw < x.len() ==> x[kw] == ' ', idxinv(x, sl, 0) ensures false
{ broadcast use ax_enc; assert(x.take(x.len() as int) == x); lemma_char_byte(x, kw); lemma_no2(x, fw); assert(starts_at(x, fw + 1)); }
pub open spec fn end_found(x: Seq<char>, fs: int, fw: int) -> bool { let y = x.skip(fs); (exists|n: int, k: int| #[trigger] found(y, ' ', n, k) && n == fw - fs) || !y.contains(' ') && fw == blen(x) }
pub proof fn lemma_first_end(x: Seq<char>, fs: int, fw: int, kw: int) requires 0 <= fs <= 1, fs <= x.len(), at_byte(x, fs, fs), kw == wordend(x, fs), end_found(x, fs, fw)
    ensures at_byte(x, fw, kw), boundary(x, fw), cidx(x, fw) == kw, kw < x.len() ==> fw < blen(x) && boundary(x, fw + 1) && cidx(x, fw + 1) == kw + 1, kw == x.len() ==> fw == blen(x)
{
    broadcast use ax_enc;
    lemma_wordend(x, fs);
    let y = x.skip(fs);
    if exists|n: int, k: int| #[trigger] found(y, ' ', n, k) && n == fw - fs { let (n, k) = choose|n: int, k: int| #[trigger] found(y, ' ', n, k) && n == fw - fs; lemma_sub_byte(x, fs, fs, fw - fs, k); assert(y[k] == x[fs + k]); if kw < fs + k { assert(y[kw - fs] == ' '); assert(' '.hit(y, kw - fs)); } }
    else { if kw < x.len() { assert(y[kw - fs] == ' '); assert(y.contains(' ')); } assert(x.take(x.len() as int) == x); }
    assert(at_byte(x, fw, kw)); lemma_cidx(x, fw, kw); assert(x.take(x.len() as int) == x);
    if kw < x.len() { lemma_char_byte(x, kw); lemma_cidx(x, fw + 1, kw + 1); }
}
impl MutagenyxString for String {
    open spec fn mv(&self) -> Seq<char> { self@ }
//@fn mutagenyx_lib/src/string.rs MutagenyxString@String::remove_all props=C15 strfn loops=1 exactfmt
//@loop 0
        invariant s@.len() > 0, self@.len() <= old(self)@.len(), blen(self@) <= blen(old(self)@), forall|c: char| self@.contains(c) ==> #[trigger] old(self)@.contains(c), s@ == "  "@ ==> words(self@) == words(old(self)@),
            find_result is Some ==> exists|k: int| #[trigger] found(self@, s, find_result->0 as int, k), find_result is None ==> s.absent(self@),
        decreases self@.len(),
//@before remove 0
            let ghost before = self@;
            let ghost k = choose|k: int| #[trigger] found(self@, s, index as int, k);
            proof { lemma_cidx(self@, index as int, k); lemma_char_byte(self@, k); }
//@after remove 0
            proof {
                assert(self@ == before.take(k) + before.skip(k + 1));
                assert forall|c: char| self@.contains(c) implies #[trigger] old(self)@.contains(c) by { let i = choose|i: int| 0 <= i < self@.len() && self@[i] == c; if i < k { assert(before[i] == c); } else { assert(before[i + 1] == c); } assert(before.contains(c)); }
                lemma_take_blen(before, k, k + 1); lemma_b8_add(before.take(k), before.skip(k + 1));
                reveal_strlit("  ");
                if s@ == "  "@ { let h = before.subrange(k, k + 2); assert(h[0] == ' ' && h[1] == ' '); lemma_drop_space(before, k); }
            }
//@end
}
impl PrettyPrinter {
//@fn mutagenyx_lib/src/pretty_printer.rs PrettyPrinter::write_flowable_text props=C15 strfn loops=2 attr=rlimit(60) exactfmt
//@ret r
//@spec
    requires pwf(*old(self)),
    ensures wrotef(*old(self), old(stream), *final(self), final(stream), r is Ok, s@, next_line_text@), // [C15]
    decreases blen(s@), if old(self).column <= old(self).indent * old(self).tab_width + blen(next_line_text@) + 1 { 0int } else { 1int },
//@entry
        hide(St::tok); hide(wst); hide(words); hide(flow_st); hide(flow_ok); hide(wordcat); hide(replaced); hide(flowed); hide(no2); hide(b8);
//@loop 0
        invariant words(text@) == words(s@), blen(text@) == blen(s@),
        ensures nonl(text@),
        decreases if text@.contains('\n') { 1int } else { 0int },
//@before remove_all 0
        proof { lits(); }
//@loopstart 0
            proof { let k = choose|k: int| '\n'.hit(text@, k); assert(text@[k] == '\n'); assert(text@.contains('\n')); lemma_replaced(text@); }
//@after remove_all 0
        proof {
            assert(nonl(text@));
            lemma_no2_text(text@);
            lemma_indlen(*self); ax_fit(*self, next_line_text@); ax_fit(*self, text@);
        }
        let ghost s0 = st(*self, stream);
        let ghost x = text@;
        let ghost nx = next_line_text@;
//@before starts_with 0
            let ghost fs = if x.len() > 0 && x[0] == ' ' { 1int } else { 0int };
            proof {
                lemma_blen(x); lemma_take_blen(x, 0, fs); broadcast use ax_enc;
                lemma_empty(); assert(x.take(0) == Seq::<char>::empty()); assert(at_byte(x, 0, 0)); lemma_cidx(x, 0, 0);
                if fs == 1 { lemma_char_byte(x, 0); assert(at_byte(x, 1, 1)); lemma_cidx(x, 1, 1); }
                assert(x.subrange(fs, x.len() as int) == x.skip(fs));
            }
//@after find 1
            let ghost fw = first_word_end as int;
            let ghost kw = wordend(x, fs);
            proof {
                lemma_wordend(x, fs);
                lemma_first_end(x, fs, fw, kw);
                lemma_nonl(x, x.take(kw)); lemma_one_word(x.take(kw), fs);
            }
//@before write_basic_string 0
                proof { assert(x.subrange(0, kw) == x.take(kw)); }
//@after write_basic_string 0
                let ghost s1 = st(*self, stream);
                proof { if kw == x.len() { assert(x.take(kw) == x); lemma_flow_one(s0, x, s@, nx); } }
//@before write_newline 0
                    let ghost rx = x.skip(kw + 1);
                    proof { assert(x.subrange(kw + 1, x.len() as int) == rx); lemma_take_blen(x, kw, kw + 1); assert(x == x.take(kw) + seq![' '] + rx); lemma_words_sep(x.take(kw), ' ', rx); assert(words(s@) == words(x.take(kw)) + words(rx)); if words(rx).len() > 0 { lemma_words_nonempty(rx); } }
//@after write_token 0
                    proof { lemma_brk(*self, s1, nx); assert(st(*self, stream) == brk(s1, nx)); if rx.len() == 0 { lemma_raw0(brk(s1, nx)); lemma_flow_empty(brk(s1, nx), nx, rx); lemma_flow_more(s0, x.take(kw), rx, brk(s1, nx), s@, nx); } }
//@after write_flowable_text 0
                        proof { lemma_flow_more(s0, x.take(kw), rx, st(*self, stream), s@, nx); }
//@after write_token 1
                proof { lemma_brk(*self, s0, nx); lemma_raw0(s0); assert(st(*self, stream) == brk(s0, nx)); }
//@after write_flowable_text 1
                proof { lemma_flow_none(s0, x, st(*self, stream), s@, nx); }
//@loop 1
                    invariant i <= space_left, space_left < bytes@.len(), bytes@ == b8(x), previous_char_was_space == (i > 0 && b8(x)[i - 1] == 32), idxinv(x, i as int, index_of_start_of_word as int),
                    decreases space_left - i,
//@afterloop 1
                let ghost mut cut = (0int, 0int);
                proof { cut = lemma_break(x, space_left as int, index_of_start_of_word as int); }
                proof { lemma_cidx(x, fpos(x, space_left as int, index_of_start_of_word as int), cut.0); lemma_cidx(x, gpos(x, space_left as int, index_of_start_of_word as int), cut.1); assert(x.subrange(0, cut.0) == x.take(cut.0)); assert(x.subrange(cut.1, x.len() as int) == x.skip(cut.1)); }
//@before write_newline 2
                let ghost fx = x.take(cut.0);
                let ghost rx = x.skip(cut.1);
                let ghost s1 = s0.raw(fx);
                proof { if fx.len() == 0 { assert(fx == Seq::<char>::empty()); lemma_raw0(s0); } assert(st(*self, stream) == s1); }
//@after write_token 2
                proof { lemma_brk(*self, s1, nx); assert(st(*self, stream) == brk(s1, nx)); if rx.len() == 0 { lemma_raw0(brk(s1, nx)); lemma_flow_empty(brk(s1, nx), nx, rx); lemma_flow_more(s0, fx, rx, brk(s1, nx), s@, nx); } 
                    if cut.1 == 0 { assert(x.skip(0) == x); if line_is_fresh { lemma_progress(x, space_left as int, fw, kw); } } }
//@after write_flowable_text 2
                    proof { lemma_flow_more(s0, fx, rx, st(*self, stream), s@, nx); }
//@before write_basic_string 2
            proof { lemma_blen(x); lemma_flow_one(s0, x, s@, nx); }
//@end
}
//@fn mutagenyx_lib/src/pretty_printer.rs write_flowable_text props=C15 strfn exactfmt
//@spec
    requires pwf(*old(printer)),
    ensures wrotef(*old(printer), old(stream), *final(printer), final(stream), old(stream).good(), s@, next_line_text@), // [C15]
//@end
