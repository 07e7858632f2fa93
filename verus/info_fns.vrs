// ---- mutations_info.rs: what the algorithms command shows ----
//@item mutagenyx/src/main.rs AlgorithmsCLArgs
//@item mutagenyx/src/mutations_info.rs ColumnSizes
// lengths of texts and lists
pub trait VxLen {
    spec fn n(&self) -> int;
    fn vx_blen(&self) -> (r: usize) ensures r == self.n(), r <= isize::MAX;
    fn vx_is_empty(&self) -> (r: bool) ensures r == (self.n() == 0);
}
macro_rules! vx_len { ($t:ty, $s:ident, $e:tt) => { verus! {
impl VxLen for $t {
    open spec fn n(&self) -> int { let $s = self; $e }
    #[verifier::external_body]
    fn vx_blen(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn vx_is_empty(&self) -> (r: bool) { unimplemented!() }
}
} } }
vx_len!(String, s, { blen(s@) });
vx_len!(str, s, { blen(s@) });
vx_len!(Vec<&MutationType>, s, { s@.len() as int });
vx_len!(Vec<&str>, s, { s@.len() as int });
// the terminal
pub mod termsize {
    use super::*;
    verus! {
    pub struct Size { pub rows: u16, pub cols: u16 }
    #[verifier::external_body]
    pub fn get() -> (r: Option<Size>) ensures r == term() { unimplemented!() }
    }
}
pub uninterp spec fn term() -> Option<termsize::Size>;
pub open spec fn cols() -> int { if term() is Some && term()->0.cols > 0 { term()->0.cols as int } else { 80 } }
// the descriptions of the algorithms (all_algorithm_descriptions; unit alg proves that every algorithm has one)
pub uninterp spec fn desc_table() -> Map<MT, MutationAlgorithmDescription>;
#[verifier::external_body]
pub fn vx_table() -> (r: MtMap<MutationAlgorithmDescription>) ensures r@ == desc_table(), forall|t: MT| #[trigger] r@.dom().contains(t) { unimplemented!() }
impl<V> MtMap<V> {
    #[verifier::external_body]
    pub fn vx_keys(&self) -> (r: Vec<&MT>) ensures r@ == key_list_of(self@), mts(r@).no_duplicates(), forall|k: MT| #[trigger] mts(r@).contains(k) <==> self@.dom().contains(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_at(&self, k: &MT) -> (r: &V) requires self@.dom().contains(*k) ensures *r == self@[*k] { unimplemented!() }
}
pub uninterp spec fn key_list_of<V>(m: Map<MT, V>) -> Seq<&'static MT>;
pub open spec fn mts(s: Seq<&MT>) -> Seq<MT> { Seq::new(s.len(), |i: int| *s[i]) }
// the order of texts
pub uninterp spec fn scmp(a: Seq<char>, b: Seq<char>) -> core::cmp::Ordering;
#[verifier::external_body]
pub fn vx_scmp(a: &String, b: &String) -> (r: core::cmp::Ordering) ensures r == scmp(a@, b@) { unimplemented!() }
pub open spec fn le_by<T, F: Fn(&T, &T) -> core::cmp::Ordering>(f: F, a: T, b: T) -> bool { exists|o: core::cmp::Ordering| #[trigger] f.ensures((&a, &b), o) && o != core::cmp::Ordering::Greater }
pub trait VxSortCmp<T> {
    spec fn els(&self) -> Seq<T>;
    fn vx_sort_cmp<F: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, f: F)
        requires forall|a: &T, b: &T| #[trigger] f.requires((a, b)),
        ensures
            final(self).els().to_multiset() == old(self).els().to_multiset(),
            forall|i: int, j: int| 0 <= i < j < final(self).els().len() ==> le_by(f, #[trigger] final(self).els()[i], #[trigger] final(self).els()[j]);
}
impl<T> VxSortCmp<T> for Vec<T> {
    open spec fn els(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_sort_cmp<F: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, f: F) { unimplemented!() }
}
// how a list of texts is shown
pub uninterp spec fn dbg_strs(s: Seq<&str>) -> Seq<char>;
#[verifier::external_body]
pub fn vx_dbg(v: &Vec<&'static str>) -> (r: String) ensures r@ == dbg_strs(v@) { unimplemented!() }
// every algorithm once, in alphabetical order
pub open spec fn in_order(ks: Seq<MT>) -> bool {
    ks.no_duplicates() && (forall|t: MT| #[trigger] ks.contains(t)) && forall|i: int, j: int| 0 <= i < j < ks.len() ==> scmp(mut_name(#[trigger] ks[i]), mut_name(#[trigger] ks[j])) != core::cmp::Ordering::Greater
}
// the length of the longest name
pub open spec fn widest(ks: Seq<MT>, w: int) -> bool {
    0 <= w && (forall|t: MT| #[trigger] ks.contains(t) ==> blen(mut_name(t)) <= w) && (w == 0 || exists|t: MT| ks.contains(t) && blen(#[trigger] mut_name(t)) == w)
}
impl St {
    pub open spec fn inby(self, n: int) -> St { St { ind: if self.ind + n <= self.max { self.ind + n } else { self.max }, ..self } }
    pub open spec fn decby(self, n: int) -> St { St { ind: if n > self.ind { 0 } else { self.ind - n }, ..self } }
    pub open spec fn head(self, t: MT, w: int) -> St { self.tok(mut_name(t)).sps((w - blen(mut_name(t))) as nat).sp() }
    pub open spec fn short(self, t: MT, w: int) -> St { self.head(t, w).inby(w + 1).flow(desc_table()[t].summary@, ""@).decby(w + 1) }
    pub open spec fn part(self, cat: Seq<char>, text: Seq<char>, w: int, ind: bool) -> St {
        let a = self.inby(w);
        let b = if ind { a.indent().sp() } else { a };
        let c = if blen(cat) != 0 { b.tok(cat).nl().indent().sp().toks("-"@, blen(cat) as nat).nl().nl().indent().sp() } else { b };
        c.inc().flow(text, ""@).decby(w + 1)
    }
    pub open spec fn more(self, cat: Seq<char>, text: Seq<char>, w: int, there: bool) -> St { if there { self.nl().nl().part(cat, text, w, true) } else { self } }
    pub open spec fn long(self, t: MT, w: int) -> St {
        let d = desc_table()[t];
        self.head(t, w).part(""@, d.summary@, w, false).more(""@, d.extra_details@, w, blen(d.extra_details@) != 0).more("Operators:"@, dbg_strs(d.operators@), w, d.operators@.len() != 0).more("Examples:"@, d.examples@, w, blen(d.examples@) != 0)
    }
    pub open spec fn list(self, ks: Seq<MT>, w: int, i: int) -> St decreases i {
        if i <= 0 { self } else { let a = self.list(ks, w, i - 1).short(ks[i - 1], w); if i < ks.len() { a.nl().nl() } else { a } }
    }
    pub open spec fn describe(self, ks: Seq<MT>, w: int, i: int) -> St decreases i {
        if i <= 0 { self } else { let a = self.describe(ks, w, i - 1).long(ks[i - 1], w); if i < ks.len() { a.nl().nl().nl() } else { a } }
    }
}
// a new printer for the terminal, and the text shown with it
pub open spec fn fresh(s: St) -> bool { s.out == Seq::<char>::empty() && s.row == 1 && s.col == 1 && s.ind == 0 && s.tab == 1 && s.page == cols() && s.nls == "\n"@ && s.max == cols() - 1 }
pub open spec fn listed() -> bool { exists|s: St, ks: Seq<MT>, w: int| #![trigger s.list(ks, w, ks.len() as int)] fresh(s) && in_order(ks) && widest(ks, w) && on_screen(s.list(ks, w, ks.len() as int).nl().out) }
pub open spec fn described() -> bool { exists|s: St, ks: Seq<MT>, w: int| #![trigger s.describe(ks, w, ks.len() as int)] fresh(s) && in_order(ks) && widest(ks, w) && on_screen(s.describe(ks, w, ks.len() as int).nl().out) }
pub proof fn lemma_perm(a: Seq<&MT>, b: Seq<&MT>)
    requires a.to_multiset() == b.to_multiset(), mts(a).no_duplicates(), forall|t: MT| #[trigger] mts(a).contains(t)
    ensures mts(b).no_duplicates(), forall|t: MT| #[trigger] mts(b).contains(t), a.len() == b.len()
{
    a.to_multiset_ensures();
    b.to_multiset_ensures();
    assert forall|t: MT| #[trigger] mts(b).contains(t) by {
        assert(mts(a).contains(t));
        let i = choose|i: int| 0 <= i < mts(a).len() && mts(a)[i] == t;
        assert(a.contains(a[i]));
        assert(b.to_multiset().count(a[i]) > 0);
        assert(b.contains(a[i]));
        let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i];
        assert(mts(b)[j] == t);
    }
    assert(a.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies a[i] != a[j] by { assert(mts(a)[i] != mts(a)[j]); } }
    a.lemma_multiset_has_no_duplicates();
    b.lemma_multiset_has_no_duplicates_conv();
    assert forall|i: int, j: int| 0 <= i < mts(b).len() && 0 <= j < mts(b).len() && i != j implies mts(b)[i] != mts(b)[j] by { assert(b[i] != b[j]); }
}
// the longest name of those collected so far
pub open spec fn upto(ks: Seq<&MT>, w: int) -> bool {
    0 <= w && (forall|i: int| 0 <= i < ks.len() ==> blen(mut_name(*#[trigger] ks[i])) <= w) && (w == 0 || exists|i: int| 0 <= i < ks.len() && blen(mut_name(*#[trigger] ks[i])) == w)
}
pub proof fn lemma_upto(a: Seq<&MT>, t: &MT, w: int, w2: int)
    requires upto(a, w), w2 == if blen(mut_name(*t)) > w { blen(mut_name(*t)) } else { w }
    ensures upto(a.push(t), w2)
{
    let b = a.push(t);
    assert(b[a.len() as int] == t);
    if blen(mut_name(*t)) <= w && w != 0 { let i = choose|i: int| 0 <= i < a.len() && blen(mut_name(*#[trigger] a[i])) == w; assert(b[i] == a[i]); }
}
pub proof fn lemma_widest(a: Seq<&MT>, b: Seq<&MT>, w: int)
    requires upto(a, w), a.to_multiset() == b.to_multiset()
    ensures widest(mts(b), w)
{
    a.to_multiset_ensures();
    b.to_multiset_ensures();
    assert forall|t: MT| #[trigger] mts(b).contains(t) implies blen(mut_name(t)) <= w by {
        let j = choose|j: int| 0 <= j < mts(b).len() && mts(b)[j] == t;
        assert(b.contains(b[j]));
        assert(a.to_multiset().count(b[j]) > 0);
        assert(a.contains(b[j]));
        let i = choose|i: int| 0 <= i < a.len() && a[i] == b[j];
        assert(blen(mut_name(*a[i])) <= w);
    }
    if w != 0 {
        let i = choose|i: int| 0 <= i < a.len() && blen(mut_name(*#[trigger] a[i])) == w;
        assert(a.contains(a[i]));
        assert(b.to_multiset().count(a[i]) > 0);
        assert(b.contains(a[i]));
        let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i];
        assert(mts(b)[j] == *a[i]);
        assert(mts(b).contains(*a[i]));
    }
}
impl ColumnSizes {
//@fn mutagenyx/src/mutations_info.rs ColumnSizes::new props=C21
//@ret r
//@spec
    ensures r.alg_name_width == 0,
//@end
}
//@fn mutagenyx/src/mutations_info.rs get_terminal_size props=C21
//@ret r
//@spec
    ensures r.cols == cols(), // [C21]
//@end
//@fn mutagenyx/src/mutations_info.rs display_simple_algorithm_list props=C21 strfn sortfn loops=2
//@spec
    ensures listed(), // [C21]
//@subst all_algorithm_descriptions() ==> vx_table()
//@subst descriptions.keys() ==> descriptions.vx_keys()
//@subst &descriptions[key_list[i]] ==> descriptions.vx_at(key_list[i])
//@closure 0
    -> (o: core::cmp::Ordering) ensures o == scmp(mut_name(**$0), mut_name(**$1))
//@entry
    proof { lits(); }
//@beforeloop 0
    proof { assert(upto(key_list@, 0)); }
//@loop 0
        invariant
            vx_it0.seq() == key_list_of(descriptions@), mts(vx_it0.seq()).no_duplicates(), forall|t: MT| #[trigger] mts(vx_it0.seq()).contains(t) <==> descriptions@.dom().contains(t), vx_it0.index() <= vx_it0.seq().len(), key_list@ == vx_it0.seq().take(vx_it0.index() as int),
            arg_name_width <= isize::MAX, upto(key_list@, arg_name_width as int), // [C21]
//@loopstart 0
        let ghost w0 = arg_name_width as int; let ghost k0 = key_list@; let ghost q0 = vx_it0.seq(); let ghost j0 = vx_it0.index() as int;
        proof { assert(key == q0[j0]); assert(q0.take(j0 + 1) == q0.take(j0).push(q0[j0])); }
//@loopend 0
        proof { assert(key_list@ == k0.push(key)); lemma_upto(k0, key, w0, arg_name_width as int); }
//@afterloop 0
    let ghost kl = key_list@;
    proof { assert(kl =~= key_list_of(descriptions@)); assert forall|t: MT| #[trigger] mts(kl).contains(t) by { assert(descriptions@.dom().contains(t)); } }
//@before stdout 0
    let ghost ks = mts(key_list@);
    let ghost w = arg_name_width as int;
    proof {
        lemma_perm(kl, key_list@);
        lemma_widest(kl, key_list@, w);
        assert forall|i: int, j: int| 0 <= i < j < ks.len() implies scmp(mut_name(#[trigger] ks[i]), mut_name(#[trigger] ks[j])) != core::cmp::Ordering::Greater by { assert(key_list@[i] == key_list@[i] && key_list@[j] == key_list@[j]); }
        assert(in_order(ks));
    }
//@beforeloop 1
    let ghost s0 = st(printer, &stream);
//@loop 1
        invariant
            i <= key_list@.len(), ks == mts(key_list@), in_order(ks), widest(ks, w), w == arg_name_width, arg_name_width <= isize::MAX, descriptions@ == desc_table(), forall|t: MT| #[trigger] descriptions@.dom().contains(t),
            pwf(printer), stream.good(), printer.indent == 0, fresh(s0), st(printer, &stream) == s0.list(ks, w, i as int), // [C21]
        decreases key_list@.len() - i,
//@loopstart 1
        let ghost s1 = st(printer, &stream); let ghost k = ks[i as int];
        proof { assert(*key_list@[i as int] == k); assert(ks.contains(k)); }
//@after decrease_indent_by 0
        proof { assert(st(printer, &stream) == s1.short(k, w)); }
//@afterloop 1
    let ghost s2 = st(printer, &stream);
//@exit
    proof { ax_screen(&stream); assert(st(printer, &stream) == s2.nl()); assert(s2 == s0.list(ks, w, ks.len() as int)); }
//@end
//@fn mutagenyx/src/mutations_info.rs write_lines props=C21 strfn
//@spec
    requires pwf(*old(printer)), old(printer).indent == 0, column_sizes.alg_name_width <= isize::MAX, old(stream).good(),
    ensures final(stream).good(), pwf(*final(printer)), final(printer).indent == 0,
        st(*final(printer), final(stream)) == st(*old(printer), old(stream)).part(category_text@, text@, column_sizes.alg_name_width as int, do_indent), // [C21]
//@subst <W: Write> ==> 
//@subst &mut W ==> &mut Stdout
//@entry
    proof { lits(); }
//@end
//@fn mutagenyx/src/mutations_info.rs display_algorithm_descriptions props=C21 strfn sortfn keepformat attr=loop_isolation(false) loops=2
//@spec
    ensures described(), // [C21]
//@subst all_algorithm_descriptions() ==> vx_table()
//@subst descriptions.keys() ==> descriptions.vx_keys()
//@subst &descriptions[key_list[i]] ==> descriptions.vx_at(key_list[i])
//@subst format!("{:?}", description.operators) ==> vx_dbg(&description.operators)
//@closure 0
    -> (o: core::cmp::Ordering) ensures o == scmp(mut_name(**$0), mut_name(**$1))
//@entry
    proof { lits(); }
//@beforeloop 0
    proof { assert(upto(key_list@, 0)); }
//@loop 0
        invariant
            vx_it0.seq() == key_list_of(descriptions@), mts(vx_it0.seq()).no_duplicates(), forall|t: MT| #[trigger] mts(vx_it0.seq()).contains(t) <==> descriptions@.dom().contains(t), vx_it0.index() <= vx_it0.seq().len(), key_list@ == vx_it0.seq().take(vx_it0.index() as int),
            column_sizes.alg_name_width <= isize::MAX, upto(key_list@, column_sizes.alg_name_width as int), // [C21]
//@loopstart 0
        let ghost w0 = column_sizes.alg_name_width as int; let ghost k0 = key_list@; let ghost q0 = vx_it0.seq(); let ghost j0 = vx_it0.index() as int;
        proof { assert(key == q0[j0]); assert(q0.take(j0 + 1) == q0.take(j0).push(q0[j0])); }
//@loopend 0
        proof { assert(key_list@ == k0.push(key)); lemma_upto(k0, key, w0, column_sizes.alg_name_width as int); }
//@afterloop 0
    let ghost kl = key_list@;
    proof { assert(kl =~= key_list_of(descriptions@)); assert forall|t: MT| #[trigger] mts(kl).contains(t) by { assert(descriptions@.dom().contains(t)); } }
//@before stdout 0
    let ghost ks = mts(key_list@);
    let ghost w = column_sizes.alg_name_width as int;
    proof {
        lemma_perm(kl, key_list@);
        lemma_widest(kl, key_list@, w);
        assert forall|i: int, j: int| 0 <= i < j < ks.len() implies scmp(mut_name(#[trigger] ks[i]), mut_name(#[trigger] ks[j])) != core::cmp::Ordering::Greater by { assert(key_list@[i] == key_list@[i] && key_list@[j] == key_list@[j]); }
        assert(in_order(ks));
    }
//@beforeloop 1
    let ghost s0 = st(printer, &stream);
//@loop 1
        invariant
            i <= key_list@.len(), ks == mts(key_list@), in_order(ks), widest(ks, w), w == column_sizes.alg_name_width, column_sizes.alg_name_width <= isize::MAX, descriptions@ == desc_table(), forall|t: MT| #[trigger] descriptions@.dom().contains(t),
            pwf(printer), stream.good(), printer.indent == 0, fresh(s0), st(printer, &stream) == s0.describe(ks, w, i as int), // [C21]
        decreases key_list@.len() - i,
//@loopstart 1
        let ghost s1 = st(printer, &stream); let ghost k = ks[i as int];
        proof { assert(*key_list@[i as int] == k); assert(ks.contains(k)); }
//@after write_lines 0
        let ghost d = desc_table()[k];
        let ghost a1 = s1.head(k, w).part(""@, d.summary@, w, false);
        proof { assert(st(printer, &stream) == a1); }
//@after write_lines 1
            proof { assert(st(printer, &stream) == a1.nl().nl().part(""@, d.extra_details@, w, true)); }
//@before is_empty 1
        let ghost a2 = a1.more(""@, d.extra_details@, w, blen(d.extra_details@) != 0);
        proof { assert(st(printer, &stream) == a2); }
//@before is_empty 2
        let ghost a3 = a2.more("Operators:"@, dbg_strs(d.operators@), w, d.operators@.len() != 0);
        proof { assert(st(printer, &stream) == a3); }
//@loopend 1
        proof { assert(s1.long(k, w) == a3.more("Examples:"@, d.examples@, w, blen(d.examples@) != 0)); }
//@afterloop 1
    let ghost s2 = st(printer, &stream);
//@exit
    proof { ax_screen(&stream); assert(st(printer, &stream) == s2.nl()); assert(s2 == s0.describe(ks, w, ks.len() as int)); }
//@end
//@fn mutagenyx/src/mutations_info.rs display_mutations_info props=C21
//@spec
    ensures params.list && !params.describe ==> listed(), params.describe && !params.list ==> described(), // [C21] the command line gives exactly one of them
//@end
