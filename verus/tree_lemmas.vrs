// ---- what a whole traversal with the counting and the mutating visitor does ----
// the eligible nodes of a tree that algorithm ty accepts; inh: a node around the tree makes everything below it mutable
pub open spec fn own(p: PF, nf: NF, inh: bool, ty: MT, t: JV) -> int { if (inh || p_mutate(p, nf(t))) && m_mutable(ty, t) { 1 } else { 0 } }
pub open spec fn cnt(p: PF, nf: NF, inh: bool, ty: MT, t: JV) -> int
    decreases t, nkids(t) + 1
{
    if !p_visit(p, nf(t)) { 0 } else { own(p, nf, inh, ty, t) + cnts(p, nf, inh || p_below(p, nf(t)), ty, t, 0) }
}
pub open spec fn cnts(p: PF, nf: NF, inh: bool, ty: MT, t: JV, j: int) -> int
    decreases t, nkids(t) - j
    via cnts_dec
{
    if j < 0 || j >= nkids(t) { 0 } else { cnt(p, nf, inh, ty, kid(t, j)) + cnts(p, nf, inh, ty, t, j + 1) }
}
#[via_fn]
proof fn cnts_dec(p: PF, nf: NF, inh: bool, ty: MT, t: JV, j: int) { if 0 <= j < nkids(t) { lemma_kid_smaller(t, j); } }
proof fn lemma_cnt_pos(p: PF, nf: NF, inh: bool, ty: MT, t: JV)
    ensures cnt(p, nf, inh, ty, t) >= 0,
    decreases t, nkids(t) + 1
{ if p_visit(p, nf(t)) { lemma_cnts_pos(p, nf, inh || p_below(p, nf(t)), ty, t, 0); } }
proof fn lemma_cnts_pos(p: PF, nf: NF, inh: bool, ty: MT, t: JV, j: int)
    ensures cnts(p, nf, inh, ty, t, j) >= 0,
    decreases t, nkids(t) - j
{ if 0 <= j < nkids(t) { lemma_kid_smaller(t, j); lemma_cnt_pos(p, nf, inh, ty, kid(t, j)); lemma_cnts_pos(p, nf, inh, ty, t, j + 1); } }
// t2 is t with n2 in place of the i-th (from 0) eligible node n
pub open spec fn mut_at(p: PF, nf: NF, inh: bool, ty: MT, t: JV, i: int, t2: JV, n: JV, n2: JV) -> bool
    decreases t, nkids(t) + 1
{
    p_visit(p, nf(t)) && (if own(p, nf, inh, ty, t) == 1 && i == 0 { n == t && n2 == t2 }
        else { muts_at(p, nf, inh || p_below(p, nf(t)), ty, t, 0, i - own(p, nf, inh, ty, t), t2, n, n2) })
}
pub open spec fn muts_at(p: PF, nf: NF, inh: bool, ty: MT, t: JV, j: int, i: int, t2: JV, n: JV, n2: JV) -> bool
    decreases t, nkids(t) - j
    via muts_dec
{
    0 <= j < nkids(t) && (if i < cnt(p, nf, inh, ty, kid(t, j)) { mut_at(p, nf, inh, ty, kid(t, j), i, kid(t2, j), n, n2) && t2 == set_kid(t, j, kid(t2, j)) }
        else { muts_at(p, nf, inh, ty, t, j + 1, i - cnt(p, nf, inh, ty, kid(t, j)), t2, n, n2) })
}
#[via_fn]
proof fn muts_dec(p: PF, nf: NF, inh: bool, ty: MT, t: JV, j: int, i: int, t2: JV, n: JV, n2: JV) { if 0 <= j < nkids(t) { lemma_kid_smaller(t, j); } }

impl<'a> MutableNodesCounter<'a> {
    spec fn has(self, k: MT) -> bool { self.mutator_map@.dom().contains(k) }
    spec fn stk(self) -> Seq<bool> { self.skip_mutation_permission_checks@ }
    spec fn tab(self) -> Map<MT, u64> { self.counter_table@ }
    spec fn plus(self, b: Self, k: MT, n: int) -> bool { count(b.tab(), k) == count(self.tab(), k) + (if self.has(k) { n } else { 0 }) }
}
proof fn lemma_counter<'a>(s: MutableNodesCounter<'a>, t: JV, stop: bool, s2: MutableNodesCounter<'a>)
    requires trav(s, t, stop, s2),
    ensures
        !stop, s.same(s2), s2.stk() == s.stk(),
        forall|k: MT| #[trigger] s.plus(s2, k, cnt(s.pf(), s.nf(), top(s.stk()), k, t)),
    decreases t, nkids(t) + 1
{
    let (a, b) = choose|a: MutableNodesCounter<'a>, b: MutableNodesCounter<'a>| #[trigger] <MutableNodesCounter<'a> as Visitor<Value>>::s_enter(s, t, a) && trav_in(a, t, stop, b) && #[trigger] <MutableNodesCounter<'a> as Visitor<Value>>::s_exit(b, t, s2);
    assert(a == s && b == s2);
    if !p_visit(s.pf(), s.nf()(t)) {
    } else {
        let (c, d, e, f) = choose|c: MutableNodesCounter<'a>, d: MutableNodesCounter<'a>, e: MutableNodesCounter<'a>, f: MutableNodesCounter<'a>|
            #[trigger] <MutableNodesCounter<'a> as Visitor<Value>>::s_visit(a, t, false, c) && #[trigger] <MutableNodesCounter<'a> as Visitor<Value>>::s_children(c, t, true, d)
            && #[trigger] <MutableNodesCounter<'a> as Visitor<Value>>::s_start(d, t, e) && travs(e, t, 0, stop, f) && #[trigger] <MutableNodesCounter<'a> as Visitor<Value>>::s_end(f, t, b);
        lemma_counters(e, t, 0, stop, f);
        assert(s2.stk() =~= s.stk());
        assert forall|k: MT| #[trigger] s.plus(s2, k, cnt(s.pf(), s.nf(), top(s.stk()), k, t)) by {
            assert(count(c.counter_table@, k) == count(a.counter_table@, k) + (if a.has(k) { own(s.pf(), s.nf(), top(s.stk()), k, t) } else { 0 }));
            assert(e.plus(f, k, cnts(e.pf(), e.nf(), top(e.stk()), k, t, 0)));
            assert(e.has(k) == s.has(k));
        }
    }
}
proof fn lemma_counters<'a>(s: MutableNodesCounter<'a>, t: JV, j: int, stop: bool, s2: MutableNodesCounter<'a>)
    requires travs(s, t, j, stop, s2), 0 <= j,
    ensures
        !stop, s.same(s2), s2.stk() == s.stk(),
        forall|k: MT| #[trigger] s.plus(s2, k, cnts(s.pf(), s.nf(), top(s.stk()), k, t, j)),
    decreases t, nkids(t) - j
{
    if j < nkids(t) {
        lemma_kid_smaller(t, j);
        if stop && trav(s, kid(t, j), true, s2) {
            lemma_counter(s, kid(t, j), true, s2);
        } else {
            let m = choose|m: MutableNodesCounter<'a>| #[trigger] vx_tr(m) && trav(s, kid(t, j), false, m) && travs(m, t, j + 1, stop, s2);
            lemma_counter(s, kid(t, j), false, m);
            lemma_counters(m, t, j + 1, stop, s2);
            assert forall|k: MT| #[trigger] s.plus(s2, k, cnts(s.pf(), s.nf(), top(s.stk()), k, t, j)) by {
                assert(s.plus(m, k, cnt(s.pf(), s.nf(), top(s.stk()), k, kid(t, j))));
                assert(m.plus(s2, k, cnts(m.pf(), m.nf(), top(m.stk()), k, t, j + 1)));
            }
        }
    }
}
impl<'a> MutationMaker<'a> {
    spec fn ty(self) -> MT { self.mutator.typ() }
    spec fn stk(self) -> Seq<bool> { self.skip_mutation_permission_checks@ }
    spec fn left(self) -> int { self.index - self.current_index }
    // after a traversal of (part of) a tree holding c candidates: the wanted candidate was among them and was mutated, or all were passed
    #[verifier::prophetic]
    spec fn passed(self, b: Self, c: int, stop: bool) -> bool { !stop && self.same(b) && self.quiet(b) && b.stk() == self.stk() && b.left() == self.left() - c }
}
proof fn lemma_maker<'a>(s: MutationMaker<'a>, t: JV, t2: JV, stop: bool, s2: MutationMaker<'a>)
    requires travm(s, t, t2, stop, s2), s.left() >= 0, s.error is None,
    ensures
        s.same(s2),
        s.left() < cnt(s.pf(), s.nf(), top(s.stk()), s.ty(), t) ==> stop && exists|n: JV, n2: JV| #[trigger] mut_at(s.pf(), s.nf(), top(s.stk()), s.ty(), t, s.left(), t2, n, n2) && s2.done(s.ty(), n, n2),
        s.left() >= cnt(s.pf(), s.nf(), top(s.stk()), s.ty(), t) ==> t2 == t && s.passed(s2, cnt(s.pf(), s.nf(), top(s.stk()), s.ty(), t), stop),
    decreases t, nkids(t) + 1
{
    let (a, y, b) = choose|a: MutationMaker<'a>, y: JV, b: MutationMaker<'a>| #[trigger] <MutationMaker<'a> as VisitorMut<Value>>::s_enter(s, t, a) && travm_in(a, t, y, stop, b) && #[trigger] <MutationMaker<'a> as VisitorMut<Value>>::s_exit(b, y, t2, s2);
    assert(a == s && b == s2 && y == t2);
    if p_visit(s.pf(), s.nf()(t)) {
        let o = own(s.pf(), s.nf(), top(s.stk()), s.ty(), t);
        lemma_cnts_pos(s.pf(), s.nf(), top(s.stk()) || p_below(s.pf(), s.nf()(t)), s.ty(), t, 0);
        assert(s.elig(t) == (o == 1));
        if stop && <MutationMaker<'a> as VisitorMut<Value>>::s_visit(a, t, y, true, b) {
            assert(mut_at(s.pf(), s.nf(), top(s.stk()), s.ty(), t, 0, t2, t, t2));
        } else {
            let (c, d, e, f) = choose|c: MutationMaker<'a>, d: MutationMaker<'a>, e: MutationMaker<'a>, f: MutationMaker<'a>|
                #[trigger] <MutationMaker<'a> as VisitorMut<Value>>::s_visit(a, t, t, false, c) && #[trigger] <MutationMaker<'a> as VisitorMut<Value>>::s_children(c, t, true, d)
                && #[trigger] <MutationMaker<'a> as VisitorMut<Value>>::s_start(d, t, e) && same_shape(t, y) && travms(e, t, y, 0, stop, f) && #[trigger] <MutationMaker<'a> as VisitorMut<Value>>::s_end(f, y, b);
            assert(e.left() == s.left() - o);
            lemma_makers(e, t, y, 0, stop, f);
            let inh = top(s.stk()) || p_below(s.pf(), s.nf()(t));
            assert(top(e.stk()) == inh);
            if e.left() < cnts(e.pf(), e.nf(), top(e.stk()), e.ty(), t, 0) {
                let (n, n2) = choose|n: JV, n2: JV| #[trigger] muts_at(e.pf(), e.nf(), top(e.stk()), e.ty(), t, 0, e.left(), y, n, n2) && f.done(e.ty(), n, n2);
                assert(mut_at(s.pf(), s.nf(), top(s.stk()), s.ty(), t, s.left(), t2, n, n2));
                assert(s2.done(s.ty(), n, n2));
            } else {
                assert(s2.stk() =~= s.stk());
            }
        }
    }
}
proof fn lemma_makers<'a>(s: MutationMaker<'a>, t: JV, y: JV, j: int, stop: bool, s2: MutationMaker<'a>)
    requires travms(s, t, y, j, stop, s2), s.left() >= 0, s.error is None, 0 <= j <= nkids(t), same_shape(t, y), forall|k: int| 0 <= k < j ==> #[trigger] kid(y, k) == kid(t, k),
    ensures
        s.same(s2),
        s.left() < cnts(s.pf(), s.nf(), top(s.stk()), s.ty(), t, j) ==> stop && exists|n: JV, n2: JV| #[trigger] muts_at(s.pf(), s.nf(), top(s.stk()), s.ty(), t, j, s.left(), y, n, n2) && s2.done(s.ty(), n, n2),
        s.left() >= cnts(s.pf(), s.nf(), top(s.stk()), s.ty(), t, j) ==> y == t && s.passed(s2, cnts(s.pf(), s.nf(), top(s.stk()), s.ty(), t, j), stop),
    decreases t, nkids(t) - j
{
    if j == nkids(t) {
        lemma_shape_eq(t, y);
    } else {
        lemma_kid_smaller(t, j);
        let c = cnt(s.pf(), s.nf(), top(s.stk()), s.ty(), kid(t, j));
        lemma_cnts_pos(s.pf(), s.nf(), top(s.stk()), s.ty(), t, j + 1);
        if stop && travm(s, kid(t, j), kid(y, j), true, s2) && forall|k: int| j < k < nkids(t) ==> #[trigger] kid(y, k) == kid(t, k) {
            lemma_maker(s, kid(t, j), kid(y, j), true, s2);
            lemma_shape_upd(t, y, j);
            let (n, n2) = choose|n: JV, n2: JV| #[trigger] mut_at(s.pf(), s.nf(), top(s.stk()), s.ty(), kid(t, j), s.left(), kid(y, j), n, n2) && s2.done(s.ty(), n, n2);
            assert(muts_at(s.pf(), s.nf(), top(s.stk()), s.ty(), t, j, s.left(), y, n, n2));
        } else {
            let m = choose|m: MutationMaker<'a>| #[trigger] vx_tr(m) && travm(s, kid(t, j), kid(y, j), false, m) && travms(m, t, y, j + 1, stop, s2);
            lemma_maker(s, kid(t, j), kid(y, j), false, m);
            lemma_makers(m, t, y, j + 1, stop, s2);
            if s.left() < cnts(s.pf(), s.nf(), top(s.stk()), s.ty(), t, j) {
                let (n, n2) = choose|n: JV, n2: JV| #[trigger] muts_at(m.pf(), m.nf(), top(m.stk()), m.ty(), t, j + 1, m.left(), y, n, n2) && s2.done(m.ty(), n, n2);
                assert(muts_at(s.pf(), s.nf(), top(s.stk()), s.ty(), t, j, s.left(), y, n, n2));
                assert(s2.done(s.ty(), n, n2));
            }
        }
    }
}
// the paths recorded below a node reached along cur: cur and the node's own identifier, for every reachable node that has one (a later node with the same identifier overrides)
pub open spec fn down(f: IF, cur: Seq<u64>, t: JV) -> Seq<u64> { match f(t) { Some(i) => cur.push(i), None => cur } }
pub open spec fn paths(p: PF, nf: NF, f: IF, cur: Seq<u64>, t: JV, m: Map<u64, Seq<u64>>) -> Map<u64, Seq<u64>>
    decreases t, nkids(t) + 1
{
    if !p_visit(p, nf(t)) { m }
    else { paths_from(p, nf, f, down(f, cur, t), t, 0, match f(t) { Some(i) => m.insert(i, cur.push(i)), None => m }) }
}
pub open spec fn paths_from(p: PF, nf: NF, f: IF, cur: Seq<u64>, t: JV, j: int, m: Map<u64, Seq<u64>>) -> Map<u64, Seq<u64>>
    decreases t, nkids(t) - j
    via paths_dec
{ if j < 0 || j >= nkids(t) { m } else { paths_from(p, nf, f, cur, t, j + 1, paths(p, nf, f, cur, kid(t, j), m)) } }
#[via_fn]
proof fn paths_dec(p: PF, nf: NF, f: IF, cur: Seq<u64>, t: JV, j: int, m: Map<u64, Seq<u64>>) { if 0 <= j < nkids(t) { lemma_kid_smaller(t, j); } }
impl<'a> PathVisitor<'a> {
    spec fn cur(self) -> Seq<u64> { self.current_path@ }
    spec fn idf(self) -> IF { idn(self.id_maker) }
    spec fn map(self) -> Map<u64, Seq<u64>> { self.path_map@ }
}
proof fn lemma_pathv<'a>(s: PathVisitor<'a>, t: JV, stop: bool, s2: PathVisitor<'a>)
    requires trav(s, t, stop, s2),
    ensures !stop, s.same(s2), s2.cur() == s.cur(), s2.map() == paths(s.pf(), s.nf(), s.idf(), s.cur(), t, s.map()),
    decreases t, nkids(t) + 1
{
    let (a, b) = choose|a: PathVisitor<'a>, b: PathVisitor<'a>| #[trigger] <PathVisitor<'a> as Visitor<Value>>::s_enter(s, t, a) && trav_in(a, t, stop, b) && #[trigger] <PathVisitor<'a> as Visitor<Value>>::s_exit(b, t, s2);
    assert(a == s && b == s2);
    if p_visit(s.pf(), s.nf()(t)) {
        let (c, d, e, f) = choose|c: PathVisitor<'a>, d: PathVisitor<'a>, e: PathVisitor<'a>, f: PathVisitor<'a>|
            #[trigger] <PathVisitor<'a> as Visitor<Value>>::s_visit(a, t, false, c) && #[trigger] <PathVisitor<'a> as Visitor<Value>>::s_children(c, t, true, d)
            && #[trigger] <PathVisitor<'a> as Visitor<Value>>::s_start(d, t, e) && travs(e, t, 0, stop, f) && #[trigger] <PathVisitor<'a> as Visitor<Value>>::s_end(f, t, b);
        lemma_pathvs(e, t, 0, stop, f);
        assert(s2.cur() =~= s.cur());
    }
}
proof fn lemma_pathvs<'a>(s: PathVisitor<'a>, t: JV, j: int, stop: bool, s2: PathVisitor<'a>)
    requires travs(s, t, j, stop, s2), 0 <= j,
    ensures !stop, s.same(s2), s2.cur() == s.cur(), s2.map() == paths_from(s.pf(), s.nf(), s.idf(), s.cur(), t, j, s.map()),
    decreases t, nkids(t) - j
{
    if j < nkids(t) {
        lemma_kid_smaller(t, j);
        if stop && trav(s, kid(t, j), true, s2) { lemma_pathv(s, kid(t, j), true, s2); }
        else {
            let m = choose|m: PathVisitor<'a>| #[trigger] vx_tr(m) && trav(s, kid(t, j), false, m) && travs(m, t, j + 1, stop, s2);
            lemma_pathv(s, kid(t, j), false, m);
            lemma_pathvs(m, t, j + 1, stop, s2);
        }
    }
}
