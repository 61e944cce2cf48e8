// ---- index nodes -----------------------------------------------------------------------
pub open spec fn nOK(m: Mem, a: int) -> bool { bp(m, a).len() == 8192 && cok(bp(m, a)) && cn(bp(m, a)) >= 1 && cchs(bp(m, a))[0].k.len() == 0 }
// d: the depth of the node; the root may be small
pub open spec fn nB(m: Mem, a: int, d: int) -> bool {
    (d > 0 ==> cload(bp(m, a)) >= K_nonLeafUnderloadThreshold()) && cload(bp(m, a)) <= K_nonLeafOverloadThreshold() && cn(bp(m, a)) >= 2
}
// xa, xb: nodes whose load is about to be fixed
pub open spec fn nodeP(m: Mem, a: int, d: int, xa: int, xb: int) -> bool { nOK(m, a) && (a != xa && a != xb ==> nB(m, a, d)) }
pub open spec fn ixOK(m: Mem, L: Seq<Seq<Chd>>, xa: int, xb: int) -> bool {
    forall|d: int, j: int| inL(L, d, j) && d < L.len() - 1 ==> nodeP(m, #[trigger] adr(L, d, j), d, xa, xb)
}
pub open spec fn ekOK(E: Seq<Chd>) -> bool { forall|j: int| 0 <= j < E.len() ==> (#[trigger] E[j]).k.len() <= 257 }
pub open spec fn cnt(L: Seq<Seq<Chd>>, n: int) -> int decreases n { if n <= 0 { 0 } else { cnt(L, n - 1) + L[n - 1].len() } }
pub open spec fn noix() -> int { -1 }
// the entry of the node at depth d of a path
pub open spec fn pstep(m: Mem, P: Seq<T_recordPathComponent>, d: int) -> bool {
    0 <= P[d].RecordOrNonLeafChildIndex < cn(bp(m, P[d].NodeAddr)) && P[d + 1].NodeAddr == cchs(bp(m, P[d].NodeAddr))[P[d].RecordOrNonLeafChildIndex].a
}
pub open spec fn pathOK(m: Mem, root: int, P: Seq<T_recordPathComponent>, n: int) -> bool {
    P.len() == n && n >= 1 && P[0].NodeAddr == root && forall|d: int| 0 <= d < n - 1 ==> #[trigger] pstep(m, P, d)
}
pub open spec fn pos(m: Mem, L: Seq<Seq<Chd>>, P: Seq<T_recordPathComponent>, d: int) -> int decreases d {
    if d <= 0 { 0 } else { off(m, L[d - 1], pos(m, L, P, d - 1)) + P[d - 1].RecordOrNonLeafChildIndex }
}
pub proof fn lem_pos(m: Mem, root: int, L: Seq<Seq<Chd>>, P: Seq<T_recordPathComponent>, d: int)
    requires rep(m, root, L), pathOK(m, root, P, L.len() as int), 0 <= d < L.len()
    ensures inL(L, d, pos(m, L, P, d)), L[d][pos(m, L, P, d)].a == P[d].NodeAddr
    decreases d
{
    if d > 0 {
        lem_pos(m, root, L, P, d - 1); let p = pos(m, L, P, d - 1);
        assert(rep1(m, L, d - 1)); assert(pstep(m, P, d - 1)); lem_exf_at(m, L[d - 1], p);
        let c = kidsA(m, L[d - 1][p]); let j = P[d - 1].RecordOrNonLeafChildIndex;
        assert(c.len() == cn(bp(m, P[d - 1].NodeAddr))); assert(L[d][off(m, L[d - 1], p) + j] == c[j]);
    }
}
// the keys of all levels are among those of the last
pub proof fn lem_keys(m: Mem, root: int, L: Seq<Seq<Chd>>, xa: int, xb: int, d: int)
    requires rep(m, root, L), ixOK(m, L, xa, xb), ekOK(L[L.len() - 1]), 0 <= d < L.len()
    ensures ekOK(L[d])
    decreases L.len() - d
{
    if d < L.len() - 1 {
        lem_keys(m, root, L, xa, xb, d + 1);
        assert forall|j: int| 0 <= j < L[d].len() implies (#[trigger] L[d][j]).k.len() <= 257 by {
            assert(nodeP(m, adr(L, d, j), d, xa, xb)); assert(rep1(m, L, d)); lem_exf_at(m, L[d], j);
            let c = kidsA(m, L[d][j]); assert(c[0] == L[d + 1][off(m, L[d], j) + 0]); assert(c[0].k == L[d][j].k);
        }
    }
}
pub proof fn lem_node_keys(m: Mem, root: int, L: Seq<Seq<Chd>>, xa: int, xb: int, d: int, p: int)
    requires rep(m, root, L), ixOK(m, L, xa, xb), ekOK(L[L.len() - 1]), 0 <= d < L.len() - 1, inL(L, d, p)
    ensures chsMax(cchs(bp(m, L[d][p].a))), forall|j: int| 0 <= j < cn(bp(m, L[d][p].a)) ==> (#[trigger] cchs(bp(m, L[d][p].a))[j]).k.len() <= 257
{
    lem_keys(m, root, L, xa, xb, d + 1); assert(rep1(m, L, d)); lem_exf_at(m, L[d], p);
    let x = cchs(bp(m, L[d][p].a)); let c = kidsA(m, L[d][p]);
    assert(nodeP(m, adr(L, d, p), d, xa, xb));
    assert forall|j: int| 0 <= j < x.len() implies (#[trigger] x[j]).k.len() <= 257 by { if j > 0 { assert(c[j] == x[j]); assert(c[j] == L[d + 1][off(m, L[d], p) + j]); } }
}
// a node of depth i-1 and a window of its children changed
pub open spec fn hit(m0: Mem, L: Seq<Seq<Chd>>, i: int, p: int, lo: int, hi: int, d: int, j: int) -> bool {
    (d == i - 1 && j == p) || (d == i && off(m0, L[i - 1], p) + lo <= j < off(m0, L[i - 1], p) + hi)
}
pub open spec fn others(m0: Mem, m: Mem, L: Seq<Seq<Chd>>, i: int, p: int, lo: int, hi: int) -> bool {
    forall|d: int, j: int| inL(L, d, j) && d < L.len() - 1 && !hit(m0, L, i, p, lo, hi, d, j) ==> bp(m, #[trigger] adr(L, d, j)) == bp(m0, adr(L, d, j))
}
pub open spec fn reb_pre(m0: Mem, m: Mem, root: int, L: Seq<Seq<Chd>>, i: int, p: int, lo: int, hi: int, w: Seq<Chd>) -> bool {
    &&& rep(m0, root, L) && 1 <= i < L.len() && inL(L, i - 1, p) && others(m0, m, L, i, p, lo, hi)
    &&& 0 <= lo <= hi <= kidsA(m0, L[i - 1][p]).len() && kidsA(m, L[i - 1][p]) == winr(kidsA(m0, L[i - 1][p]), lo, hi, w)
    &&& i < L.len() - 1 ==> exf(m, w) == exf(m0, kidsA(m0, L[i - 1][p]).subrange(lo, hi))
}
pub open spec fn rebL(m0: Mem, L: Seq<Seq<Chd>>, i: int, p: int, lo: int, hi: int, w: Seq<Chd>) -> Seq<Seq<Chd>> {
    L.update(i, winr(L[i], off(m0, L[i - 1], p) + lo, off(m0, L[i - 1], p) + hi, w))
}
pub proof fn lem_reb(m0: Mem, m: Mem, root: int, L: Seq<Seq<Chd>>, i: int, p: int, lo: int, hi: int, w: Seq<Chd>)
    requires reb_pre(m0, m, root, L, i, p, lo, hi, w)
    ensures rep(m, root, rebL(m0, L, i, p, lo, hi, w)), 0 <= off(m0, L[i - 1], p), off(m0, L[i - 1], p) + hi <= L[i].len(),
        L[i].subrange(off(m0, L[i - 1], p) + lo, off(m0, L[i - 1], p) + hi) == kidsA(m0, L[i - 1][p]).subrange(lo, hi),
        rebL(m0, L, i, p, lo, hi, w)[i].len() == L[i].len() - (hi - lo) + w.len(),
{
    let K = rebL(m0, L, i, p, lo, hi, w); let x = L[i - 1]; let o = off(m0, x, p); let n = L.len() as int;
    assert forall|j: int| 0 <= j < x.len() && j != p implies bp(m, #[trigger] x[j].a) == bp(m0, x[j].a) by { assert(x[j].a == adr(L, i - 1, j)); assert(!hit(m0, L, i, p, lo, hi, i - 1, j)); }
    assert(rep1(m0, L, i - 1));
    lem_pwin(m0, m, x, p, lo, hi, w);
    if i < n - 1 {
        assert(rep1(m0, L, i));
        assert forall|j: int| 0 <= j < L[i].len() && !(o + lo <= j < o + hi) implies bp(m, #[trigger] L[i][j].a) == bp(m0, L[i][j].a) by { assert(L[i][j].a == adr(L, i, j)); assert(!hit(m0, L, i, p, lo, hi, i, j)); }
        lem_down(m0, m, L[i], o + lo, o + hi, w);
    }
    assert forall|d: int| 0 <= d < n - 1 implies #[trigger] rep1(m, K, d) by {
        assert(rep1(m0, L, d));
        if d != i - 1 && d != i {
            assert forall|j: int| 0 <= j < L[d].len() implies bp(m, #[trigger] L[d][j].a) == bp(m0, L[d][j].a) by { assert(L[d][j].a == adr(L, d, j)); assert(!hit(m0, L, i, p, lo, hi, d, j)); }
            lem_exf_same(m0, m, L[d]);
        }
    }
}
pub open spec fn isHit(m0: Mem, L: Seq<Seq<Chd>>, i: int, p: int, lo: int, hi: int, x: int) -> bool {
    x == noix() || x == L[i - 1][p].a || exists|k: int| lo <= k < hi && #[trigger] kidsA(m0, L[i - 1][p])[k].a == x
}
pub proof fn lem_isHit(m0: Mem, L: Seq<Seq<Chd>>, i: int, p: int, lo: int, hi: int, x: int, d: int, j: int)
    requires isHit(m0, L, i, p, lo, hi, x), dist(L), inL(L, d, j), 1 <= i < L.len(), inL(L, i - 1, p), rep1(m0, L, i - 1), !hit(m0, L, i, p, lo, hi, d, j), 0 <= lo <= hi <= kidsA(m0, L[i - 1][p]).len(), adr(L, d, j) > 0,
    ensures adr(L, d, j) != x
{
    if adr(L, d, j) == x {
        let o = off(m0, L[i - 1], p); let c = kidsA(m0, L[i - 1][p]); lem_exf_at(m0, L[i - 1], p);
        if x == L[i - 1][p].a { lem_dist(L, d, j, i - 1, p); }
        else { let k = choose|k: int| lo <= k < hi && #[trigger] c[k].a == x; assert(L[i][o + k] == c[k]); lem_dist(L, d, j, i, o + k); }
    }
}
pub proof fn lem_reb_ix(m0: Mem, m: Mem, root: int, L: Seq<Seq<Chd>>, i: int, p: int, lo: int, hi: int, w: Seq<Chd>, xa: int, xb: int, ya: int, yb: int)
    requires reb_pre(m0, m, root, L, i, p, lo, hi, w), ixOK(m0, L, xa, xb), dist(L),
        isHit(m0, L, i, p, lo, hi, xa), isHit(m0, L, i, p, lo, hi, xb),
        forall|d: int, j: int| inL(L, d, j) ==> #[trigger] adr(L, d, j) > 0,
        nodeP(m, L[i - 1][p].a, i - 1, ya, yb), i < L.len() - 1 ==> forall|k: int| 0 <= k < w.len() ==> nodeP(m, (#[trigger] w[k]).a, i, ya, yb),
    ensures ixOK(m, rebL(m0, L, i, p, lo, hi, w), ya, yb)
{
    lem_reb(m0, m, root, L, i, p, lo, hi, w);
    let K = rebL(m0, L, i, p, lo, hi, w); let o = off(m0, L[i - 1], p); let n = L.len() as int;
    assert(rep1(m0, L, i - 1));
    assert forall|d: int, j: int| inL(K, d, j) && d < K.len() - 1 implies nodeP(m, #[trigger] adr(K, d, j), d, ya, yb) by {
        if d == i && o + lo <= j < o + lo + w.len() { assert(K[d][j] == w[j - o - lo]); }
        else {
            let j2 = if d == i && j >= o + lo + w.len() { j - w.len() + (hi - lo) } else { j };
            assert(K[d][j] == L[d][j2]); assert(adr(K, d, j) == adr(L, d, j2));
            if d == i - 1 && j == p { }
            else {
                assert(!hit(m0, L, i, p, lo, hi, d, j2)); assert(nodeP(m0, adr(L, d, j2), d, xa, xb)); assert(bp(m, adr(L, d, j2)) == bp(m0, adr(L, d, j2)));
                lem_isHit(m0, L, i, p, lo, hi, xa, d, j2); lem_isHit(m0, L, i, p, lo, hi, xb, d, j2);
            }
        }
    }
}
pub proof fn lem_reb_path(m0: Mem, m: Mem, root: int, L: Seq<Seq<Chd>>, i: int, lo: int, hi: int, P: Seq<T_recordPathComponent>, Q: Seq<T_recordPathComponent>)
    requires rep(m0, root, L), dist(L), 1 <= i < L.len(), pathOK(m0, root, P, L.len() as int), others(m0, m, L, i, pos(m0, L, P, i - 1), lo, hi),
        lo <= P[i - 1].RecordOrNonLeafChildIndex < hi,
        Q.len() == P.len(), forall|d: int| 0 <= d < P.len() && d != i && d != i - 1 ==> #[trigger] Q[d] == P[d],
        Q[i - 1].NodeAddr == P[i - 1].NodeAddr, pstep(m, Q, i - 1), i < L.len() - 1 ==> pstep(m, Q, i),
    ensures pathOK(m, root, Q, L.len() as int)
{
    let n = L.len() as int; let p = pos(m0, L, P, i - 1); let o = off(m0, L[i - 1], p);
    assert forall|d: int| 0 <= d < n - 1 implies #[trigger] pstep(m, Q, d) by {
        assert(pstep(m0, P, d));
        if d != i && d != i - 1 {
            lem_pos(m0, root, L, P, d); let j = pos(m0, L, P, d);
            assert(adr(L, d, j) == P[d].NodeAddr); assert(!hit(m0, L, i, p, lo, hi, d, j));
            assert(Q[d] == P[d]); if d + 1 != i - 1 { assert(Q[d + 1] == P[d + 1]); }
        }
    }
}
// three pages changed: a node and two of its neighbouring children
pub proof fn lem_others(h0: Heap, h: Heap, root: int, L: Seq<Seq<Chd>>, i: int, p: int, lo: int, hi: int, a: int, b: int)
    requires rep(h0.mem, root, L), dist(L), alive(L, h0.al), z_heap_ok(h0), 1 <= i < L.len(), inL(L, i - 1, p), 0 <= lo < hi <= cn(bp(h0.mem, L[i - 1][p].a)),
        mem_kept3(h0, h, -1 - L[i - 1][p].a, -1 - a, -1 - b),
        !h0.al.contains(a) || exists|k: int| lo <= k < hi && #[trigger] kidsA(h0.mem, L[i - 1][p])[k].a == a,
        !h0.al.contains(b) || exists|k: int| lo <= k < hi && #[trigger] kidsA(h0.mem, L[i - 1][p])[k].a == b,
    ensures others(h0.mem, h.mem, L, i, p, lo, hi), forall|d: int, j: int| inL(L, d, j) ==> #[trigger] adr(L, d, j) > 0,
{
    let m0 = h0.mem; let m = h.mem; let o = off(m0, L[i - 1], p); let c = kidsA(m0, L[i - 1][p]); let pa = L[i - 1][p].a;
    assert(rep1(m0, L, i - 1)); lem_exf_at(m0, L[i - 1], p);
    assert forall|d: int, j: int| inL(L, d, j) implies #[trigger] adr(L, d, j) > 0 by { assert(h0.al.contains(adr(L, d, j))); }
    assert forall|d: int, j: int| inL(L, d, j) && d < L.len() - 1 && !hit(m0, L, i, p, lo, hi, d, j) implies bp(m, #[trigger] adr(L, d, j)) == bp(m0, adr(L, d, j)) by {
        let x = adr(L, d, j); assert(h0.al.contains(x));
        if x == pa { lem_dist(L, d, j, i - 1, p); }
        if x == a { let k = choose|k: int| lo <= k < hi && #[trigger] c[k].a == a; assert(L[i][o + k] == c[k]); lem_dist(L, d, j, i, o + k); }
        if x == b { let k = choose|k: int| lo <= k < hi && #[trigger] c[k].a == b; assert(L[i][o + k] == c[k]); lem_dist(L, d, j, i, o + k); }
        assert(m[-1 - x] == m0[-1 - x]);
    }
}
