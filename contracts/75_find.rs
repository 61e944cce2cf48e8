// ---- the records in order --------------------------------------------------------------------
pub open spec fn rwK(m: Mem, R: Seq<Rec>, j: int) -> Seq<u8> { rawK(m, R[j].k) }
pub open spec fn kvOK(h: Heap, R: Seq<Rec>) -> bool { forall|j: int| 0 <= j < R.len() ==> keyOK(h, (#[trigger] R[j]).k) && valOK(h, R[j].v) }
pub open spec fn asc(m: Mem, R: Seq<Rec>) -> bool { forall|i: int, j: int| 0 <= i < j < R.len() ==> lexcmp(#[trigger] rwK(m, R, i), #[trigger] rwK(m, R, j)) < 0 }
pub open spec fn kOK(h: Heap, x: Seq<Chd>) -> bool { forall|j: int| 1 <= j < x.len() ==> keyOK(h, (#[trigger] x[j]).k) }
pub open spec fn xwK(m: Mem, x: Seq<Chd>, j: int) -> Seq<u8> { rawK(m, x[j].k) }
pub open spec fn kAsc(m: Mem, x: Seq<Chd>) -> bool { forall|i: int, j: int| 1 <= i < j < x.len() ==> lexcmp(#[trigger] xwK(m, x, i), #[trigger] xwK(m, x, j)) < 0 }
pub open spec fn tO(h: Heap, t: T_BPTree) -> bool { kvOK(h, tR(h, t)) && asc(h.mem, tR(h, t)) }
pub open spec fn tI(h: Heap, t: T_BPTree) -> bool { ixT(h, t, noix(), noix()) && lfT(h, t, noix(), noix()) && tO(h, t) }
pub proof fn lem_roff_mono(m: Mem, x: Seq<Chd>, i: int, j: int)
    requires 0 <= i <= j <= x.len(), forall|k: int| 0 <= k < x.len() ==> lp(m, #[trigger] x[k]).len() >= 1
    ensures roff(m, x, i) + (j - i) <= roff(m, x, j)
    decreases j - i
{ if i < j { lem_roff_mono(m, x, i, j - 1); lem_fr_at(m, x, j - 1); } }
pub proof fn lem_off_mono(m: Mem, x: Seq<Chd>, i: int, j: int)
    requires 0 <= i <= j <= x.len(), forall|k: int| 0 <= k < x.len() ==> kidsA(m, #[trigger] x[k]).len() >= 1
    ensures off(m, x, i) + (j - i) <= off(m, x, j)
    decreases j - i
{ if i < j { lem_off_mono(m, x, i, j - 1); lem_exf_at(m, x, j - 1); } }
pub proof fn lem_lp1(h: Heap, t: T_BPTree, xa: int, xk: int)
    requires lfT(h, t, xa, xk), tE(h, t).len() >= 2
    ensures forall|k: int| 0 <= k < tE(h, t).len() ==> lp(h.mem, #[trigger] tE(h, t)[k]).len() >= 1
{ let E = tE(h, t); assert forall|k: int| 0 <= k < E.len() implies lp(h.mem, #[trigger] E[k]).len() >= 1 by { assert(lf1(h.mem, E, xa, xk, k)); assert(lrecs(bp(h.mem, E[k].a)).len() == ln(bp(h.mem, E[k].a))); } }
pub proof fn lem_off0(m: Mem, x: Seq<Chd>)
    ensures off(m, x, 0) == 0, roff(m, x, 0) == 0, off(m, x, x.len() as int) == exf(m, x).len(), roff(m, x, x.len() as int) == fr(m, x).len()
{ assert(x.subrange(0, 0) =~= Seq::<Chd>::empty()); assert(x.subrange(0, x.len() as int) =~= x); }
// the separator of leaf j is the key of its first record
pub proof fn lem_E_sep(h: Heap, t: T_BPTree, xa: int, j: int)
    requires lfT(h, t, xa, noix()), 1 <= j < tE(h, t).len()
    ensures j <= roff(h.mem, tE(h, t), j) < tR(h, t).len(), tE(h, t)[j].k == tR(h, t)[roff(h.mem, tE(h, t), j)].k
{
    let E = tE(h, t); let m = h.mem; lem_lp1(h, t, xa, noix()); lem_roff_mono(m, E, 0, j); lem_off0(m, E); lem_fr_at(m, E, j); assert(lf1(m, E, xa, noix(), j)); assert(lp(m, E[j]).len() >= 1);
    let c = lp(m, E[j]); assert(fr(m, E)[roff(m, E, j) + 0] == c[0]);
}
pub proof fn lem_E_keys(h: Heap, t: T_BPTree, xa: int)
    requires lfT(h, t, xa, noix()), tO(h, t)
    ensures kOK(h, tE(h, t)), kAsc(h.mem, tE(h, t))
{
    let E = tE(h, t); let m = h.mem; let R = tR(h, t);
    assert forall|j: int| 1 <= j < E.len() implies keyOK(h, (#[trigger] E[j]).k) by { lem_E_sep(h, t, xa, j); let o = roff(m, E, j); assert(keyOK(h, R[o].k)); }
    assert forall|i: int, j: int| 1 <= i < j < E.len() implies lexcmp(#[trigger] xwK(m, E, i), #[trigger] xwK(m, E, j)) < 0 by {
        lem_E_sep(h, t, xa, i); lem_E_sep(h, t, xa, j); lem_lp1(h, t, xa, noix()); lem_roff_mono(m, E, i, j);
        assert(lexcmp(rwK(m, R, roff(m, E, i)), rwK(m, R, roff(m, E, j))) < 0);
    }
}
// the first child of a node has the key of the node
pub proof fn lem_lev_first(h: Heap, t: T_BPTree, d: int, j: int)
    requires z_heap_ok(h), ixT(h, t, noix(), noix()), 0 <= d < t.height - 1, 0 <= j < tL(h, t)[d].len()
    ensures ({ let L = tL(h, t); let o = off(h.mem, L[d], j); j <= o < L[d + 1].len() && L[d + 1][o].k == L[d][j].k && L[d + 1] == exf(h.mem, L[d]) && (j == 0 ==> o == 0) }), forall|k: int| 0 <= k < tL(h, t)[d].len() ==> kidsA(h.mem, #[trigger] tL(h, t)[d][k]).len() >= 1
{
    let L = tL(h, t); let m = h.mem; lem_levs(m, t.rootAddr, t.height); assert(rep1(m, L, d)); lem_off0(m, L[d]);
    assert forall|k: int| 0 <= k < L[d].len() implies kidsA(m, #[trigger] L[d][k]).len() >= 1 by { assert(inL(L, d, k)); assert(nodeP(m, adr(L, d, k), d, noix(), noix())); assert(cchs(bp(m, L[d][k].a)).len() == cn(bp(m, L[d][k].a))); }
    lem_off_mono(m, L[d], 0, j); lem_exf_at(m, L[d], j); let c = kidsA(m, L[d][j]); assert(c.len() >= 1); assert(L[d + 1][off(m, L[d], j) + 0] == c[0]);
}
pub proof fn lem_lev_keys(h: Heap, t: T_BPTree, d: int)
    requires z_heap_ok(h), ixT(h, t, noix(), noix()), kOK(h, tE(h, t)), kAsc(h.mem, tE(h, t)), 0 <= d < t.height
    ensures kOK(h, tL(h, t)[d]), kAsc(h.mem, tL(h, t)[d])
    decreases t.height - d
{
    if d < t.height - 1 {
        lem_lev_keys(h, t, d + 1); let L = tL(h, t); let m = h.mem; let x = L[d]; let y = L[d + 1];
        assert forall|j: int| 1 <= j < x.len() implies keyOK(h, (#[trigger] x[j]).k) by { lem_lev_first(h, t, d, j); assert(keyOK(h, y[off(m, x, j)].k)); }
        assert forall|i: int, j: int| 1 <= i < j < x.len() implies lexcmp(#[trigger] xwK(m, x, i), #[trigger] xwK(m, x, j)) < 0 by {
            lem_lev_first(h, t, d, i); lem_lev_first(h, t, d, j); lem_off_mono(m, x, i, j); assert(lexcmp(xwK(m, y, off(m, x, i)), xwK(m, y, off(m, x, j))) < 0);
        }
    }
}
// ---- the way down ---------------------------------------------------------------------------------
pub proof fn lem_posn(m: Mem, root: int, L: Seq<Seq<Chd>>, P: Seq<T_recordPathComponent>, n: int, d: int)
    requires rep(m, root, L), pathOK(m, root, P, n), n <= L.len(), 0 <= d < n
    ensures inL(L, d, pos(m, L, P, d)), L[d][pos(m, L, P, d)].a == P[d].NodeAddr
    decreases d
{
    if d > 0 {
        lem_posn(m, root, L, P, n, d - 1); let p = pos(m, L, P, d - 1);
        assert(rep1(m, L, d - 1)); assert(pstep(m, P, d - 1)); lem_exf_at(m, L[d - 1], p);
        let c = kidsA(m, L[d - 1][p]); let j = P[d - 1].RecordOrNonLeafChildIndex;
        assert(c.len() == cn(bp(m, P[d - 1].NodeAddr))); assert(L[d][off(m, L[d - 1], p) + j] == c[j]);
    }
}
pub proof fn lem_pos_same(m: Mem, L: Seq<Seq<Chd>>, P: Seq<T_recordPathComponent>, Q: Seq<T_recordPathComponent>, d: int)
    requires forall|x: int| 0 <= x < d ==> (#[trigger] P[x]).RecordOrNonLeafChildIndex == Q[x].RecordOrNonLeafChildIndex
    ensures pos(m, L, P, d) == pos(m, L, Q, d)
    decreases d
{ if d > 0 { lem_pos_same(m, L, P, Q, d - 1); assert(P[d - 1].RecordOrNonLeafChildIndex == Q[d - 1].RecordOrNonLeafChildIndex); } }
// entry p of a row is where the key belongs
pub open spec fn bnd(h: Heap, x: Seq<Chd>, p: int, key: Sl) -> bool {
    let G = z_seq_mem(h, key);
    if isMin(key) { p == 0 } else if isMax(key) { p == x.len() - 1 } else {
        (p >= 1 ==> lexcmp(xwK(h.mem, x, p), G) <= 0) && (p + 1 < x.len() ==> lexcmp(xwK(h.mem, x, p + 1), G) > 0)
    }
}
pub open spec fn dinv(h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, d: int, key: Sl) -> bool {
    pathOK(h.mem, t.rootAddr, P, d + 1) && d < t.height && bnd(h, tL(h, t)[d], pos(h.mem, tL(h, t), P, d), key)
}
pub open spec fn cIx(h: Heap, q: Seq<u8>, i: int, key: Sl) -> bool {
    let G = z_seq_mem(h, key);
    0 <= i < cn(q) && (if isMin(key) { i == 0 } else if isMax(key) { i == cn(q) - 1 } else {
        (i >= 1 ==> lexcmp(craw(h.mem, q, i), G) <= 0) && (i + 1 < cn(q) ==> lexcmp(craw(h.mem, q, i + 1), G) > 0)
    })
}
pub proof fn lem_desc_at(h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, d: int)
    requires z_heap_ok(h), tI(h, t), pathOK(h.mem, t.rootAddr, P, d + 1), 0 <= d < t.height - 1
    ensures ({ let a = P[d].NodeAddr; h.al.contains(a) && a > 0 && nlP(h, z_access(h, a)) && z_access(h, a).blk == -1 - a && cn(bp(h.mem, a)) >= 2 && ckeysFmt(h, bp(h.mem, a)) && ckeysAsc(h.mem, bp(h.mem, a)) && cchs(bp(h.mem, a)).len() == cn(bp(h.mem, a)) })
{
    let L = tL(h, t); let m = h.mem; lem_levs(m, t.rootAddr, t.height); lem_posn(m, t.rootAddr, L, P, d + 1, d); let p = pos(m, L, P, d); let a = P[d].NodeAddr; let q = bp(m, a);
    assert(adr(L, d, p) == a); assert(nodeP(m, adr(L, d, p), d, noix(), noix())); assert(h.al.contains(adr(L, d, p))); lem_nlP(h, a);
    lem_E_keys(h, t, noix()); lem_lev_keys(h, t, d + 1); assert(rep1(m, L, d)); lem_exf_at(m, L[d], p); let c = kidsA(m, L[d][p]); let o = off(m, L[d], p); let y = L[d + 1];
    assert forall|j: int| 1 <= j < cn(q) implies keyOK(h, (#[trigger] cchs(q)[j]).k) by { assert(y[o + j] == c[j]); assert(c[j] == cchs(q)[j]); }
    assert forall|i: int, j: int| 1 <= i < j < cn(q) implies lexcmp(#[trigger] craw(m, q, i), #[trigger] craw(m, q, j)) < 0 by { assert(y[o + i] == c[i] && y[o + j] == c[j]); assert(c[i] == cchs(q)[i] && c[j] == cchs(q)[j]); assert(lexcmp(xwK(m, y, o + i), xwK(m, y, o + j)) < 0); }
}
pub proof fn lem_desc(h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, Q: Seq<T_recordPathComponent>, d: int, i: int, key: Sl)
    requires z_heap_ok(h), tI(h, t), dinv(h, t, P, d, key), 0 <= d < t.height - 1, cIx(h, bp(h.mem, P[d].NodeAddr), i, key),
        Q.len() == d + 2, forall|x: int| 0 <= x < d ==> #[trigger] Q[x] == P[x], Q[d] == (T_recordPathComponent { NodeAddr: P[d].NodeAddr, RecordOrNonLeafChildIndex: i }), Q[d + 1].NodeAddr == cchs(bp(h.mem, P[d].NodeAddr))[i].a,
    ensures dinv(h, t, Q, d + 1, key)
{
    let L = tL(h, t); let m = h.mem; lem_levs(m, t.rootAddr, t.height); lem_posn(m, t.rootAddr, L, P, d + 1, d); lem_desc_at(h, t, P, d); let p = pos(m, L, P, d); let a = P[d].NodeAddr; let q = bp(m, a);
    assert forall|x: int| 0 <= x < d + 1 implies #[trigger] pstep(m, Q, x) by { if x < d { assert(pstep(m, P, x)); assert(Q[x] == P[x]); if x + 1 < d { assert(Q[x + 1] == P[x + 1]); } } }
    if d > 0 { assert(Q[0] == P[0]); }
    lem_pos_same(m, L, P, Q, d);
    assert(rep1(m, L, d)); lem_exf_at(m, L[d], p); let c = kidsA(m, L[d][p]); let o = off(m, L[d], p); let y = L[d + 1]; let x = L[d];
    assert(pos(m, L, Q, d + 1) == o + i);
    lem_lev_first(h, t, d, p); assert(y[o + i] == c[i]); lem_off0(m, x);
    if i + 1 < c.len() { assert(y[o + (i + 1)] == c[i + 1]); } else if p + 1 < x.len() { lem_lev_first(h, t, d, p + 1); } else { assert(p + 1 == x.len()); assert(y.len() == o + c.len()); }
}
// ---- the result of a search ----------------------------------------------------------------------
pub open spec fn fAt(h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>) -> int {
    roff(h.mem, tE(h, t), pos(h.mem, tL(h, t), P, t.height - 1)) + P[t.height - 1].RecordOrNonLeafChildIndex
}
pub open spec fn fpath(h: Heap, t: T_BPTree, rp: Sl) -> bool {
    z_wf_c_recordPathComponent(h, rp) && rp.ep == 0 && rp.blk >= 0 && pathOK(h.mem, t.rootAddr, pth(h, rp), t.height)
}
pub open spec fn fpost(h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, ok: bool, key: Sl) -> bool {
    let E = tE(h, t); let R = tR(h, t); let p = pos(h.mem, tL(h, t), P, t.height - 1); let i = P[t.height - 1].RecordOrNonLeafChildIndex; let q = bp(h.mem, P[t.height - 1].NodeAddr); let o = fAt(h, t, P);
    &&& 0 <= p < E.len() && E[p].a == P[t.height - 1].NodeAddr && 0 <= i <= ln(q) && 0 <= o <= R.len() && (ok ==> i < ln(q) && o < R.len()) && (i < ln(q) ==> o < R.len() && R[o] == lrecs(q)[i])
    &&& if R.len() == 0 { !ok && i == 0 && p == 0 && t.height == 1 } else if isMin(key) { ok && o == 0 } else if isMax(key) { ok && o == R.len() - 1 } else { fHit(h, R, o, ok, key) && (!ok ==> i >= 1 || p == 0) }
}
pub open spec fn fHit(h: Heap, R: Seq<Rec>, o: int, ok: bool, key: Sl) -> bool {
    let G = z_seq_mem(h, key);
    &&& ok ==> o < R.len() && rwK(h.mem, R, o) == G
    &&& forall|j: int| 0 <= j < o ==> lexcmp(#[trigger] rwK(h.mem, R, j), G) < 0
    &&& forall|j: int| o <= j < R.len() && !(ok && j == o) ==> lexcmp(#[trigger] rwK(h.mem, R, j), G) > 0
}
pub proof fn lem_empty(h: Heap, t: T_BPTree)
    requires z_heap_ok(h), ixT(h, t, noix(), noix()), lfT(h, t, noix(), noix()), tR(h, t).len() == 0
    ensures t.height == 1, tE(h, t).len() == 1, tE(h, t) == root1(t.rootAddr)
{
    let E = tE(h, t); let L = tL(h, t); lem_levs(h.mem, t.rootAddr, t.height);
    if E.len() >= 2 { lem_E_sep(h, t, noix(), 1); }
    if t.height >= 2 { assert(L[0] == root1(t.rootAddr)); lem_lev_len(h, t, t.height - 1); }
    assert(L[0] == root1(t.rootAddr));
}
// a tree with index nodes has at least two leaves
pub proof fn lem_lev_len(h: Heap, t: T_BPTree, d: int)
    requires z_heap_ok(h), ixT(h, t, noix(), noix()), 1 <= d < t.height
    ensures tL(h, t)[d].len() >= 2
    decreases d
{
    let L = tL(h, t); let m = h.mem; lem_levs(m, t.rootAddr, t.height); assert(rep1(m, L, d - 1));
    if d > 1 { lem_lev_len(h, t, d - 1); } else { assert(L[0] == root1(t.rootAddr)); }
    assert(inL(L, d - 1, 0)); assert(nodeP(m, adr(L, d - 1, 0), d - 1, noix(), noix())); lem_exf_at(m, L[d - 1], 0); assert(cchs(bp(m, L[d - 1][0].a)).len() == cn(bp(m, L[d - 1][0].a)));
}
pub proof fn lem_leaf_at(h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>)
    requires z_heap_ok(h), tI(h, t), pathOK(h.mem, t.rootAddr, P, t.height), tR(h, t).len() >= 1
    ensures ({ let a = P[t.height - 1].NodeAddr; let q = bp(h.mem, a); h.al.contains(a) && a > 0 && leafP(h, z_access(h, a)) && z_access(h, a).blk == -1 - a && ln(q) >= 1 && keysFmt(h, q) && keysAsc(h.mem, q) && lrecs(q).len() == ln(q) })
{
    let L = tL(h, t); let m = h.mem; let E = tE(h, t); let R = tR(h, t); lem_lonpath(h, t, P, noix(), noix(), noix(), noix()); let p = pos(m, L, P, t.height - 1); let a = P[t.height - 1].NodeAddr; let q = bp(m, a);
    lem_fr_at(m, E, p); let o = roff(m, E, p); let c = lp(m, E[p]); lem_off0(m, E); lem_E(h, t, noix(), noix());
    if t.height >= 2 { lem_lev_len(h, t, t.height - 1); } else { lem_levs(m, t.rootAddr, t.height); assert(L[0] == root1(t.rootAddr)); assert(R.len() == o + c.len()); }
    assert forall|j: int| 0 <= j < ln(q) implies keyOK(h, (#[trigger] lrecs(q)[j]).k) by { assert(R[o + j] == c[j]); }
    assert forall|i: int, j: int| 0 <= i < j < ln(q) implies lexcmp(#[trigger] lraw(m, q, i), #[trigger] lraw(m, q, j)) < 0 by { assert(R[o + i] == c[i] && R[o + j] == c[j]); assert(lexcmp(rwK(m, R, o + i), rwK(m, R, o + j)) < 0); }
}
pub open spec fn lIx(h: Heap, q: Seq<u8>, i: int, ok: bool, key: Sl) -> bool {
    let G = z_seq_mem(h, key); let n = ln(q);
    if isMin(key) { i == 0 && ok } else if isMax(key) { i == n - 1 && ok } else {
        &&& 0 <= i <= n && ok == (i < n && lraw(h.mem, q, i) == G)
        &&& forall|j: int| 0 <= j < i ==> lexcmp(#[trigger] lraw(h.mem, q, j), G) < 0
        &&& forall|j: int| i <= j < n ==> lexcmp(#[trigger] lraw(h.mem, q, j), G) >= (if ok && j == i { 0int } else { 1 })
    }
}
pub proof fn lem_found(h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, Q: Seq<T_recordPathComponent>, i: int, ok: bool, key: Sl)
    requires z_heap_ok(h), tI(h, t), dinv(h, t, P, t.height - 1, key), lIx(h, bp(h.mem, P[t.height - 1].NodeAddr), i, ok, key), tR(h, t).len() >= 1,
        Q.len() == t.height, forall|x: int| 0 <= x < t.height - 1 ==> #[trigger] Q[x] == P[x], Q[t.height - 1] == (T_recordPathComponent { NodeAddr: P[t.height - 1].NodeAddr, RecordOrNonLeafChildIndex: i }),
    ensures pathOK(h.mem, t.rootAddr, Q, t.height), fpost(h, t, Q, ok, key)
{
    let n = t.height - 1; let L = tL(h, t); let m = h.mem; let E = tE(h, t); let R = tR(h, t); let G = z_seq_mem(h, key);
    lem_pathR(m, t.rootAddr, P, Q, t.height); lem_pos_same(m, L, P, Q, n); lem_lonpath(h, t, P, noix(), noix(), noix(), noix()); lem_leaf_at(h, t, P);
    let p = pos(m, L, P, n); let q = bp(m, P[n].NodeAddr); let c = lp(m, E[p]); let o = roff(m, E, p); lem_fr_at(m, E, p); lem_off0(m, E);
    assert(R.len() >= o + c.len());
    if i < c.len() { assert(R[o + i] == c[i]); }
    if !isMin(key) && !isMax(key) {
        assert forall|j: int| 0 <= j < o + i implies lexcmp(#[trigger] rwK(m, R, j), G) < 0 by {
            if j >= o { assert(R[o + (j - o)] == c[j - o]); assert(lexcmp(lraw(m, q, j - o), G) < 0); }
            else { assert(p >= 1); lem_E_sep(h, t, noix(), p); assert(lexcmp(xwK(m, E, p), G) <= 0); assert(lexcmp(rwK(m, R, j), rwK(m, R, o)) < 0); lem_lex_trans(rwK(m, R, j), rwK(m, R, o), G); }
        }
        assert forall|j: int| o + i <= j < R.len() && !(ok && j == o + i) implies lexcmp(#[trigger] rwK(m, R, j), G) > 0 by {
            if j < o + c.len() { assert(R[o + (j - o)] == c[j - o]); assert(lexcmp(lraw(m, q, j - o), G) >= 1); }
            else {
                assert(p + 1 < E.len()) by { if p + 1 == E.len() { assert(R.len() == o + c.len()); } }
                lem_E_sep(h, t, noix(), p + 1); assert(lexcmp(xwK(m, E, p + 1), G) > 0); let u = o + c.len(); assert(rwK(m, R, u as int) == xwK(m, E, p + 1));
                lem_lex_anti(rwK(m, R, j), G); lem_lex_anti(rwK(m, R, u as int), G);
                if j > u { assert(lexcmp(rwK(m, R, u as int), rwK(m, R, j)) < 0); lem_lex_anti(rwK(m, R, u as int), rwK(m, R, j)); lem_lex_trans(G, rwK(m, R, u as int), rwK(m, R, j)); }
            }
        }
        if !ok && i == 0 && p >= 1 { lem_E_sep(h, t, noix(), p); assert(R[o + 0] == c[0]); assert(lexcmp(lraw(m, q, 0), G) >= 1); assert(xwK(m, E, p) == lraw(m, q, 0)); }
    } else if !isMin(key) { assert(p == E.len() - 1); assert(R.len() == o + c.len()); }
}
// ---- the parts of findRecord ---------------------------------------------------------------------
pub open spec fn hEq(h0: Heap, h: Heap) -> bool { h.mem == h0.mem && h.al == h0.al && h.sp == h0.sp && h.ep == h0.ep && h.nxt >= h0.nxt && z_heap_ok(h) }
pub proof fn lem_tI_same(h0: Heap, h: Heap, t: T_BPTree)
    requires tI(h0, t), hEq(h0, h)
    ensures tI(h, t), tR(h, t) == tR(h0, t), tE(h, t) == tE(h0, t), tL(h, t) == tL(h0, t),
        forall|P: Seq<T_recordPathComponent>, d: int, key: Sl| #[trigger] dinv(h, t, P, d, key) == dinv(h0, t, P, d, key),
        forall|P: Seq<T_recordPathComponent>, ok: bool, key: Sl| #[trigger] fpost(h, t, P, ok, key) == fpost(h0, t, P, ok, key),
{
    let R = tR(h, t);
    assert forall|P: Seq<T_recordPathComponent>, ok: bool, key: Sl| #[trigger] fpost(h, t, P, ok, key) == fpost(h0, t, P, ok, key) by {
        let o = fAt(h, t, P); assert(fHit(h, R, o, ok, key) == fHit(h0, R, o, ok, key)); }
}
pub open spec fn snoc(P: Seq<T_recordPathComponent>, a: int, i: int) -> Seq<T_recordPathComponent> { P.push(T_recordPathComponent { NodeAddr: a, RecordOrNonLeafChildIndex: i }) }
pub proof fn lem_find0(h: Heap, t: T_BPTree, key: Sl)
    requires z_heap_ok(h), tI(h, t), tR(h, t).len() == 0
    ensures ({ let Q = snoc(Seq::empty(), t.rootAddr, 0); t.height == 1 && pathOK(h.mem, t.rootAddr, Q, 1) && fpost(h, t, Q, false, key) })
{
    lem_empty(h, t); let Q = snoc(Seq::empty(), t.rootAddr, 0); let E = tE(h, t); lem_lonpath(h, t, Q, noix(), noix(), noix(), noix()); lem_off0(h.mem, E); assert(lf1(h.mem, E, noix(), noix(), 0));
    lem_fr_at(h.mem, E, 0); assert(lp(h.mem, E[0]).len() == 0);
}
// at the root
pub proof fn lem_findS(h: Heap, t: T_BPTree, key: Sl)
    requires z_heap_ok(h), tI(h, t)
    ensures dinv(h, t, snoc(Seq::empty(), t.rootAddr, 0), 0, key), t.height >= 1
{ let L = tL(h, t); lem_levs(h.mem, t.rootAddr, t.height); assert(L[0] == root1(t.rootAddr)); assert(L[0].len() == 1); }
// what LocateChild, GetChildAddr and the next round need
pub proof fn lem_findC(h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, a: int, key: Sl)
    requires z_heap_ok(h), tI(h, t), dinv(h, t, snoc(P, a, 0), P.len() as int, key), P.len() + 1 < t.height
    ensures h.al.contains(a) && a > 0 && nlP(h, z_access(h, a)) && z_access(h, a).blk == -1 - a && cn(bp(h.mem, a)) >= 2 && ckeysFmt(h, bp(h.mem, a)) && ckeysAsc(h.mem, bp(h.mem, a)) && cchs(bp(h.mem, a)).len() == cn(bp(h.mem, a)),
        forall|i: int| #[trigger] cIx(h, bp(h.mem, a), i, key) ==> dinv(h, t, snoc(snoc(P, a, i), cchs(bp(h.mem, a))[i].a, 0), P.len() as int + 1, key)
{
    let Q = snoc(P, a, 0); lem_desc_at(h, t, Q, P.len() as int);
    assert forall|i: int| #[trigger] cIx(h, bp(h.mem, a), i, key) implies dinv(h, t, snoc(snoc(P, a, i), cchs(bp(h.mem, a))[i].a, 0), P.len() as int + 1, key) by { lem_desc(h, t, Q, snoc(snoc(P, a, i), cchs(bp(h.mem, a))[i].a, 0), P.len() as int, i, key); }
}
pub proof fn lem_findL(h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, a: int, key: Sl)
    requires z_heap_ok(h), tI(h, t), dinv(h, t, snoc(P, a, 0), P.len() as int, key), P.len() + 1 == t.height, tR(h, t).len() >= 1
    ensures h.al.contains(a) && a > 0 && leafP(h, z_access(h, a)) && z_access(h, a).blk == -1 - a && ln(bp(h.mem, a)) >= 1 && keysFmt(h, bp(h.mem, a)) && keysAsc(h.mem, bp(h.mem, a)) && lrecs(bp(h.mem, a)).len() == ln(bp(h.mem, a)),
        forall|i: int, ok: bool| #[trigger] lIx(h, bp(h.mem, a), i, ok, key) ==> pathOK(h.mem, t.rootAddr, snoc(P, a, i), t.height) && fpost(h, t, snoc(P, a, i), ok, key)
{
    let Q = snoc(P, a, 0); lem_leaf_at(h, t, Q);
    assert forall|i: int, ok: bool| #[trigger] lIx(h, bp(h.mem, a), i, ok, key) implies pathOK(h.mem, t.rootAddr, snoc(P, a, i), t.height) && fpost(h, t, snoc(P, a, i), ok, key) by { lem_found(h, t, Q, snoc(P, a, i), i, ok, key); }
}
