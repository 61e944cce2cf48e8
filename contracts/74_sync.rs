// ---- the key of a leaf in the index changes -------------------------------------------------
pub proof fn lem_exf_kids(m0: Mem, m: Mem, x: Seq<Chd>, y: Seq<Chd>)
    requires y.len() == x.len(), forall|j: int| 0 <= j < x.len() ==> kidsA(m, #[trigger] y[j]) == kidsA(m0, x[j])
    ensures exf(m, y) == exf(m0, x)
    decreases x.len()
{
    if x.len() > 0 {
        let u = x.subrange(0, x.len() - 1); let v = y.subrange(0, y.len() - 1);
        assert forall|j: int| 0 <= j < u.len() implies kidsA(m, #[trigger] v[j]) == kidsA(m0, u[j]) by { assert(v[j] == y[j]); assert(u[j] == x[j]); }
        lem_exf_kids(m0, m, u, v); assert(kidsA(m, y[x.len() - 1]) == kidsA(m0, x[x.len() - 1]));
    }
}
// one child of one node of the level changes
pub proof fn lem_exf_upd(m0: Mem, m: Mem, x: Seq<Chd>, y: Seq<Chd>, p: int, i: int, c: Chd)
    requires y.len() == x.len(), 0 <= p < x.len(), forall|j: int| 0 <= j < x.len() && j != p ==> kidsA(m, #[trigger] y[j]) == kidsA(m0, x[j]),
        0 <= i < kidsA(m0, x[p]).len(), kidsA(m, y[p]) == kidsA(m0, x[p]).update(i, c),
    ensures 0 <= off(m0, x, p), off(m0, x, p) + i < exf(m0, x).len(), exf(m, y) == exf(m0, x).update(off(m0, x, p) + i, c), off(m, y, p) == off(m0, x, p)
{
    let n = x.len() as int; lem_exf_at(m0, x, p); lem_exf_at(m, y, p);
    let u0 = x.subrange(0, p); let u = y.subrange(0, p); let v0 = x.subrange(p + 1, n); let v = y.subrange(p + 1, n);
    assert forall|j: int| 0 <= j < u.len() implies kidsA(m, #[trigger] u[j]) == kidsA(m0, u0[j]) by { assert(u[j] == y[j]); assert(u0[j] == x[j]); }
    assert forall|j: int| 0 <= j < v.len() implies kidsA(m, #[trigger] v[j]) == kidsA(m0, v0[j]) by { assert(v[j] == y[p + 1 + j]); assert(v0[j] == x[p + 1 + j]); }
    lem_exf_kids(m0, m, u0, u); lem_exf_kids(m0, m, v0, v);
    let F = exf(m0, x); let G = exf(m, y); let o = off(m0, x, p); let c0 = kidsA(m0, x[p]); let c1 = kidsA(m, y[p]);
    assert(F =~= F.subrange(0, o) + c0 + F.subrange(o + c0.len(), F.len() as int));
    assert(G =~= G.subrange(0, o) + c1 + G.subrange(o + c1.len(), G.len() as int));
    assert(G =~= F.update(o + i, c));
}
pub proof fn lem_cnt_len(L: Seq<Seq<Chd>>, K: Seq<Seq<Chd>>, n: int)
    requires 0 <= n <= L.len(), K.len() == L.len(), forall|d: int| 0 <= d < n ==> (#[trigger] K[d]).len() == L[d].len()
    ensures cnt(K, n) == cnt(L, n)
    decreases n
{ if n > 0 { lem_cnt_len(L, K, n - 1); assert(K[n - 1].len() == L[n - 1].len()); } }
pub open spec fn zeroIx(P: Seq<T_recordPathComponent>, lo: int, hi: int) -> bool { forall|x: int| lo <= x < hi ==> (#[trigger] P[x]).RecordOrNonLeafChildIndex == 0 }
pub proof fn lem_pos0(m: Mem, L: Seq<Seq<Chd>>, P: Seq<T_recordPathComponent>, d: int)
    requires zeroIx(P, 0, d), 0 <= d
    ensures pos(m, L, P, d) == 0
    decreases d
{
    if d > 0 { lem_pos0(m, L, P, d - 1); assert(P[d - 1].RecordOrNonLeafChildIndex == 0); assert(L[d - 1].subrange(0, 0) =~= Seq::<Chd>::empty()); }
}
pub open spec fn syE(L: Seq<Seq<Chd>>, m0: Mem, P: Seq<T_recordPathComponent>, x: int, k: Seq<u8>) -> Seq<Chd> { L[x].update(pos(m0, L, P, x), Chd { k: k, a: P[x].NodeAddr }) }
pub open spec fn syL(L: Seq<Seq<Chd>>, m0: Mem, P: Seq<T_recordPathComponent>, d: int, k: Seq<u8>) -> Seq<Seq<Chd>> {
    Seq::new(L.len(), |x: int| if x <= d { L[x] } else { syE(L, m0, P, x, k) })
}
pub open spec fn sy_pre(h0: Heap, h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, d: int, k: Seq<u8>) -> bool {
    let pa = P[d].NodeAddr; let j = P[d].RecordOrNonLeafChildIndex; let c = cchs(bp(h0.mem, pa));
    &&& z_heap_ok(h0) && ixT(h0, t, noix(), noix()) && pathOK(h0.mem, t.rootAddr, P, t.height) && 0 <= d < t.height - 1 && j >= 1 && zeroIx(P, d + 1, t.height - 1) && k.len() <= 257
    &&& h.mem == h0.mem.insert(-1 - pa, bp(h.mem, pa)) && h.al == h0.al && h.sp == h0.sp && h.nxt >= h0.nxt
    &&& bp(h.mem, pa).len() == 8192 && cok(bp(h.mem, pa)) && cchs(bp(h.mem, pa)) == c.update(j, Chd { k: k, a: c[j].a })
}
pub proof fn lem_sync1(h0: Heap, h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, d: int, k: Seq<u8>, x: int)
    requires sy_pre(h0, h, t, P, d, k), 0 <= x < t.height - 1
    ensures rep1(h.mem, syL(tL(h0, t), h0.mem, P, d, k), x), pstep(h.mem, P, x)
{
    let L = tL(h0, t); let m0 = h0.mem; let m = h.mem; let K = syL(L, m0, P, d, k); let pa = P[d].NodeAddr; let i = P[x].RecordOrNonLeafChildIndex;
    lem_levs(m0, t.rootAddr, t.height); assert(rep1(m0, L, x)); assert(pstep(m0, P, x));
    lem_pos(m0, t.rootAddr, L, P, x); lem_pos(m0, t.rootAddr, L, P, x + 1); lem_pos(m0, t.rootAddr, L, P, d);
    let p = pos(m0, L, P, x); let pd = pos(m0, L, P, d); let c = Chd { k: k, a: P[x + 1].NodeAddr };
    assert(adr(L, d, pd) == pa && adr(L, x, p) == P[x].NodeAddr);
    assert(cchs(bp(m0, pa)).len() == cn(bp(m0, pa)));
    assert forall|j: int| 0 <= j < L[x].len() && (x != d || j != pd) implies bp(m, #[trigger] L[x][j].a) == bp(m0, L[x][j].a) by { assert(inL(L, x, j)); if L[x][j].a == pa { lem_dist(L, x, j, d, pd); } assert(h0.al.contains(adr(L, x, j)) && h0.al.contains(adr(L, d, pd))); }
    assert(nodeP(m0, adr(L, x, p), x, noix(), noix()));
    if x < d { lem_exf_same(m0, m, L[x]); assert(bp(m, L[x][p].a) == bp(m0, L[x][p].a)); }
    else {
        let C = kidsA(m0, L[x][p]);
        if x == d {
            assert forall|j: int| 0 <= j < L[x].len() && j != p implies kidsA(m, #[trigger] K[x][j]) == kidsA(m0, L[x][j]) by { assert(bp(m, L[x][j].a) == bp(m0, L[x][j].a)); }
            assert(kidsA(m, K[x][p]) =~= C.update(i, c));
            assert(cchs(bp(m, pa)).len() == cn(bp(m, pa)));
        } else {
            assert(P[x].RecordOrNonLeafChildIndex == 0);
            assert forall|j: int| 0 <= j < L[x].len() && j != p implies kidsA(m, #[trigger] K[x][j]) == kidsA(m0, L[x][j]) by { assert(K[x][j] == L[x][j]); assert(bp(m, L[x][j].a) == bp(m0, L[x][j].a)); }
            assert(bp(m, L[x][p].a) == bp(m0, L[x][p].a));
            assert(K[x][p] == Chd { k: k, a: P[x].NodeAddr });
            assert(kidsA(m, K[x][p]) =~= C.update(0, c));
        }
        lem_exf_upd(m0, m, L[x], K[x], p, i, c);
        assert(pos(m0, L, P, x + 1) == off(m0, L[x], p) + i);
    }
}
pub proof fn lem_sync(h0: Heap, h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, d: int, k: Seq<u8>)
    requires sy_pre(h0, h, t, P, d, k)
    ensures ixT(h, t, P[d].NodeAddr, noix()), pathOK(h.mem, t.rootAddr, P, t.height), ({ let p = pos(h0.mem, tL(h0, t), P, t.height - 1); 0 <= p < tE(h0, t).len() && tE(h0, t)[p].a == P[t.height - 1].NodeAddr && tE(h, t) == tE(h0, t).update(p, Chd { k: k, a: P[t.height - 1].NodeAddr }) }),
        ixF(h0, h, tE(h0, t)),
{
    let L = tL(h0, t); let m0 = h0.mem; let m = h.mem; let K = syL(L, m0, P, d, k); let n = t.height - 1; let pa = P[d].NodeAddr;
    lem_levs(m0, t.rootAddr, t.height); lem_pos(m0, t.rootAddr, L, P, d); lem_pos(m0, t.rootAddr, L, P, n); let pd = pos(m0, L, P, d); assert(adr(L, d, pd) == pa);
    assert forall|x: int| 0 <= x < K.len() - 1 implies #[trigger] rep1(m, K, x) by { lem_sync1(h0, h, t, P, d, k, x); }
    assert forall|x: int| 0 <= x < n implies #[trigger] pstep(m, P, x) by { lem_sync1(h0, h, t, P, d, k, x); }
    assert(rep(m, t.rootAddr, K)); lem_rep(m, t.rootAddr, K); assert(tL(h, t) == K);
    assert forall|x: int| 0 <= x < L.len() implies (#[trigger] K[x]).len() == L[x].len() by { }
    assert forall|x: int, j: int| inL(L, x, j) implies (#[trigger] K[x][j]).a == L[x][j].a by { if x > d { lem_pos(m0, t.rootAddr, L, P, x); } }
    lem_tight_same(L, K, h.al); lem_cnt_len(L, K, n);
    assert forall|x: int, j: int| inL(K, x, j) && x < K.len() - 1 implies nodeP(m, #[trigger] adr(K, x, j), x, pa, noix()) by {
        assert(K[x].len() == L[x].len()); assert(inL(L, x, j)); let a = adr(L, x, j); assert(K[x][j].a == a); assert(nodeP(m0, a, x, noix(), noix())); assert(h0.al.contains(a)); assert(h0.al.contains(adr(L, d, pd)));
        if a == pa { assert(cchs(bp(m, pa)).len() == cn(bp(m, pa))); assert(cchs(bp(m0, pa)).len() == cn(bp(m0, pa))); assert(cchs(bp(m, pa))[0].k.len() == 0); } else { assert(bp(m, a) == bp(m0, a)); }
    }
    let E = tE(h0, t);
    assert(ekOK(K[n])) by { assert forall|j: int| 0 <= j < K[n].len() implies (#[trigger] K[n][j]).k.len() <= 257 by { assert(E[j].k.len() <= 257); } }
    assert forall|j: int| 0 <= j < E.len() implies h.mem[-1 - (#[trigger] E[j]).a] == h0.mem[-1 - E[j].a] by { assert(inL(L, n, j)); assert(h0.al.contains(adr(L, n, j))); if E[j].a == pa { lem_dist(L, n, j, d, pd); } }
    assert(h0.al.contains(adr(L, d, pd)));
}
pub open spec fn lstale(h: Heap, t: T_BPTree, rp: Sl) -> int { if pth(h, rp)[t.height - 1].RecordOrNonLeafChildIndex >= 1 { noix() } else { pos(h.mem, tL(h, t), pth(h, rp), t.height - 1) } }
pub open spec fn lpreK(h: Heap, t: T_BPTree, rp: Sl, xl: int, xk: int) -> bool {
    z_wf_c_recordPathComponent(h, rp) && rp.ep == 0 && pathOK(h.mem, t.rootAddr, pth(h, rp), t.height) && ixT(h, t, noix(), noix()) && lfT(h, t, xl, xk)
}
// the separator of leaf p is set to its first key
pub proof fn lem_sync_lf(h0: Heap, h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, d: int, k: Seq<u8>, xl: int)
    requires sy_pre(h0, h, t, P, d, k), lfT(h0, t, xl, pos(h0.mem, tL(h0, t), P, t.height - 1)), k == lrecs(bp(h0.mem, P[t.height - 1].NodeAddr))[0].k
    ensures lfT(h, t, xl, noix()), tR(h, t) == tR(h0, t), lfF(h0, h)
{
    lem_sync(h0, h, t, P, d, k);
    let E = tE(h0, t); let X = tE(h, t); let p = pos(h0.mem, tL(h0, t), P, t.height - 1); let m = h.mem; let m0 = h0.mem;
    assert forall|j: int| 0 <= j < E.len() implies bp(m, (#[trigger] E[j]).a) == bp(m0, E[j].a) && X[j].a == E[j].a by { assert(h.mem[-1 - E[j].a] == h0.mem[-1 - E[j].a]); }
    assert forall|j: int| 0 <= j < E.len() implies #[trigger] lf1(m, X, xl, noix(), j) by { assert(lf1(m0, E, xl, p, j)); assert(bp(m, E[j].a) == bp(m0, E[j].a)); assert(X[j].a == E[j].a); if j != p { assert(X[j] == E[j]); } }
    assert forall|j: int| 0 <= j < E.len() implies (#[trigger] X[j]).a == E[j].a && lnk(bp(m, E[j].a), bp(m0, E[j].a)) by { assert(bp(m, E[j].a) == bp(m0, E[j].a)); }
    lem_ring_same(m0, m, E, X);
    assert forall|j: int| 0 <= j < E.len() implies lp(m, #[trigger] X[j]) == lp(m0, E[j]) by { assert(bp(m, E[j].a) == bp(m0, E[j].a)); }
    lem_fr_same(m0, m, E, X);
}
pub proof fn lem_sync_ex(h: Heap, t: T_BPTree, rp: Sl)
    requires lpreK(h, t, rp, plast(h, t, rp), lstale(h, t, rp)), t.height == 1 || pth(h, rp)[t.height - 1].RecordOrNonLeafChildIndex >= 1 || zeroIx(pth(h, rp), 0, t.height - 1)
    ensures lpre(h, t, rp, plast(h, t, rp)), lmid(h, h, t, t)
{
    let E = tE(h, t); let xl = plast(h, t, rp); let xk = lstale(h, t, rp);
    if xk != noix() { lem_pos0(h.mem, tL(h, t), pth(h, rp), t.height - 1); }
    assert forall|j: int| 0 <= j < E.len() implies #[trigger] lf1(h.mem, E, xl, noix(), j) by { assert(lf1(h.mem, E, xl, xk, j)); }
}
pub proof fn lem_sync_at(h: Heap, t: T_BPTree, rp: Sl, i: int)
    requires z_heap_ok(h), lpreK(h, t, rp, plast(h, t, rp), lstale(h, t, rp)), 0 <= i < t.height - 1
    ensures ({ let a = plast(h, t, rp); let pa = pth(h, rp)[i].NodeAddr; a != pa && h.al.contains(a) && h.al.contains(pa) && a > 0 && pa > 0 && leafP(h, z_access(h, a)) && z_access(h, a).blk == -1 - a && ln(bp(h.mem, a)) >= 1 && lrecs(bp(h.mem, a)).len() == ln(bp(h.mem, a)) && lrecs(bp(h.mem, a))[0].k.len() <= 257
        && nlP(h, z_access(h, pa)) && z_access(h, pa).blk == -1 - pa && cload(bp(h.mem, pa)) <= 7919 && pstep(h.mem, pth(h, rp), i) && cok(bp(h.mem, pa)) && cchs(bp(h.mem, pa)).len() == cn(bp(h.mem, pa)) })
{
    let P = pth(h, rp); let a = plast(h, t, rp); let k = lstale(h, t, rp); let n = t.height - 1;
    lem_onpath(h, t, P, i, noix(), noix()); lem_onpath_ne(h, t, P, i, n, noix(), noix()); lem_nlP(h, P[i].NodeAddr); lem_nonleaf_K();
    lem_onpath(h, t, P, n - 1, noix(), noix()); lem_lchild(h, t, P, 0, noix(), noix(), a, k); lem_lonpath(h, t, P, noix(), noix(), a, k);
}
pub proof fn lem_sync_wk(h: Heap, t: T_BPTree, rp: Sl, xl: int)
    requires lfT(h, t, xl, lstale(h, t, rp))
    ensures lfT(h, t, xl, pos(h.mem, tL(h, t), pth(h, rp), t.height - 1))
{ let E = tE(h, t); let k = pos(h.mem, tL(h, t), pth(h, rp), t.height - 1); assert forall|j: int| 0 <= j < E.len() implies #[trigger] lf1(h.mem, E, xl, k, j) by { assert(lf1(h.mem, E, xl, lstale(h, t, rp), j)); } }
// the leaf itself is not written
pub proof fn lem_sync_own(h0: Heap, h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, d: int, k: Seq<u8>, xl: int, xk: int)
    requires sy_pre(h0, h, t, P, d, k), lfT(h0, t, xl, xk)
    ensures bp(h.mem, P[t.height - 1].NodeAddr) == bp(h0.mem, P[t.height - 1].NodeAddr)
{ lem_levs(h0.mem, t.rootAddr, t.height); lem_onpath_ne(h0, t, P, d, t.height - 1, noix(), noix()); assert(P[d].NodeAddr != P[t.height - 1].NodeAddr); }
pub proof fn lem_sync_own2(h0: Heap, h: Heap, t0: T_BPTree, P: Seq<T_recordPathComponent>, xa: int, xl: int)
    requires z_heap_ok(h0), ixT(h0, t0, xa, noix()), lfT(h0, t0, xl, noix()), pathOK(h0.mem, t0.rootAddr, P, t0.height), ixF(h0, h, tE(h0, t0))
    ensures bp(h.mem, P[t0.height - 1].NodeAddr) == bp(h0.mem, P[t0.height - 1].NodeAddr)
{ lem_lonpath(h0, t0, P, xa, noix(), xl, noix()); let p = pos(h0.mem, tL(h0, t0), P, t0.height - 1); assert(h.mem[-1 - tE(h0, t0)[p].a] == h0.mem[-1 - tE(h0, t0)[p].a]); }
