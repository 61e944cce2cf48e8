// ---- what the fixing of a leaf needs and does -----------------------------------------------------
pub open spec fn lpre(h: Heap, t: T_BPTree, rp: Sl, xl: int) -> bool {
    z_wf_c_recordPathComponent(h, rp) && rp.ep == 0 && pathOK(h.mem, t.rootAddr, pth(h, rp), t.height) && ixT(h, t, noix(), noix()) && lfT(h, t, xl, noix())
}
pub open spec fn plast(h: Heap, t: T_BPTree, rp: Sl) -> int { pth(h, rp)[t.height - 1].NodeAddr }
pub open spec fn lmid(h0: Heap, h: Heap, t0: T_BPTree, t: T_BPTree) -> bool {
    tR(h, t) == tR(h0, t0) && lfF(h0, h) && tG(t0, t)
}
pub open spec fn tG(t0: T_BPTree, t: T_BPTree) -> bool {
    t == (T_BPTree { rootAddr: t.rootAddr, height: t.height, nonLeafCount: t.nonLeafCount, leafList: t.leafList, leafCount: t.leafCount, ..t0 })
}
pub proof fn lem_lmid(h0: Heap, h1: Heap, h: Heap, t0: T_BPTree, t1: T_BPTree, t: T_BPTree)
    requires lmid(h0, h1, t0, t1), lmid(h1, h, t1, t)
    ensures lmid(h0, h, t0, t)
{ lem_lfF_trans(h0, h1, h); }
pub proof fn lem_recsOK_max(x: Seq<Rec>)
    requires recsOK(x)
    ensures recsMax(x), forall|j: int| 0 <= j < x.len() ==> (#[trigger] x[j]).k.len() <= 257
{ lem_recsMax(x); assert forall|j: int| 0 <= j < x.len() implies (#[trigger] x[j]).k.len() <= 257 by { assert(recOK(x[j])); } }
pub open spec fn leafAt(h: Heap, t: T_BPTree, a: int, xl: int) -> bool {
    &&& h.al.contains(a) && a > 0 && lP(bp(h.mem, a)) && leafP(h, z_access(h, a)) && z_access(h, a).blk == -1 - a && recsMax(lrecs(bp(h.mem, a))) && lload(bp(h.mem, a)) <= 8172
    &&& lrecs(bp(h.mem, a)).len() == ln(bp(h.mem, a)) && (forall|j: int| 0 <= j < lrecs(bp(h.mem, a)).len() ==> (#[trigger] lrecs(bp(h.mem, a))[j]).k.len() <= 257)
    &&& (a != xl ==> lB(bp(h.mem, a), tE(h, t).len() as int)) && (tE(h, t).len() > 1 ==> ln(bp(h.mem, a)) >= 1)
}
pub proof fn lem_leafAt(h: Heap, t: T_BPTree, j: int, xa: int, xb: int, xl: int, xk: int)
    requires z_heap_ok(h), ixT(h, t, xa, xb), lfT(h, t, xl, xk), 0 <= j < tE(h, t).len()
    ensures leafAt(h, t, tE(h, t)[j].a, xl)
{
    let E = tE(h, t); lem_E(h, t, xa, xb); assert(lf1(h.mem, E, xl, xk, j)); let q = bp(h.mem, E[j].a); assert(h.al.contains(E[j].a));
    lem_recsOK_max(lrecs(q)); lem_rload(q);
}
pub proof fn lem_lonpath(h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, xa: int, xb: int, xl: int, xk: int)
    requires z_heap_ok(h), ixT(h, t, xa, xb), lfT(h, t, xl, xk), pathOK(h.mem, t.rootAddr, P, t.height)
    ensures leafAt(h, t, P[t.height - 1].NodeAddr, xl), 0 <= pos(h.mem, tL(h, t), P, t.height - 1) < tE(h, t).len(), tE(h, t)[pos(h.mem, tL(h, t), P, t.height - 1)].a == P[t.height - 1].NodeAddr
{
    lem_onpath(h, t, P, t.height - 1, xa, xb); lem_leafAt(h, t, pos(h.mem, tL(h, t), P, t.height - 1), xa, xb, xl, xk);
}
pub proof fn lem_lchild(h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, j: int, xa: int, xb: int, xl: int, xk: int)
    requires z_heap_ok(h), ixT(h, t, xa, xb), lfT(h, t, xl, xk), pathOK(h.mem, t.rootAddr, P, t.height), t.height >= 2, 0 <= j < cn(bp(h.mem, P[t.height - 2].NodeAddr))
    ensures ({ let c = cchs(bp(h.mem, P[t.height - 2].NodeAddr)); let q = lfq(h, t, P, j); let E = tE(h, t);
        0 <= q < E.len() && E[q].a == c[j].a && leafAt(h, t, c[j].a, xl) && c[j].a != P[t.height - 2].NodeAddr && c[j].k.len() <= 257 && (j + 1 < c.len() ==> q + 1 < E.len()) && (j >= 1 ==> q >= 1) && (c.len() >= 2 ==> E.len() >= 2) && c.len() == cn(bp(h.mem, P[t.height - 2].NodeAddr)) })
{
    let i = t.height - 1; lem_child(h, t, P, i, j, xa, xb); lem_child(h, t, P, i, 0, xa, xb); lem_child(h, t, P, i, cn(bp(h.mem, P[i - 1].NodeAddr)) - 1, xa, xb);
    lem_leafAt(h, t, lfq(h, t, P, j), xa, xb, xl, xk);
}
// the load of the leaf is in order
pub proof fn lem_lf_clear(h: Heap, t: T_BPTree, xl: int)
    requires lfT(h, t, xl, noix()), lB(bp(h.mem, xl), tE(h, t).len() as int)
    ensures lfT(h, t, noix(), noix())
{
    let E = tE(h, t);
    assert forall|j: int| 0 <= j < E.len() implies #[trigger] lf1(h.mem, E, noix(), noix(), j) by { assert(lf1(h.mem, E, xl, noix(), j)); }
}
// the path after records have been moved
pub open spec fn lQ(m0: Mem, P: Seq<T_recordPathComponent>, Q: Seq<T_recordPathComponent>, n: int, jq: int, a: int) -> bool {
    Q.len() == P.len() && (forall|d: int| 0 <= d < n - 2 ==> #[trigger] Q[d] == P[d]) && Q[n - 2].NodeAddr == P[n - 2].NodeAddr && Q[n - 2].RecordOrNonLeafChildIndex == jq && Q[n - 1].NodeAddr == a
}
// records moved from leaf a to its right neighbour b; or the other way round
pub open spec fn lmv(m0: Mem, m: Mem, pa: int, jl: int) -> bool {
    let cp = cchs(bp(m0, pa)); let a = cp[jl].a; let b = cp[jl + 1].a; let A = lrecs(bp(m, a)); let B = lrecs(bp(m, b));
    &&& bp(m, pa).len() == 8192 && bp(m, a).len() == 8192 && bp(m, b).len() == 8192 && cok(bp(m, pa)) && lok(bp(m, a)) && lok(bp(m, b))
    &&& lnk(bp(m, a), bp(m0, a)) && lnk(bp(m, b), bp(m0, b)) && A.len() >= 1 && B.len() >= 1 && A + B == lrecs(bp(m0, a)) + lrecs(bp(m0, b))
    &&& cchs(bp(m, pa)) == cp.update(jl + 1, Chd { k: B[0].k, a: b })
    &&& K_leafUnderloadThreshold() <= rload(A) <= K_leafOverloadThreshold() && K_leafUnderloadThreshold() <= rload(B) <= K_leafOverloadThreshold()
}
pub proof fn lem_lmvR(m0: Mem, m: Mem, pa: int, jl: int, c: int)
    requires ({ let cp = cchs(bp(m0, pa)); let a = cp[jl].a; let b = cp[jl + 1].a; let o = lrecs(bp(m0, a)); let n = o.len() as int; let B0 = lrecs(bp(m0, b)); let A = lrecs(bp(m, a)); let B = lrecs(bp(m, b));
        bp(m, pa).len() == 8192 && bp(m, a).len() == 8192 && bp(m, b).len() == 8192 && cok(bp(m, pa)) && lok(bp(m, a)) && lok(bp(m, b)) && lok(bp(m0, b))
        && lnk(bp(m, a), bp(m0, a)) && lnk(bp(m, b), bp(m0, b)) && 1 <= c < n && A == o.subrange(0, n - c) && B == o.subrange(n - c, n) + B0
        && cchs(bp(m, pa)) == cp.update(jl + 1, Chd { k: o[n - c].k, a: b })
        && K_leafUnderloadThreshold() <= lsz(o, 0, n - c) <= K_leafOverloadThreshold() && K_leafUnderloadThreshold() <= lload(bp(m0, b)) + lsz(o, n - c, n) <= K_leafOverloadThreshold() })
    ensures lmv(m0, m, pa, jl)
{
    let cp = cchs(bp(m0, pa)); let a = cp[jl].a; let b = cp[jl + 1].a; let o = lrecs(bp(m0, a)); let n = o.len() as int; let B0 = lrecs(bp(m0, b));
    assert(o.subrange(0, n - c) + (o.subrange(n - c, n) + B0) =~= o + B0);
    lem_rload_sub(o, 0, n - c); lem_rload_sub(o, n - c, n); lem_rload_cat(o.subrange(n - c, n), B0); lem_rload(bp(m0, b));
    assert((o.subrange(n - c, n) + B0)[0] == o[n - c]);
}
pub proof fn lem_lmvL(m0: Mem, m: Mem, pa: int, jl: int, c: int)
    requires ({ let cp = cchs(bp(m0, pa)); let a = cp[jl].a; let b = cp[jl + 1].a; let o = lrecs(bp(m0, b)); let n = o.len() as int; let A0 = lrecs(bp(m0, a)); let A = lrecs(bp(m, a)); let B = lrecs(bp(m, b));
        bp(m, pa).len() == 8192 && bp(m, a).len() == 8192 && bp(m, b).len() == 8192 && cok(bp(m, pa)) && lok(bp(m, a)) && lok(bp(m, b)) && lok(bp(m0, a))
        && lnk(bp(m, a), bp(m0, a)) && lnk(bp(m, b), bp(m0, b)) && 1 <= c < n && B == o.subrange(c, n) && A == A0 + o.subrange(0, c)
        && cchs(bp(m, pa)) == cp.update(jl + 1, Chd { k: o[c].k, a: b })
        && K_leafUnderloadThreshold() <= lsz(o, c, n) <= K_leafOverloadThreshold() && K_leafUnderloadThreshold() <= lload(bp(m0, a)) + lsz(o, 0, c) <= K_leafOverloadThreshold() })
    ensures lmv(m0, m, pa, jl)
{
    let cp = cchs(bp(m0, pa)); let a = cp[jl].a; let b = cp[jl + 1].a; let o = lrecs(bp(m0, b)); let n = o.len() as int; let A0 = lrecs(bp(m0, a));
    assert((A0 + o.subrange(0, c)) + o.subrange(c, n) =~= A0 + o);
    lem_rload_sub(o, 0, c); lem_rload_sub(o, c, n); lem_rload_cat(A0, o.subrange(0, c)); lem_rload(bp(m0, a));
    assert(o.subrange(c, n)[0] == o[c]);
}
pub open spec fn lspre(h0: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, jl: int, jq: int, xa: int, xb: int) -> bool {
    &&& z_heap_ok(h0) && t.height >= 2 && ixT(h0, t, xa, xb) && pathOK(h0.mem, t.rootAddr, P, t.height)
    &&& 0 <= jl && jl + 1 < cn(bp(h0.mem, P[t.height - 2].NodeAddr)) && jl <= P[t.height - 2].RecordOrNonLeafChildIndex <= jl + 1 && jl <= jq <= jl + 1
    &&& near(stepC(h0, t, P, t.height - 1), P[t.height - 2].NodeAddr, jl, xa) && near(stepC(h0, t, P, t.height - 1), P[t.height - 2].NodeAddr, jl, xb)
}
pub proof fn lem_lstep_mv(h0: Heap, h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, Q: Seq<T_recordPathComponent>, jl: int, jq: int, xa: int, xb: int, xl: int)
    requires lspre(h0, t, P, jl, jq, xa, xb), h.sp == h0.sp, h.al == h0.al, h0.nxt <= h.nxt, lmv(h0.mem, h.mem, P[t.height - 2].NodeAddr, jl),
        mem_kept3(h0, h, -1 - P[t.height - 2].NodeAddr, -1 - stepC(h0, t, P, t.height - 1)[jl].a, -1 - stepC(h0, t, P, t.height - 1)[jl + 1].a),
        lQ(h0.mem, P, Q, t.height, jq, stepC(h0, t, P, t.height - 1)[jq].a),
        lfT(h0, t, xl, noix()), xl == noix() || xl == stepC(h0, t, P, t.height - 1)[jl].a || xl == stepC(h0, t, P, t.height - 1)[jl + 1].a,
    ensures ixT(h, t, P[t.height - 2].NodeAddr, noix()), pathOK(h.mem, t.rootAddr, Q, t.height), lmid(h0, h, t, t), nOK(h.mem, P[t.height - 2].NodeAddr),
        lfT(h, t, noix(), noix()), cn(bp(h.mem, P[t.height - 2].NodeAddr)) == cn(bp(h0.mem, P[t.height - 2].NodeAddr))
{
    let i = t.height - 1; let m0 = h0.mem; let m = h.mem; let pa = P[i - 1].NodeAddr; let cp = stepC(h0, t, P, i); let a = cp[jl].a; let b = cp[jl + 1].a;
    lem_rload(bp(m, a)); lem_rload(bp(m, b));
    assert(cchs(bp(m, pa)).len() == cp.len());
    assert(cchs(bp(m, pa))[jl].a == a && cchs(bp(m, pa))[jl + 1].a == b);
    lem_lf_shift(h0, h, t, P, Q, jl, lrecs(bp(m, b))[0].k, xa, xb, xl);
}
// a new leaf ns takes the last records of leaf a
pub open spec fn lms(m0: Mem, m: Mem, pa: int, jl: int, c: int, ns: int) -> bool {
    let cp = cchs(bp(m0, pa)); let a = cp[jl].a; let o = lrecs(bp(m0, a)); let n = o.len() as int;
    &&& bp(m, pa).len() == 8192 && bp(m, a).len() == 8192 && bp(m, ns).len() == 8192 && cok(bp(m, pa)) && lok(bp(m, a)) && lok(bp(m, ns))
    &&& lnk(bp(m, a), bp(m0, a)) && 1 <= c < n && lrecs(bp(m, a)) == o.subrange(0, n - c) && lrecs(bp(m, ns)) == o.subrange(n - c, n)
    &&& cchs(bp(m, pa)) == cp.insert(jl + 1, Chd { k: o[n - c].k, a: ns })
    &&& K_leafUnderloadThreshold() <= lsz(o, 0, n - c) <= K_leafOverloadThreshold() && K_leafUnderloadThreshold() <= lsz(o, n - c, n) <= K_leafOverloadThreshold()
}
pub open spec fn linked(h: Heap, E: Seq<Chd>, q: int, e: Chd) -> bool {
    let x = E[nxi(E.len() as int, q)].a; let a = E[q].a;
    &&& nxq(bp(h.mem, a)) == x && h.al.contains(x) && bp(h.mem, x).len() == 8192 && h.al.contains(a) && bp(h.mem, a).len() == 8192 && h.al.contains(e.a) && bp(h.mem, e.a).len() == 8192 && e.a != a && e.a != x && z_i64ok(e.a) && z_i64ok(a)
}
pub proof fn lem_lstep_S(h0: Heap, h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, Q: Seq<T_recordPathComponent>, jl: int, jq: int, c: int, ns: int, xa: int, xb: int)
    requires z_heap_ok(h0), z_heap_ok(h), t.height >= 2, ixT(h0, t, xa, xb), pathOK(h0.mem, t.rootAddr, P, t.height), jl == P[t.height - 2].RecordOrNonLeafChildIndex, jq == jl || jq == jl + 1,
        h.sp == h0.sp, h.al == h0.al.insert(ns), !h0.al.contains(ns), !h0.sp.contains(ns), ns > 0, h0.nxt <= h.nxt, lms(h0.mem, h.mem, P[t.height - 2].NodeAddr, jl, c, ns), z_i64ok(ns),
        ({ let cp = stepC(h0, t, P, t.height - 1); let pa = P[t.height - 2].NodeAddr; mem_kept3(h0, h, -1 - pa, -1 - cp[jl].a, -1 - ns) && (xa == noix() || xa == pa || xa == cp[jl].a) && (xb == noix() || xb == pa || xb == cp[jl].a)
           && lfT(h0, t, cp[jl].a, noix()) && lQ(h0.mem, P, Q, t.height, jq, if jq == jl { cp[jl].a } else { ns }) && z_i64ok(cp[jl].a) }),
    ensures ixT(h, t, P[t.height - 2].NodeAddr, noix()), pathOK(h.mem, t.rootAddr, Q, t.height), lfF(h0, h), nOK(h.mem, P[t.height - 2].NodeAddr),
        ({ let q = lfq(h0, t, P, jl); let E = tE(h0, t); let X = tE(h, t); let f = Chd { k: lrecs(bp(h.mem, ns))[0].k, a: ns }; 0 <= q < E.len() && ends(E, t.leafList) && t.leafCount == E.len() && E[q].a == stepC(h0, t, P, t.height - 1)[jl].a && X == E.insert(q + 1, f) && lfs(h.mem, X, noix(), noix()) && ring(h.mem, E) && fr(h.mem, X) == fr(h0.mem, E) && eDist(E) && linked(h, E, q, f) }),
        cn(bp(h.mem, P[t.height - 2].NodeAddr)) >= 2, cload(bp(h.mem, P[t.height - 2].NodeAddr)) >= cload(bp(h0.mem, P[t.height - 2].NodeAddr)),
{
    let i = t.height - 1; let m0 = h0.mem; let m = h.mem; let pa = P[i - 1].NodeAddr; let cp = stepC(h0, t, P, i); let a = cp[jl].a; let o = lrecs(bp(m0, a)); let n = o.len() as int;
    assert(pstep(m0, P, i - 1));
    lem_rload(bp(m, a)); lem_rload(bp(m, ns)); lem_rload_sub(o, 0, n - c); lem_rload_sub(o, n - c, n);
    assert(o.subrange(0, n - c) + o.subrange(n - c, n) =~= o);
    assert(cchs(bp(m, pa)).len() == cp.len() + 1); lem_lchild(h0, t, P, jl, xa, xb, a, noix());
    assert(cchs(bp(m, pa))[jl].a == a && cchs(bp(m, pa))[jl + 1].a == ns);
    lem_lf_split(h0, h, t, P, Q, jl, lrecs(bp(m, ns))[0].k, ns, xa, xb);
    let E = tE(h0, t); let X = tE(h, t); let q = lfq(h0, t, P, jl); let x = nxi(E.len() as int, q);
    lem_E(h, t, pa, noix()); assert(X[q] == E[q] && X[q + 1].a == ns);
    let y = if x <= q { x } else { x + 1 }; assert(X[y] == E[x]);
    assert(ring1(m, E, q)); assert(lf1(m, X, noix(), noix(), y)); assert(h.al.contains(X[y].a)); assert(h.al.contains(X[q].a)); assert(X[y].a != X[q + 1].a);
}
// the new leaf is linked
pub proof fn lem_lstep_ins(h0: Heap, h: Heap, t0: T_BPTree, t: T_BPTree, Q: Seq<T_recordPathComponent>, E: Seq<Chd>, q: int, e: Chd, pa: int)
    requires z_heap_ok(h0), ixT(h0, t0, pa, noix()), pathOK(h0.mem, t0.rootAddr, Q, t0.height), t0.height >= 2, Q[t0.height - 2].NodeAddr == pa, tE(h0, t0) == E.insert(q + 1, e), 0 <= q < E.len(), eDist(E), lfs(h0.mem, tE(h0, t0), noix(), noix()), ring(h0.mem, E), ends(E, t0.leafList), t0.leafCount == E.len() + 1,
        linkIns(h0.mem, h.mem, E[q].a, e.a), mem_kept3(h0, h, -1 - e.a, -1 - E[q].a, -1 - nxq(bp(h0.mem, E[q].a))), h.al == h0.al, h.sp == h0.sp, h0.nxt <= h.nxt,
        t == (T_BPTree { leafList: (if E[q].a == t0.leafList.tailAddr { T_leafList { tailAddr: e.a, headAddr: t0.leafList.headAddr } } else { t0.leafList }), ..t0 }),
    ensures ixT(h, t, pa, noix()), pathOK(h.mem, t.rootAddr, Q, t.height), lfT(h, t, noix(), noix()), lmid(h0, h, t0, t), bp(h.mem, pa) == bp(h0.mem, pa), tE(h, t) == tE(h0, t0)
{
    let X = E.insert(q + 1, e); let n = E.len() as int; let x = nxi(n, q); let m0 = h0.mem; let m = h.mem;
    lem_E(h0, t0, pa, noix()); assert(ring1(m0, E, q)); assert(X[q] == E[q]); assert(X[q + 1] == e); let y = if x <= q { x } else { x + 1 }; assert(X[y] == E[x]);
    assert forall|b: int| b < h0.nxt && !inE(X, -1 - b) implies #[trigger] m[b] == m0[b] by {
        if b == -1 - e.a { assert(X[q + 1].a == -1 - b); } else if b == -1 - E[q].a { assert(X[q].a == -1 - b); } else if b == -1 - E[x].a { assert(X[y].a == -1 - b); }
    }
    lem_leafw(h0, h, t0, t, pa, noix()); lem_leafw_path(h0, h, t0, Q, pa, noix());
    assert forall|j: int| 0 <= j < n implies (#[trigger] E[j]).a != e.a by { let j2 = if j > q { j + 1 } else { j }; assert(X[j2] == E[j]); assert(X[j2].a != X[q + 1].a); }
    assert forall|j: int| 0 <= j < n && j != q && j != x implies bp(m, #[trigger] E[j].a) == bp(m0, E[j].a) by { assert(E[j].a != E[q].a); assert(E[j].a != E[x].a); let j2 = if j > q { j + 1 } else { j }; assert(X[j2] == E[j]); assert(h0.al.contains(X[j2].a)); assert(m[-1 - E[j].a] == m0[-1 - E[j].a]); }
    lem_ring_ins(m0, m, E, q, e, t0.leafList, t.leafList);
    assert forall|j: int| 0 <= j < X.len() implies dataSame(bp(m0, (#[trigger] X[j]).a), bp(m, X[j].a)) by {
        if j != q + 1 { let j0 = if j > q { j - 1 } else { j }; assert(X[j] == E[j0]); if j0 != q && j0 != x { assert(bp(m, E[j0].a) == bp(m0, E[j0].a)); } }
    }
    lem_lf_data(m0, m, X, noix(), noix());
    lem_onpath(h0, t0, Q, t0.height - 2, pa, noix()); let L = tL(h0, t0); let pp = pos(m0, L, Q, t0.height - 2); lem_levs(m0, t0.rootAddr, t0.height);
    if inE(X, pa) { let k = choose|k: int| 0 <= k < X.len() && (#[trigger] X[k]).a == pa; lem_dist(L, t0.height - 2, pp, t0.height - 1, k); }
    assert(m[-1 - pa] == m0[-1 - pa]);
}
pub proof fn lem_ix_weak(h: Heap, t: T_BPTree, xa: int, xb: int)
    requires z_heap_ok(h), ixT(h, t, noix(), noix())
    ensures ixT(h, t, xa, xb), xa == noix() ==> ixT(h, t, xb, xa)
{
    let L = tL(h, t); let m = h.mem;
    assert forall|d: int, j: int| inL(L, d, j) && d < L.len() - 1 implies nodeP(m, #[trigger] adr(L, d, j), d, xa, xb) && nodeP(m, adr(L, d, j), d, xb, xa) by { let a = adr(L, d, j); assert(nodeP(m, a, d, noix(), noix())); assert(nOK(m, a)); assert(h.al.contains(a)); if a != xa && a != xb { assert(a > 0); assert(nB(m, a, d)); } }
}
// facts used without unfolding
pub proof fn lem_lf0(h: Heap, t: T_BPTree, xl: int)
    requires ixT(h, t, noix(), noix()), lfT(h, t, xl, noix())
    ensures t.height >= 1, t.leafCount == tE(h, t).len(), ends(tE(h, t), t.leafList), lfs(h.mem, tE(h, t), xl, noix()), ring(h.mem, tE(h, t)), tL(h, t).len() == t.height, z_i64ok(t.rootAddr)
{ }
// the record index at the end of a path does not matter
pub proof fn lem_pathR(m: Mem, root: int, Q: Seq<T_recordPathComponent>, R: Seq<T_recordPathComponent>, n: int)
    requires pathOK(m, root, Q, n), R.len() == n, forall|d: int| 0 <= d < n - 1 ==> #[trigger] R[d] == Q[d], R[n - 1].NodeAddr == Q[n - 1].NodeAddr
    ensures pathOK(m, root, R, n)
{
    assert forall|d: int| 0 <= d < n - 1 implies #[trigger] pstep(m, R, d) by { assert(pstep(m, Q, d)); assert(R[d] == Q[d]); if d + 1 < n - 1 { assert(R[d + 1] == Q[d + 1]); } }
}

pub proof fn lem_ix_fields(h: Heap, t0: T_BPTree, t: T_BPTree, xa: int, xb: int)
    requires ixT(h, t0, xa, xb), t.rootAddr == t0.rootAddr, t.height == t0.height, t.nonLeafCount == t0.nonLeafCount
    ensures ixT(h, t, xa, xb), tE(h, t) == tE(h, t0), tL(h, t) == tL(h, t0)
{ }
pub proof fn lem_lf_count(h: Heap, t: T_BPTree, xl: int, xk: int)
    requires lfT(h, t, xl, xk)
    ensures t.leafCount == tE(h, t).len(), ends(tE(h, t), t.leafList), tE(h, t).len() >= 1
{ }
