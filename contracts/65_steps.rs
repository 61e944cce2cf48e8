// ---- the rebalancing steps of index nodes --------------------------------------------------
pub open spec fn pgs3(m: Mem, pa: int, a: int, b: int) -> bool {
    bp(m, pa).len() == 8192 && bp(m, a).len() == 8192 && bp(m, b).len() == 8192 && cok(bp(m, pa)) && cok(bp(m, a)) && cok(bp(m, b))
}
// the last c children of a move to b, the first ones of b move to a
pub open spec fn mvR(m0: Mem, m: Mem, pa: int, jl: int, c: int) -> bool {
    let cp = cchs(bp(m0, pa)); let a = cp[jl].a; let b = cp[jl + 1].a; let o = cchs(bp(m0, a)); let n = o.len() as int; let B = cchs(bp(m0, b)); let ck = cp[jl + 1].k;
    &&& pgs3(m, pa, a, b) && 1 <= c < n && cchs(bp(m, a)) == o.subrange(0, n - c) && cchs(bp(m, b)) == rk(o.subrange(n - c, n), ek()) + rk(B, ck) && cchs(bp(m, pa)) == cp.update(jl + 1, Chd { k: o[n - c].k, a: b })
    &&& K_nonLeafUnderloadThreshold() <= clsz(o, 0, n - c) <= K_nonLeafOverloadThreshold() && K_nonLeafUnderloadThreshold() <= cload(bp(m0, b)) + clsz(o, n - c, n) - o[n - c].k.len() + ck.len() <= K_nonLeafOverloadThreshold()
}
pub open spec fn mvL(m0: Mem, m: Mem, pa: int, jl: int, c: int) -> bool {
    let cp = cchs(bp(m0, pa)); let a = cp[jl].a; let b = cp[jl + 1].a; let A = cchs(bp(m0, a)); let o = cchs(bp(m0, b)); let n = o.len() as int; let ck = cp[jl + 1].k;
    &&& pgs3(m, pa, a, b) && 1 <= c < n && cchs(bp(m, b)) == rk(o.subrange(c, n), ek()) && cchs(bp(m, a)) == A + rk(o.subrange(0, c), ck) && cchs(bp(m, pa)) == cp.update(jl + 1, Chd { k: o[c].k, a: b })
    &&& K_nonLeafUnderloadThreshold() <= clsz(o, c, n) - o[c].k.len() <= K_nonLeafOverloadThreshold() && K_nonLeafUnderloadThreshold() <= cload(bp(m0, a)) + clsz(o, 0, c) + ck.len() <= K_nonLeafOverloadThreshold()
}
pub open spec fn mvM(m0: Mem, m: Mem, pa: int, jl: int) -> bool {
    let cp = cchs(bp(m0, pa)); let a = cp[jl].a; let b = cp[jl + 1].a; let A = cchs(bp(m0, a)); let B = cchs(bp(m0, b)); let ck = cp[jl + 1].k;
    &&& bp(m, pa).len() == 8192 && bp(m, a).len() == 8192 && cok(bp(m, pa)) && cok(bp(m, a)) && cchs(bp(m, a)) == A + rk(B, ck) && cchs(bp(m, pa)) == cp.remove(jl + 1)
    &&& K_nonLeafUnderloadThreshold() <= cload(bp(m0, a)) + cload(bp(m0, b)) + ck.len() <= K_nonLeafOverloadThreshold()
}
pub open spec fn mvS(m0: Mem, m: Mem, pa: int, jl: int, c: int, ns: int) -> bool {
    let cp = cchs(bp(m0, pa)); let a = cp[jl].a; let o = cchs(bp(m0, a)); let n = o.len() as int;
    &&& pgs3(m, pa, a, ns) && 1 <= c < n && cchs(bp(m, a)) == o.subrange(0, n - c) && cchs(bp(m, ns)) == rk(o.subrange(n - c, n), ek()) && cchs(bp(m, pa)) == cp.insert(jl + 1, Chd { k: o[n - c].k, a: ns })
    &&& K_nonLeafUnderloadThreshold() <= clsz(o, 0, n - c) <= K_nonLeafOverloadThreshold() && K_nonLeafUnderloadThreshold() <= clsz(o, n - c, n) - o[n - c].k.len() <= K_nonLeafOverloadThreshold()
}
// the path after the step
pub open spec fn qAt(P: Seq<T_recordPathComponent>, Q: Seq<T_recordPathComponent>, i: int, j: int, a: int, x: int) -> bool {
    Q == P.update(i, T_recordPathComponent { NodeAddr: a, RecordOrNonLeafChildIndex: x }).update(i - 1, T_recordPathComponent { NodeAddr: P[i - 1].NodeAddr, RecordOrNonLeafChildIndex: j })
}
pub open spec fn qR(m0: Mem, P: Seq<T_recordPathComponent>, Q: Seq<T_recordPathComponent>, i: int, jl: int, c: int) -> bool {
    let cp = cchs(bp(m0, P[i - 1].NodeAddr)); let a = cp[jl].a; let b = cp[jl + 1].a; let n = cn(bp(m0, a)); let x = P[i].RecordOrNonLeafChildIndex;
    if P[i - 1].RecordOrNonLeafChildIndex == jl + 1 { qAt(P, Q, i, jl + 1, b, x + c) } else if x >= n - c { qAt(P, Q, i, jl + 1, b, x - (n - c)) } else { Q == P }
}
pub open spec fn qL(m0: Mem, P: Seq<T_recordPathComponent>, Q: Seq<T_recordPathComponent>, i: int, jl: int, c: int) -> bool {
    let cp = cchs(bp(m0, P[i - 1].NodeAddr)); let a = cp[jl].a; let b = cp[jl + 1].a; let n = cn(bp(m0, a)); let x = P[i].RecordOrNonLeafChildIndex;
    if P[i - 1].RecordOrNonLeafChildIndex == jl { Q == P } else if x < c { qAt(P, Q, i, jl, a, n + x) } else { qAt(P, Q, i, jl + 1, b, x - c) }
}
pub open spec fn qM(m0: Mem, P: Seq<T_recordPathComponent>, Q: Seq<T_recordPathComponent>, i: int, jl: int) -> bool {
    let cp = cchs(bp(m0, P[i - 1].NodeAddr)); let a = cp[jl].a; let n = cn(bp(m0, a)); let x = P[i].RecordOrNonLeafChildIndex;
    if P[i - 1].RecordOrNonLeafChildIndex == jl { Q == P } else { qAt(P, Q, i, jl, a, n + x) }
}
pub open spec fn qS(m0: Mem, P: Seq<T_recordPathComponent>, Q: Seq<T_recordPathComponent>, i: int, jl: int, c: int, ns: int) -> bool {
    let cp = cchs(bp(m0, P[i - 1].NodeAddr)); let a = cp[jl].a; let n = cn(bp(m0, a)); let x = P[i].RecordOrNonLeafChildIndex;
    if x >= n - c { qAt(P, Q, i, jl + 1, ns, x - (n - c)) } else { Q == P }
}
pub open spec fn spre(h0: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, i: int, xa: int, xb: int) -> bool {
    z_heap_ok(h0) && ixT(h0, t, xa, xb) && pathOK(h0.mem, t.rootAddr, P, t.height) && 1 <= i < t.height - 1
}
pub open spec fn spost(h0: Heap, h: Heap, t0: T_BPTree, t: T_BPTree, P: Seq<T_recordPathComponent>, Q: Seq<T_recordPathComponent>, i: int) -> bool {
    ixT(h, t, P[i - 1].NodeAddr, noix()) && tE(h, t) == tE(h0, t0) && pathOK(h.mem, t.rootAddr, Q, t.height) && ixF(h0, h, tE(h0, t0)) && nOK(h.mem, P[i - 1].NodeAddr) && Q[t.height - 1] == P[t0.height - 1] && Q[i - 1].NodeAddr == P[i - 1].NodeAddr
}
pub proof fn lem_step_R(h0: Heap, h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, Q: Seq<T_recordPathComponent>, i: int, jl: int, c: int, xa: int, xb: int)
    requires spre(h0, t, P, i, xa, xb), h.sp == h0.sp, h.al == h0.al, mvR(h0.mem, h.mem, P[i - 1].NodeAddr, jl, c), qR(h0.mem, P, Q, i, jl, c),
        0 <= jl && jl + 1 < cn(bp(h0.mem, P[i - 1].NodeAddr)), jl <= P[i - 1].RecordOrNonLeafChildIndex <= jl + 1,
        near(stepC(h0, t, P, i), P[i - 1].NodeAddr, jl, xa), near(stepC(h0, t, P, i), P[i - 1].NodeAddr, jl, xb),
        mem_kept3(h0, h, -1 - P[i - 1].NodeAddr, -1 - stepC(h0, t, P, i)[jl].a, -1 - stepC(h0, t, P, i)[jl + 1].a),
    ensures spost(h0, h, t, t, P, Q, i), cn(bp(h.mem, P[i - 1].NodeAddr)) == cn(bp(h0.mem, P[i - 1].NodeAddr))
{
    let m0 = h0.mem; let m = h.mem; let pa = P[i - 1].NodeAddr; let cp = stepC(h0, t, P, i); let a = cp[jl].a; let b = cp[jl + 1].a;
    lem_child(h0, t, P, i, jl, xa, xb); lem_child(h0, t, P, i, jl + 1, xa, xb);
    let o = cchs(bp(m0, a)); let n = o.len() as int; let B = cchs(bp(m0, b)); let k = o[n - c].k;
    lem_chload(bp(m0, b)); lem_mv_right(o, B, cp[jl + 1].k, c); lem_nonleaf_K();
    let A1 = cchs(bp(m, a)); let B1 = cchs(bp(m, b));
    lem_cn2(A1); lem_cn2(B1); lem_good(m, a, i); lem_good(m, b, i);
    assert(pstep(m0, P, i - 1) && pstep(m0, P, i));
    assert(cchs(bp(m, pa)).len() == cp.len());
    assert(cchs(bp(m, pa))[jl].a == a && cchs(bp(m, pa))[jl + 1].a == b);
    let x = P[i].RecordOrNonLeafChildIndex;
    assert(pathQ(m, P, Q, i, t.height)) by {
        if P[i - 1].RecordOrNonLeafChildIndex == jl + 1 { assert(B1[x + c].a == B[x].a); } else if x >= n - c { assert(B1[x - (n - c)].a == o[x].a); } else { assert(A1[x] == o[x]); }
    }
    lem_ix_shift(h0, h, t, P, Q, i, jl, k, xa, xb);
}
pub proof fn lem_step_L(h0: Heap, h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, Q: Seq<T_recordPathComponent>, i: int, jl: int, c: int, xa: int, xb: int)
    requires spre(h0, t, P, i, xa, xb), h.sp == h0.sp, h.al == h0.al, mvL(h0.mem, h.mem, P[i - 1].NodeAddr, jl, c), qL(h0.mem, P, Q, i, jl, c),
        0 <= jl && jl + 1 < cn(bp(h0.mem, P[i - 1].NodeAddr)), jl <= P[i - 1].RecordOrNonLeafChildIndex <= jl + 1,
        near(stepC(h0, t, P, i), P[i - 1].NodeAddr, jl, xa), near(stepC(h0, t, P, i), P[i - 1].NodeAddr, jl, xb),
        mem_kept3(h0, h, -1 - P[i - 1].NodeAddr, -1 - stepC(h0, t, P, i)[jl].a, -1 - stepC(h0, t, P, i)[jl + 1].a),
    ensures spost(h0, h, t, t, P, Q, i), cn(bp(h.mem, P[i - 1].NodeAddr)) == cn(bp(h0.mem, P[i - 1].NodeAddr))
{
    let m0 = h0.mem; let m = h.mem; let pa = P[i - 1].NodeAddr; let cp = stepC(h0, t, P, i); let a = cp[jl].a; let b = cp[jl + 1].a;
    lem_child(h0, t, P, i, jl, xa, xb); lem_child(h0, t, P, i, jl + 1, xa, xb);
    let A = cchs(bp(m0, a)); let o = cchs(bp(m0, b)); let n = o.len() as int; let k = o[c].k;
    lem_chload(bp(m0, a)); lem_mv_left(A, o, cp[jl + 1].k, c); lem_nonleaf_K();
    let A1 = cchs(bp(m, a)); let B1 = cchs(bp(m, b));
    lem_cn2(A1); lem_cn2(B1); lem_good(m, a, i); lem_good(m, b, i);
    assert(pstep(m0, P, i - 1) && pstep(m0, P, i));
    assert(cchs(bp(m, pa)).len() == cp.len());
    assert(cchs(bp(m, pa))[jl].a == a && cchs(bp(m, pa))[jl + 1].a == b);
    let x = P[i].RecordOrNonLeafChildIndex;
    assert(pathQ(m, P, Q, i, t.height)) by {
        if P[i - 1].RecordOrNonLeafChildIndex == jl { assert(A1[x] == A[x]); } else if x < c { assert(A1[A.len() + x].a == o[x].a); } else { assert(B1[x - c].a == o[x].a); }
    }
    lem_ix_shift(h0, h, t, P, Q, i, jl, k, xa, xb);
}
pub proof fn lem_step_M(h0: Heap, h: Heap, t0: T_BPTree, t: T_BPTree, P: Seq<T_recordPathComponent>, Q: Seq<T_recordPathComponent>, i: int, jl: int, xa: int, xb: int)
    requires spre(h0, t0, P, i, xa, xb), h.sp == h0.sp, h.al == h0.al.remove(stepC(h0, t0, P, i)[jl + 1].a), mvM(h0.mem, h.mem, P[i - 1].NodeAddr, jl), qM(h0.mem, P, Q, i, jl),
        t == (T_BPTree { nonLeafCount: t0.nonLeafCount - 1, ..t0 }),
        0 <= jl && jl + 1 < cn(bp(h0.mem, P[i - 1].NodeAddr)), jl <= P[i - 1].RecordOrNonLeafChildIndex <= jl + 1,
        near(stepC(h0, t0, P, i), P[i - 1].NodeAddr, jl, xa), near(stepC(h0, t0, P, i), P[i - 1].NodeAddr, jl, xb),
        mem_kept3(h0, h, -1 - P[i - 1].NodeAddr, -1 - stepC(h0, t0, P, i)[jl].a, -1 - stepC(h0, t0, P, i)[jl + 1].a),
    ensures spost(h0, h, t0, t, P, Q, i), cload(bp(h.mem, P[i - 1].NodeAddr)) <= cload(bp(h0.mem, P[i - 1].NodeAddr))
{
    let m0 = h0.mem; let m = h.mem; let pa = P[i - 1].NodeAddr; let cp = stepC(h0, t0, P, i); let a = cp[jl].a; let b = cp[jl + 1].a;
    lem_child(h0, t0, P, i, jl, xa, xb); lem_child(h0, t0, P, i, jl + 1, xa, xb);
    let A = cchs(bp(m0, a)); let B = cchs(bp(m0, b));
    lem_chload(bp(m0, a)); lem_chload(bp(m0, b)); lem_mv_merge(A, B, cp[jl + 1].k); lem_nonleaf_K(); lem_chload(bp(m0, pa)); lem_chload(bp(m, pa)); lem_chload_rem(cp, jl + 1);
    let A1 = cchs(bp(m, a)); lem_good(m, a, i);
    assert(pstep(m0, P, i - 1) && pstep(m0, P, i));
    assert(cchs(bp(m, pa))[jl].a == a);
    let x = P[i].RecordOrNonLeafChildIndex;
    assert(pathQ(m, P, Q, i, t0.height)) by {
        if P[i - 1].RecordOrNonLeafChildIndex == jl { assert(A1[x] == A[x]); } else { assert(A1[A.len() + x].a == B[x].a); }
    }
    lem_ix_merge(h0, h, t0, t, P, Q, i, jl, xa, xb);
}
pub proof fn lem_step_S(h0: Heap, h: Heap, t0: T_BPTree, t: T_BPTree, P: Seq<T_recordPathComponent>, Q: Seq<T_recordPathComponent>, i: int, c: int, ns: int, xb: int)
    requires spre(h0, t0, P, i, P[i].NodeAddr, xb), h.sp == h0.sp, h.al == h0.al.insert(ns), !h0.al.contains(ns), !h0.sp.contains(ns), ns > 0, mvS(h0.mem, h.mem, P[i - 1].NodeAddr, P[i - 1].RecordOrNonLeafChildIndex, c, ns), qS(h0.mem, P, Q, i, P[i - 1].RecordOrNonLeafChildIndex, c, ns),
        t == (T_BPTree { nonLeafCount: t0.nonLeafCount + 1, ..t0 }), xb == noix() || xb == P[i - 1].NodeAddr,
        mem_kept3(h0, h, -1 - P[i - 1].NodeAddr, -1 - P[i].NodeAddr, -1 - ns),
    ensures spost(h0, h, t0, t, P, Q, i), cload(bp(h.mem, P[i - 1].NodeAddr)) >= cload(bp(h0.mem, P[i - 1].NodeAddr)), cn(bp(h.mem, P[i - 1].NodeAddr)) >= 2
{
    let xa = P[i].NodeAddr; let jl = P[i - 1].RecordOrNonLeafChildIndex;
    let m0 = h0.mem; let m = h.mem; let pa = P[i - 1].NodeAddr; let cp = stepC(h0, t0, P, i); 
    assert(pstep(m0, P, i - 1) && pstep(m0, P, i));
    let a = cp[jl].a;
    lem_child(h0, t0, P, i, jl, xa, xb);
    let o = cchs(bp(m0, a)); let n = o.len() as int; let k = o[n - c].k;
    lem_mv_split(o, c); lem_nonleaf_K(); lem_chload(bp(m0, pa)); lem_chload(bp(m, pa)); lem_chload_ins(cp, jl + 1, Chd { k: k, a: ns });
    let A1 = cchs(bp(m, a)); let B1 = cchs(bp(m, ns));
    lem_cn2(A1); lem_cn2(B1); lem_good(m, a, i); lem_good(m, ns, i);
    assert(cchs(bp(m, pa))[jl].a == a && cchs(bp(m, pa))[jl + 1].a == ns);
    let x = P[i].RecordOrNonLeafChildIndex;
    assert(pathQ(m, P, Q, i, t0.height)) by {
        if x >= n - c { assert(B1[x - (n - c)].a == o[x].a); } else { assert(A1[x] == o[x]); }
    }
    lem_ix_split(h0, h, t0, t, P, Q, i, jl, k, ns, xa, xb);
}

// the load of a new root once its only child is split: far from the threshold
pub proof fn lem_root_S(m0: Mem, m: Mem, pa: int, jl: int, c: int, ns: int)
    requires mvS(m0, m, pa, jl, c, ns), nOK(m0, pa), nOK(m, pa), jl == 0, cn(bp(m0, pa)) == 1, cok(bp(m0, cchs(bp(m0, pa))[0].a))
    ensures cload(bp(m, pa)) <= K_nonLeafOverloadThreshold()
{
    lem_nonleaf_K();
    let cp = cchs(bp(m0, pa)); let o = cchs(bp(m0, cp[jl].a)); let n = o.len() as int;
    lem_chload(bp(m0, pa)); lem_chload(bp(m, pa)); lem_chload(bp(m0, cp[0].a));
    assert(csz(cp, 1) == csz(cp, 0) + cp[0].k.len()); assert(csz(cp, 0) == 0);
    lem_chload_sub(o, n - c, n);
    lem_chload_ins(cp, jl + 1, Chd { k: o[n - c].k, a: ns });
}
