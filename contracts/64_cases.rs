// ---- moving children between neighbours, as seen by the tree ---------------------------------
pub open spec fn good(x: Seq<Chd>) -> bool { x.len() >= 2 && K_nonLeafUnderloadThreshold() <= chload(x) <= K_nonLeafOverloadThreshold() && x[0].k.len() == 0 }
pub proof fn lem_good(m: Mem, a: int, d: int)
    requires bp(m, a).len() == 8192, cok(bp(m, a)), good(cchs(bp(m, a)))
    ensures nodeP(m, a, d, noix(), noix()), nOK(m, a), nB(m, a, d)
{ lem_chload(bp(m, a)); }
pub proof fn lem_cn2(x: Seq<Chd>)
    requires chsMax(x), chload(x) > 269
    ensures x.len() >= 2
{ lem_nonleaf_K(); if x.len() == 1 { assert(csz(x, 1) == csz(x, 0) + x[0].k.len()); } }
// the last children of o move in front of those of the right neighbour B
pub proof fn lem_mv_right(o: Seq<Chd>, B: Seq<Chd>, ck: Seq<u8>, c: int)
    requires 1 <= c < o.len(), B.len() >= 1, B[0].k.len() == 0, o[0].k.len() == 0, chsMax(o), chsMax(B), ck.len() <= 257,
    ensures ({ let n = o.len() as int; let k = o[n - c].k; let A1 = o.subrange(0, n - c); let B1 = rk(o.subrange(n - c, n), ek()) + rk(B, ck);
        A1 + rk(B1, k) == o + rk(B, ck) && chload(A1) == clsz(o, 0, n - c) && chload(B1) == chload(B) + clsz(o, n - c, n) - k.len() + ck.len() && chsMax(A1) && chsMax(B1) && A1[0].k.len() == 0 && B1[0].k.len() == 0 && k.len() <= 257 })
{
    let n = o.len() as int; let k = o[n - c].k; let S = o.subrange(n - c, n); let A1 = o.subrange(0, n - c); let B1 = rk(S, ek()) + rk(B, ck);
    lem_nonleaf_K();
    assert(S[0] == o[n - c]); assert(rk(B1, k) =~= S + rk(B, ck)); assert(A1 + rk(B1, k) =~= o + rk(B, ck));
    lem_chload_sub(o, 0, n - c); lem_chload_sub(o, n - c, n); lem_chload_upd(S, 0, Chd { k: ek(), a: S[0].a }); lem_chload_upd(B, 0, Chd { k: ck, a: B[0].a }); lem_chload_cat(rk(S, ek()), rk(B, ck));
    assert(12 + o[n - c].k.len() <= 269);
}
pub proof fn lem_mv_split(o: Seq<Chd>, c: int)
    requires 1 <= c < o.len(), o[0].k.len() == 0, chsMax(o)
    ensures ({ let n = o.len() as int; let k = o[n - c].k; let A1 = o.subrange(0, n - c); let B1 = rk(o.subrange(n - c, n), ek());
        A1 + rk(B1, k) == o && chload(A1) == clsz(o, 0, n - c) && chload(B1) == clsz(o, n - c, n) - k.len() && chsMax(A1) && chsMax(B1) && A1[0].k.len() == 0 && B1[0].k.len() == 0 && k.len() <= 257 })
{
    let n = o.len() as int; let k = o[n - c].k; let S = o.subrange(n - c, n); let A1 = o.subrange(0, n - c); let B1 = rk(S, ek());
    lem_nonleaf_K();
    assert(S[0] == o[n - c]); assert(rk(B1, k) =~= S); assert(A1 + rk(B1, k) =~= o);
    lem_chload_sub(o, 0, n - c); lem_chload_sub(o, n - c, n); lem_chload_upd(S, 0, Chd { k: ek(), a: S[0].a });
    assert(12 + o[n - c].k.len() <= 269);
}
// the first children of o move behind those of the left neighbour A
pub proof fn lem_mv_left(A: Seq<Chd>, o: Seq<Chd>, ck: Seq<u8>, c: int)
    requires 1 <= c < o.len(), A.len() >= 1, A[0].k.len() == 0, o[0].k.len() == 0, chsMax(o), chsMax(A), ck.len() <= 257,
    ensures ({ let n = o.len() as int; let k = o[c].k; let A1 = A + rk(o.subrange(0, c), ck); let B1 = rk(o.subrange(c, n), ek());
        A1 + rk(B1, k) == A + rk(o, ck) && chload(A1) == chload(A) + clsz(o, 0, c) + ck.len() && chload(B1) == clsz(o, c, n) - k.len() && chsMax(A1) && chsMax(B1) && A1[0].k.len() == 0 && B1[0].k.len() == 0 && k.len() <= 257 })
{
    let n = o.len() as int; let k = o[c].k; let S = o.subrange(c, n); let T = o.subrange(0, c); let A1 = A + rk(T, ck); let B1 = rk(S, ek());
    lem_nonleaf_K();
    assert(S[0] == o[c]); assert(rk(B1, k) =~= S); assert(A1 + rk(B1, k) =~= A + rk(o, ck));
    lem_chload_sub(o, 0, c); lem_chload_sub(o, c, n); lem_chload_upd(S, 0, Chd { k: ek(), a: S[0].a }); lem_chload_upd(T, 0, Chd { k: ck, a: T[0].a }); lem_chload_cat(A, rk(T, ck));
    assert(12 + o[c].k.len() <= 269);
}
pub proof fn lem_mv_merge(A: Seq<Chd>, B: Seq<Chd>, ck: Seq<u8>)
    requires A.len() >= 1, B.len() >= 1, A[0].k.len() == 0, B[0].k.len() == 0
    ensures ({ let A1 = A + rk(B, ck); chload(A1) == chload(A) + chload(B) + ck.len() && A1.len() >= 2 && A1[0].k.len() == 0 })
{ lem_chload_upd(B, 0, Chd { k: ck, a: B[0].a }); lem_chload_cat(A, rk(B, ck)); }
// ---- the neighbourhood of a node on a path ----------------------------------------------------
// child j of the node at depth i-1
pub proof fn lem_child(h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, i: int, j: int, xa: int, xb: int)
    requires z_heap_ok(h), ixT(h, t, xa, xb), pathOK(h.mem, t.rootAddr, P, t.height), 1 <= i < t.height, 0 <= j < cn(bp(h.mem, P[i - 1].NodeAddr))
    ensures ({ let L = tL(h, t); let pa = P[i - 1].NodeAddr; let c = cchs(bp(h.mem, pa)); let q = off(h.mem, L[i - 1], pos(h.mem, L, P, i - 1)) + j;
        inL(L, i, q) && L[i][q].a == c[j].a && h.al.contains(c[j].a) && c[j].a > 0 && c[j].a != pa && h.al.contains(pa) && c[j].k.len() <= 257
        && nodeP(h.mem, pa, i - 1, xa, xb) && (i < t.height - 1 ==> nodeP(h.mem, c[j].a, i, xa, xb) && chsMax(cchs(bp(h.mem, c[j].a)))) && chsMax(c) && pos(h.mem, L, P, i) == q - j + P[i - 1].RecordOrNonLeafChildIndex })
{
    let L = tL(h, t); let m = h.mem; lem_levs(m, t.rootAddr, t.height); lem_pos(m, t.rootAddr, L, P, i - 1); let p = pos(m, L, P, i - 1); let e = L[i - 1][p]; let c = cchs(bp(m, e.a));
    assert(nodeP(m, adr(L, i - 1, p), i - 1, xa, xb)); lem_exf_at(m, L[i - 1], p); assert(rep1(m, L, i - 1));
    let o = off(m, L[i - 1], p); assert(L[i][o + j] == kidsA(m, e)[j]); assert(inL(L, i, o + j)); assert(h.al.contains(adr(L, i, o + j))); assert(h.al.contains(adr(L, i - 1, p)));
    if c[j].a == e.a { lem_dist(L, i, o + j, i - 1, p); }
    lem_node_keys(m, t.rootAddr, L, xa, xb, i - 1, p);
    if i < t.height - 1 { assert(nodeP(m, adr(L, i, o + j), i, xa, xb)); lem_node_keys(m, t.rootAddr, L, xa, xb, i, o + j); }
}
pub proof fn lem_child_ne(h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, i: int, j1: int, j2: int, xa: int, xb: int)
    requires z_heap_ok(h), ixT(h, t, xa, xb), pathOK(h.mem, t.rootAddr, P, t.height), 1 <= i < t.height, 0 <= j1 < cn(bp(h.mem, P[i - 1].NodeAddr)), 0 <= j2 < cn(bp(h.mem, P[i - 1].NodeAddr)), j1 != j2
    ensures cchs(bp(h.mem, P[i - 1].NodeAddr))[j1].a != cchs(bp(h.mem, P[i - 1].NodeAddr))[j2].a
{
    let L = tL(h, t); let m = h.mem; lem_child(h, t, P, i, j1, xa, xb); lem_child(h, t, P, i, j2, xa, xb); let o = off(m, L[i - 1], pos(m, L, P, i - 1));
    if cchs(bp(h.mem, P[i - 1].NodeAddr))[j1].a == cchs(bp(h.mem, P[i - 1].NodeAddr))[j2].a { lem_dist(L, i, o + j1, i, o + j2); }
}
// the node at depth i of a path
pub proof fn lem_onpath(h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, i: int, xa: int, xb: int)
    requires z_heap_ok(h), ixT(h, t, xa, xb), pathOK(h.mem, t.rootAddr, P, t.height), 0 <= i < t.height
    ensures h.al.contains(P[i].NodeAddr), P[i].NodeAddr > 0, i < t.height - 1 ==> nodeP(h.mem, P[i].NodeAddr, i, xa, xb) && chsMax(cchs(bp(h.mem, P[i].NodeAddr))) && pstep(h.mem, P, i),
        inL(tL(h, t), i, pos(h.mem, tL(h, t), P, i)), tL(h, t)[i][pos(h.mem, tL(h, t), P, i)].a == P[i].NodeAddr,
{
    let L = tL(h, t); let m = h.mem; lem_levs(m, t.rootAddr, t.height); lem_pos(m, t.rootAddr, L, P, i); let p = pos(m, L, P, i);
    assert(h.al.contains(adr(L, i, p)));
    if i < t.height - 1 { assert(nodeP(m, adr(L, i, p), i, xa, xb)); lem_node_keys(m, t.rootAddr, L, xa, xb, i, p); assert(pstep(m, P, i)); }
}
pub proof fn lem_onpath_ne(h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, i: int, j: int, xa: int, xb: int)
    requires z_heap_ok(h), ixT(h, t, xa, xb), pathOK(h.mem, t.rootAddr, P, t.height), 0 <= i < t.height, 0 <= j < t.height, i != j
    ensures P[i].NodeAddr != P[j].NodeAddr
{
    let L = tL(h, t); lem_onpath(h, t, P, i, xa, xb); lem_onpath(h, t, P, j, xa, xb);
    if P[i].NodeAddr == P[j].NodeAddr { lem_dist(L, i, pos(h.mem, L, P, i), j, pos(h.mem, L, P, j)); }
}
// the load of the node at depth i is in order
pub proof fn lem_ix_clear(h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, i: int, xb: int)
    requires z_heap_ok(h), ixT(h, t, P[i].NodeAddr, xb), pathOK(h.mem, t.rootAddr, P, t.height), 0 <= i < t.height - 1, nB(h.mem, P[i].NodeAddr, i)
    ensures ixT(h, t, noix(), xb)
{
    let L = tL(h, t); let m = h.mem; let xa = P[i].NodeAddr; lem_onpath(h, t, P, i, xa, xb); let p = pos(m, L, P, i);
    assert forall|d: int, j: int| inL(L, d, j) && d < L.len() - 1 implies nodeP(m, #[trigger] adr(L, d, j), d, noix(), xb) by {
        assert(nodeP(m, adr(L, d, j), d, xa, xb)); if adr(L, d, j) == xa { lem_dist(L, d, j, i, p); }
    }
}
// the path after the height has changed
pub proof fn lem_path_raise(h0: Heap, h: Heap, t0: T_BPTree, t: T_BPTree, P: Seq<T_recordPathComponent>, Q: Seq<T_recordPathComponent>, xa: int, xb: int)
    requires z_heap_ok(h0), ixT(h0, t0, xa, xb), pathOK(h0.mem, t0.rootAddr, P, t0.height), t.height == t0.height + 1,
        forall|a: int| #[trigger] h0.al.contains(a) ==> h.mem[-1 - a] == h0.mem[-1 - a],
        cn(bp(h.mem, t.rootAddr)) == 1, cchs(bp(h.mem, t.rootAddr))[0].a == t0.rootAddr,
        Q.len() == P.len() + 1, Q[0] == (T_recordPathComponent { NodeAddr: t.rootAddr, RecordOrNonLeafChildIndex: 0 }), forall|d: int| 1 <= d < Q.len() ==> #[trigger] Q[d] == P[d - 1],
    ensures pathOK(h.mem, t.rootAddr, Q, t.height)
{
    assert forall|d: int| 0 <= d < t.height - 1 implies #[trigger] pstep(h.mem, Q, d) by {
        if d > 0 { assert(pstep(h0.mem, P, d - 1)); lem_onpath(h0, t0, P, d - 1, xa, xb); assert(Q[d] == P[d - 1]); assert(Q[d + 1] == P[d]); }
        else { assert(Q[1] == P[0]); }
    }
}
pub proof fn lem_path_lower(h0: Heap, h: Heap, t0: T_BPTree, t: T_BPTree, P: Seq<T_recordPathComponent>, Q: Seq<T_recordPathComponent>, xa: int, xb: int)
    requires z_heap_ok(h0), ixT(h0, t0, xa, xb), pathOK(h0.mem, t0.rootAddr, P, t0.height), t0.height >= 2, t.height == t0.height - 1, cn(bp(h0.mem, t0.rootAddr)) == 1, t.rootAddr == cchs(bp(h0.mem, t0.rootAddr))[0].a,
        forall|a: int| #[trigger] h0.al.contains(a) && a != t0.rootAddr ==> h.mem[-1 - a] == h0.mem[-1 - a],
        Q.len() == P.len() - 1, forall|d: int| 0 <= d < Q.len() ==> #[trigger] Q[d] == P[d + 1],
    ensures pathOK(h.mem, t.rootAddr, Q, t.height)
{
    assert(pstep(h0.mem, P, 0)); assert(Q[0] == P[1]);
    assert forall|d: int| 0 <= d < t.height - 1 implies #[trigger] pstep(h.mem, Q, d) by {
        assert(pstep(h0.mem, P, d + 1)); lem_onpath(h0, t0, P, d + 1, xa, xb); lem_onpath_ne(h0, t0, P, d + 1, 0, xa, xb); assert(Q[d] == P[d + 1]); assert(Q[d + 1] == P[d + 2]);
    }
}
