// a leaf is taken out of the ring
pub proof fn lem_unl(h0: Heap, h: Heap, t0: T_BPTree, t: T_BPTree, P: Seq<T_recordPathComponent>, p: int, xl: int)
    requires z_heap_ok(h0), ixT(h0, t0, noix(), noix()), lfT(h0, t0, xl, noix()), pathOK(h0.mem, t0.rootAddr, P, t0.height), t0.height >= 2, tE(h0, t0).len() >= 2, 0 <= p < tE(h0, t0).len(),
        ({ let a = tE(h0, t0)[p].a; linkRem(h0.mem, h.mem, a) && mem_kept3(h0, h, -1 - pvq(bp(h0.mem, a)), -1 - nxq(bp(h0.mem, a)), -1 - nxq(bp(h0.mem, a)))
           && t == (T_BPTree { leafList: (if a == t0.leafList.headAddr { T_leafList { headAddr: nxq(bp(h0.mem, a)), tailAddr: t0.leafList.tailAddr } } else if a == t0.leafList.tailAddr { T_leafList { tailAddr: pvq(bp(h0.mem, a)), headAddr: t0.leafList.headAddr } } else { t0.leafList }), ..t0 }) }),
        h.al == h0.al, h.sp == h0.sp, h0.nxt <= h.nxt,
    ensures ixT(h, t, noix(), noix()), pathOK(h.mem, t.rootAddr, P, t.height), tE(h, t) == tE(h0, t0), tL(h, t) == tL(h0, t0), lfs(h.mem, tE(h0, t0), xl, noix()), ring(h.mem, tE(h0, t0).remove(p)), ends(tE(h0, t0).remove(p), t.leafList),
        lmid(h0, h, t0, t), bp(h.mem, P[t.height - 2].NodeAddr) == bp(h0.mem, P[t.height - 2].NodeAddr),
        forall|j: int| 0 <= j < tE(h0, t0).len() ==> dataSame(bp(h0.mem, (#[trigger] tE(h0, t0)[j]).a), bp(h.mem, tE(h0, t0)[j].a)),
{
    let E = tE(h0, t0); let n = E.len() as int; let x = nxi(n, p); let y = pvi(n, p); let m0 = h0.mem; let m = h.mem;
    lem_E(h0, t0, noix(), noix()); assert(ring1(m0, E, p));
    assert forall|b: int| b < h0.nxt && !inE(E, -1 - b) implies #[trigger] m[b] == m0[b] by {
        if b == -1 - E[x].a { assert(E[x].a == -1 - b); } else if b == -1 - E[y].a { assert(E[y].a == -1 - b); }
    }
    lem_leafw(h0, h, t0, t, noix(), noix()); lem_leafw_path(h0, h, t0, P, noix(), noix());
    assert forall|j: int| 0 <= j < n && j != x && j != y implies bp(m, #[trigger] E[j].a) == bp(m0, E[j].a) by { assert(E[j].a != E[x].a); assert(E[j].a != E[y].a); assert(h0.al.contains(E[j].a)); assert(m[-1 - E[j].a] == m0[-1 - E[j].a]); }
    lem_ring_rem(m0, m, E, p, t0.leafList, t.leafList);
    lem_lf_data(m0, m, E, xl, noix());
    lem_onpath(h0, t0, P, t0.height - 2, noix(), noix()); let L = tL(h0, t0); let pp = pos(m0, L, P, t0.height - 2); let pa = P[t0.height - 2].NodeAddr; lem_levs(m0, t0.rootAddr, t0.height);
    if inE(E, pa) { let k = choose|k: int| 0 <= k < E.len() && (#[trigger] E[k]).a == pa; lem_dist(L, t0.height - 2, pp, t0.height - 1, k); }
    assert(m[-1 - pa] == m0[-1 - pa]);
}
// what can be taken out of the ring
pub proof fn lem_unl_pre(h: Heap, t: T_BPTree, p: int, xl: int)
    requires z_heap_ok(h), ixT(h, t, noix(), noix()), lfT(h, t, xl, noix()), tE(h, t).len() >= 2, 0 <= p < tE(h, t).len()
    ensures ({ let a = tE(h, t)[p].a; h.al.contains(a) && h.al.contains(nxq(bp(h.mem, a))) && h.al.contains(pvq(bp(h.mem, a))) && a != nxq(bp(h.mem, a)) && a != pvq(bp(h.mem, a)) && bp(h.mem, a).len() == 8192 && bp(h.mem, nxq(bp(h.mem, a))).len() == 8192 && bp(h.mem, pvq(bp(h.mem, a))).len() == 8192 })
{
    let E = tE(h, t); let n = E.len() as int; lem_E(h, t, noix(), noix()); assert(ring1(h.mem, E, p)); let x = nxi(n, p); let y = pvi(n, p);
    assert(lf1(h.mem, E, xl, noix(), p)); assert(lf1(h.mem, E, xl, noix(), x)); assert(lf1(h.mem, E, xl, noix(), y));
    assert(h.al.contains(E[x].a) && h.al.contains(E[y].a) && h.al.contains(E[p].a));
    assert(E[x].a != E[p].a && E[y].a != E[p].a);
}
// leaf b is merged into its left neighbour a
pub open spec fn lmg(m0: Mem, m: Mem, pa: int, jl: int) -> bool {
    let cp = cchs(bp(m0, pa)); let a = cp[jl].a; let b = cp[jl + 1].a;
    &&& bp(m, pa).len() == 8192 && bp(m, a).len() == 8192 && cok(bp(m, pa)) && lok(bp(m, a)) && lnk(bp(m, a), bp(m0, a))
    &&& lrecs(bp(m, a)) == lrecs(bp(m0, a)) + lrecs(bp(m0, b)) && cchs(bp(m, pa)) == cp.remove(jl + 1)
}
pub proof fn lem_lstep_M(h0: Heap, h: Heap, t0: T_BPTree, t: T_BPTree, P: Seq<T_recordPathComponent>, Q: Seq<T_recordPathComponent>, jl: int, xl: int)
    requires z_heap_ok(h0), t0.height >= 2, ixT(h0, t0, noix(), noix()), pathOK(h0.mem, t0.rootAddr, P, t0.height), 0 <= jl, jl + 1 < stepC(h0, t0, P, t0.height - 1).len(), jl <= P[t0.height - 2].RecordOrNonLeafChildIndex <= jl + 1,
        cn(bp(h0.mem, P[t0.height - 2].NodeAddr)) == stepC(h0, t0, P, t0.height - 1).len(),
        ({ let cp = stepC(h0, t0, P, t0.height - 1); let pa = P[t0.height - 2].NodeAddr; let a = cp[jl].a; let b = cp[jl + 1].a; let E = tE(h0, t0); let q = lfq(h0, t0, P, jl);
           h.sp == h0.sp && h.al == h0.al.remove(b) && h0.nxt <= h.nxt && lmg(h0.mem, h.mem, pa, jl) && mem_kept3(h0, h, -1 - pa, -1 - a, -1 - b) && (xl == a || xl == b) && lQ(h0.mem, P, Q, t0.height, jl, a)
           && lfs(h0.mem, E, xl, noix()) && ring(h0.mem, E.remove(q + 1)) && ends(E.remove(q + 1), t.leafList) && t == (T_BPTree { leafCount: t0.leafCount - 1, ..t0 }) && t0.leafCount == E.len() && lload(bp(h0.mem, a)) + lload(bp(h0.mem, b)) <= K_leafOverloadThreshold() }),
    ensures ixT(h, t, P[t0.height - 2].NodeAddr, noix()), pathOK(h.mem, t.rootAddr, Q, t.height), lfT(h, t, noix(), noix()), lmid(h0, h, t0, t), cload(bp(h.mem, P[t0.height - 2].NodeAddr)) <= cload(bp(h0.mem, P[t0.height - 2].NodeAddr))
{
    let i = t0.height - 1; let m0 = h0.mem; let m = h.mem; let pa = P[i - 1].NodeAddr; let cp = stepC(h0, t0, P, i); let a = cp[jl].a; let b = cp[jl + 1].a; let E = tE(h0, t0); let q = lfq(h0, t0, P, jl);
    lem_child(h0, t0, P, i, jl, noix(), noix()); lem_child(h0, t0, P, i, jl + 1, noix(), noix()); lem_E(h0, t0, noix(), noix());
    assert(0 <= q && q + 1 < E.len() && E[q].a == a && E[q + 1].a == b);
    assert(lf1(m0, E, xl, noix(), q)); assert(lf1(m0, E, xl, noix(), q + 1)); assert(a != b);
    lem_rload(bp(m, a)); lem_rload(bp(m0, a)); lem_rload(bp(m0, b)); lem_rload_cat(lrecs(bp(m0, a)), lrecs(bp(m0, b)));
    assert(lload(bp(m, a)) == lload(bp(m0, a)) + lload(bp(m0, b)));
    assert(lB(bp(m, a), 2));
    assert(cchs(bp(m, pa)).len() == cp.len() - 1); assert(cchs(bp(m, pa))[jl].a == a);
    lem_lf_merge(h0, h, t0, P, Q, jl, noix(), noix(), xl);
    lem_ix_fields(h, t0, t, pa, noix());
}
// a tree of one leaf
pub proof fn lem_nH1(L: Seq<Seq<Chd>>, m: Mem, root: int)
    requires L.len() >= 1
    ensures L == levs(m, root, 1) ==> L[0].len() == 1
{ if L == levs(m, root, 1) { lem_levs(m, root, 1); } }
pub proof fn lem_lfq(h0: Heap, h: Heap, t0: T_BPTree, t: T_BPTree, P: Seq<T_recordPathComponent>, jl: int)
    requires z_heap_ok(h0), z_heap_ok(h), ixT(h0, t0, noix(), noix()), ixT(h, t, noix(), noix()), pathOK(h0.mem, t0.rootAddr, P, t0.height), pathOK(h.mem, t.rootAddr, P, t.height), tE(h, t) == tE(h0, t0), t.height == t0.height, t.height >= 2,
        bp(h.mem, P[t.height - 2].NodeAddr) == bp(h0.mem, P[t.height - 2].NodeAddr), 0 <= jl < cn(bp(h0.mem, P[t.height - 2].NodeAddr))
    ensures lfq(h, t, P, jl) == lfq(h0, t0, P, jl), jl >= 1 ==> lfq(h, t, P, jl - 1) == lfq(h0, t0, P, jl) - 1
{
    let i = t.height - 1; lem_child(h0, t0, P, i, jl, noix(), noix()); lem_child(h, t, P, i, jl, noix(), noix()); lem_E(h0, t0, noix(), noix());
}
