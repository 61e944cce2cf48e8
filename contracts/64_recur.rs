// ---- what the fixing of an index node needs and does --------------------------------------------
pub open spec fn pth(h: Heap, rp: Sl) -> Seq<T_recordPathComponent> { z_seq_c_recordPathComponent(h, rp) }
pub open spec fn rpre(h: Heap, t: T_BPTree, rp: Sl, i: int, xb: int) -> bool {
    z_wf_c_recordPathComponent(h, rp) && rp.ep == 0 && pathOK(h.mem, t.rootAddr, pth(h, rp), t.height) && 0 <= i < t.height - 1 && ixT(h, t, pth(h, rp)[i].NodeAddr, xb)
}
pub open spec fn rpost(h0: Heap, h: Heap, t0: T_BPTree, t: T_BPTree, rp0: Sl, rp: Sl) -> bool {
    &&& z_wf_c_recordPathComponent(h, rp) && rp.ep == 0 && pathOK(h.mem, t.rootAddr, pth(h, rp), t.height) && ixT(h, t, noix(), noix())
    &&& rmid(h0, h, t0, t, rp0, rp)
}
pub open spec fn rmid(h0: Heap, h: Heap, t0: T_BPTree, t: T_BPTree, rp0: Sl, rp: Sl) -> bool {
    tE(h, t) == tE(h0, t0) && ixF(h0, h, tE(h0, t0)) && tF(t0, t) && pth(h, rp)[t.height - 1] == pth(h0, rp0)[t0.height - 1]
}
pub proof fn lem_rmid(h0: Heap, h1: Heap, h: Heap, t0: T_BPTree, t1: T_BPTree, t: T_BPTree, rp0: Sl, rp1: Sl, rp: Sl)
    requires rmid(h0, h1, t0, t1, rp0, rp1), rmid(h1, h, t1, t, rp1, rp), h0.nxt <= h1.nxt
    ensures rmid(h0, h, t0, t, rp0, rp)
{ lem_ixF_trans(h0, h1, h, tE(h0, t0)); }
// after the height has been increased, if the root was overloaded
pub open spec fn ovM(h0: Heap, h: Heap, t0: T_BPTree, t: T_BPTree, rp0: Sl, rp: Sl, i0: int, i: int) -> bool {
    let P0 = pth(h0, rp0); let P = pth(h, rp); let a = P0[i0].NodeAddr; let xb = if i0 == 0 { P[0].NodeAddr } else { noix() };
    &&& i >= 1 && P[i] == P0[i0] && rpre(h, t, rp, i, xb) && rmid(h0, h, t0, t, rp0, rp) && bp(h.mem, a) == bp(h0.mem, a) && h0.nxt <= h.nxt
    &&& i == (if i0 == 0 { 1 } else { i0 })
    &&& ovP(h, P[i - 1].NodeAddr, i - 1)
}
// the parent: a new root has one child only
pub open spec fn ovP(h: Heap, pa: int, d: int) -> bool {
    nOK(h.mem, pa) && cload(bp(h.mem, pa)) <= K_nonLeafOverloadThreshold() && (d > 0 ==> cload(bp(h.mem, pa)) >= K_nonLeafUnderloadThreshold()) && cn(bp(h.mem, pa)) >= 1
}
pub proof fn lem_ovM(h0: Heap, h: Heap, t0: T_BPTree, t: T_BPTree, rp0: Sl, rp: Sl)
    requires z_heap_ok(h0), rpre(h0, t0, rp0, 0, noix()), tF(t0, t), t.height == t0.height + 1, z_wf_c_recordPathComponent(h, rp), rp.ep == 0, h.nxt >= h0.nxt,
        tL(h, t) == seq![root1(t.rootAddr)] + tL(h0, t0), ixT(h, t, t0.rootAddr, t.rootAddr), nOK(h.mem, t.rootAddr), cchs(bp(h.mem, t.rootAddr)) == seq![Chd { k: ek(), a: t0.rootAddr }], cload(bp(h.mem, t.rootAddr)) <= K_nonLeafOverloadThreshold(), cn(bp(h.mem, t.rootAddr)) == 1,
        ixF(h0, h, tE(h0, t0)), !h0.al.contains(t.rootAddr), forall|b: int| b < h0.nxt && b != -1 - t.rootAddr ==> #[trigger] h.mem[b] == h0.mem[b],
        pth(h, rp) == seq![T_recordPathComponent { NodeAddr: t.rootAddr, RecordOrNonLeafChildIndex: 0 }] + pth(h0, rp0),
    ensures ovM(h0, h, t0, t, rp0, rp, 0, 1)
{
    let P0 = pth(h0, rp0); let P = pth(h, rp); let xa = P0[0].NodeAddr;
    assert forall|a: int| #[trigger] h0.al.contains(a) implies h.mem[-1 - a] == h0.mem[-1 - a] by { assert(a > 0 && a != t.rootAddr); }
    assert(cchs(bp(h.mem, t.rootAddr))[0].a == t0.rootAddr);
    lem_path_raise(h0, h, t0, t, P0, P, xa, noix());
    lem_onpath(h0, t0, P0, 0, xa, noix());
    assert(P[1] == P0[0]); assert(P[t.height - 1] == P0[t0.height - 1]);
    assert(tE(h, t) == tE(h0, t0));
}
pub proof fn lem_ovM0(h: Heap, t: T_BPTree, rp: Sl, i: int)
    requires z_heap_ok(h), rpre(h, t, rp, i, noix()), i >= 1
    ensures ovM(h, h, t, t, rp, rp, i, i)
{
    let P = pth(h, rp); let xa = P[i].NodeAddr;
    lem_onpath(h, t, P, i, xa, noix()); lem_onpath(h, t, P, i - 1, xa, noix()); lem_onpath_ne(h, t, P, i, i - 1, xa, noix());
    assert(nodeP(h.mem, P[i - 1].NodeAddr, i - 1, xa, noix()));
}
