// ---- the height of the tree -------------------------------------------------------------
pub open spec fn tL(h: Heap, t: T_BPTree) -> Seq<Seq<Chd>> { levs(h.mem, t.rootAddr, t.height) }
pub open spec fn tE(h: Heap, t: T_BPTree) -> Seq<Chd> { tL(h, t)[t.height - 1] }
pub open spec fn ixS(h: Heap, L: Seq<Seq<Chd>>, t: T_BPTree) -> bool {
    &&& t.height >= 1 && z_i64ok(t.rootAddr) && L.len() == t.height
    &&& ixA(h.al, L, t.nonLeafCount)
}
pub open spec fn ixA(al: Set<int>, L: Seq<Seq<Chd>>, n: int) -> bool { tight(L, al) && ekOK(L[L.len() - 1]) && n == cnt(L, L.len() - 1) }
pub open spec fn ixT(h: Heap, t: T_BPTree, xa: int, xb: int) -> bool { ixS(h, tL(h, t), t) && ixOK(h.mem, tL(h, t), xa, xb) }
// what the operations on index nodes leave alone
pub open spec fn ixF(h0: Heap, h: Heap, E: Seq<Chd>) -> bool {
    &&& h.sp == h0.sp
    &&& forall|b: int| 0 <= b < h0.nxt ==> #[trigger] h.mem[b] == h0.mem[b]
    &&& forall|a: int| #[trigger] h0.sp.contains(a) ==> h.mem[-1 - a] == h0.mem[-1 - a]
    &&& forall|j: int| 0 <= j < E.len() ==> h.mem[-1 - (#[trigger] E[j]).a] == h0.mem[-1 - E[j].a]
}
pub open spec fn tF(t0: T_BPTree, t: T_BPTree) -> bool {
    t == (T_BPTree { rootAddr: t.rootAddr, height: t.height, nonLeafCount: t.nonLeafCount, ..t0 })
}
pub proof fn lem_nlP(h: Heap, a: int)
    requires z_heap_ok(h), nOK(h.mem, a), h.al.contains(a)
    ensures nlP(h, z_access(h, a)), z_access(h, a).blk == -1 - a, z_access(h, a).blk < 0
{ }
pub proof fn lem_cnt_raise(L: Seq<Seq<Chd>>, r: int, n: int)
    requires 0 <= n <= L.len()
    ensures cnt(seq![root1(r)] + L, n + 1) == 1 + cnt(L, n)
    decreases n
{
    let K = seq![root1(r)] + L;
    if n > 0 { lem_cnt_raise(L, r, n - 1); assert(K[n] == L[n - 1]); assert(cnt(K, n + 1) == cnt(K, n) + K[n].len()); } else { assert(K[0] == root1(r)); assert(cnt(K, 0) == 0); assert(cnt(K, 1) == cnt(K, 0) + K[0].len()); }
}
pub proof fn lem_raise(h0: Heap, h: Heap, t0: T_BPTree, t: T_BPTree)
    requires z_heap_ok(h0), ixT(h0, t0, t0.rootAddr, noix()), t == (T_BPTree { rootAddr: t.rootAddr, height: t0.height + 1, nonLeafCount: t0.nonLeafCount + 1, ..t0 }),
        !h0.al.contains(t.rootAddr) && h.al == h0.al.insert(t.rootAddr) && z_i64ok(t.rootAddr),
        forall|a: int| #[trigger] h0.al.contains(a) ==> h.mem[-1 - a] == h0.mem[-1 - a],
        bp(h.mem, t.rootAddr).len() == 8192, cok(bp(h.mem, t.rootAddr)), cchs(bp(h.mem, t.rootAddr)) == seq![Chd { k: ek(), a: t0.rootAddr }],
    ensures tL(h, t) == seq![root1(t.rootAddr)] + tL(h0, t0), tE(h, t) == tE(h0, t0), ixT(h, t, t0.rootAddr, t.rootAddr), nOK(h.mem, t.rootAddr), cn(bp(h.mem, t.rootAddr)) == 1, cload(bp(h.mem, t.rootAddr)) <= K_nonLeafOverloadThreshold()
{
    let L = tL(h0, t0); let K = seq![root1(t.rootAddr)] + L; let m = h.mem; let m0 = h0.mem; let n = L.len() as int; let r = t.rootAddr;
    lem_levs(m0, t0.rootAddr, t0.height);
    assert(cchs(bp(m, r)).len() == cn(bp(m, r))); assert(cchs(bp(m, r))[0].k.len() == 0); assert(cn(bp(m, r)) == 1);
    assert(K[0] == root1(r));
    assert forall|d: int| 0 <= d < K.len() - 1 implies #[trigger] rep1(m, K, d) by {
        if d == 0 { lem_exf1(m, Chd { k: ek(), a: r }); assert(K[0] =~= seq![Chd { k: ek(), a: r }]); assert(kidsA(m, K[0][0]) =~= root1(t0.rootAddr)); assert(K[1] == L[0]); assert(L[0] == root1(t0.rootAddr)); }
        else {
            assert(rep1(m0, L, d - 1)); assert(K[d] == L[d - 1]); assert(K[d + 1] == L[d]);
            assert forall|j: int| 0 <= j < K[d].len() implies bp(m, #[trigger] K[d][j].a) == bp(m0, K[d][j].a) by { assert(inL(L, d - 1, j)); assert(h0.al.contains(adr(L, d - 1, j))); }
            lem_exf_same(m0, m, K[d]);
        }
    }
    assert(rep(m, r, K)); lem_rep(m, r, K); assert(tL(h, t) == K);
    lem_tight_raise(L, r, h0.al); lem_cnt_raise(L, r, n - 1); assert(K[n] == L[n - 1]);
    lem_chload(bp(m, r)); lem_chload_upd(seq![Chd { k: ek(), a: t0.rootAddr }], 0, Chd { k: ek(), a: t0.rootAddr }); reveal_with_fuel(csz, 2); lem_nonleaf_K();
    assert forall|d: int, j: int| inL(K, d, j) && d < K.len() - 1 implies nodeP(m, #[trigger] adr(K, d, j), d, t0.rootAddr, r) by {
        if d > 0 { assert(K[d] == L[d - 1]); assert(inL(L, d - 1, j)); let a = adr(L, d - 1, j); assert(adr(K, d, j) == a); assert(h0.al.contains(a)); assert(nodeP(m0, a, d - 1, t0.rootAddr, noix())); assert(bp(m, a) == bp(m0, a));
            if d == 1 { assert(L[0] == root1(t0.rootAddr)); assert(a == t0.rootAddr); } }
        else { assert(adr(K, 0, 0) == r); }
    }
}
pub proof fn lem_nonleaf_K()
    ensures K_nonLeafOverloadThreshold() == 7919, K_nonLeafUnderloadThreshold() == 2869, K_maxNonLeafChildSize() == 269
{ }
pub proof fn lem_cnt_lower(L: Seq<Seq<Chd>>, n: int)
    requires 0 <= n < L.len(), L[0].len() == 1
    ensures cnt(L, n + 1) == 1 + cnt(L.subrange(1, L.len() as int), n)
    decreases n
{
    let K = L.subrange(1, L.len() as int);
    if n > 0 { lem_cnt_lower(L, n - 1); assert(K[n - 1] == L[n]); assert(cnt(L, n + 1) == cnt(L, n) + L[n].len()); } else { assert(cnt(L, 0) == 0); assert(cnt(L, 1) == cnt(L, 0) + L[0].len()); }
}
pub proof fn lem_lower(h0: Heap, h: Heap, t0: T_BPTree, t: T_BPTree)
    requires z_heap_ok(h0), t0.height >= 2, ixT(h0, t0, t0.rootAddr, noix()), cn(bp(h0.mem, t0.rootAddr)) == 1,
        t == (T_BPTree { rootAddr: cchs(bp(h0.mem, t0.rootAddr))[0].a, height: t0.height - 1, nonLeafCount: t0.nonLeafCount - 1, ..t0 }),
        h.al == h0.al.remove(t0.rootAddr), forall|a: int| #[trigger] h0.al.contains(a) && a != t0.rootAddr ==> h.mem[-1 - a] == h0.mem[-1 - a],
    ensures tL(h, t) == tL(h0, t0).subrange(1, t0.height), tE(h, t) == tE(h0, t0), ixT(h, t, noix(), noix())
{
    let L = tL(h0, t0); let K = L.subrange(1, L.len() as int); let m = h.mem; let m0 = h0.mem; let n = L.len() as int; let r = t0.rootAddr;
    lem_levs(m0, t0.rootAddr, t0.height);
    assert(L[0] == root1(r)); assert(rep1(m0, L, 0)); lem_exf1(m0, Chd { k: ek(), a: r }); assert(root1(r) =~= seq![Chd { k: ek(), a: r }]);
    assert(cchs(bp(m0, r)).len() == 1); assert(L[1] =~= root1(t.rootAddr)); assert(K[0] == L[1]);
    assert(adr(L, 0, 0) == r);
    assert forall|d: int, j: int| inL(K, d, j) implies h0.al.contains(#[trigger] adr(K, d, j)) && adr(K, d, j) == adr(L, d + 1, j) && adr(K, d, j) != r && bp(m, adr(K, d, j)) == bp(m0, adr(K, d, j)) by {
        assert(K[d] == L[d + 1]); assert(inL(L, d + 1, j)); assert(h0.al.contains(adr(L, d + 1, j))); if adr(L, d + 1, j) == r { lem_dist(L, d + 1, j, 0, 0); } }
    assert forall|d: int| 0 <= d < K.len() - 1 implies #[trigger] rep1(m, K, d) by {
        assert(rep1(m0, L, d + 1)); assert(K[d] == L[d + 1]); assert(K[d + 1] == L[d + 2]);
        assert forall|j: int| 0 <= j < K[d].len() implies bp(m, #[trigger] K[d][j].a) == bp(m0, K[d][j].a) by { assert(inL(K, d, j)); assert(K[d][j].a == adr(K, d, j)); }
        lem_exf_same(m0, m, K[d]);
    }
    assert(rep(m, t.rootAddr, K)); lem_rep(m, t.rootAddr, K); assert(tL(h, t) == K);
    lem_tight_lower(L, h0.al); lem_cnt_lower(L, n - 2); assert(K[n - 2] == L[n - 1]);
    assert forall|d: int, j: int| inL(K, d, j) && d < K.len() - 1 implies nodeP(m, #[trigger] adr(K, d, j), d, noix(), noix()) by {
        let a = adr(K, d, j); assert(inL(L, d + 1, j)); assert(nodeP(m0, adr(L, d + 1, j), d + 1, r, noix())); assert(a > 0);
    }
}
