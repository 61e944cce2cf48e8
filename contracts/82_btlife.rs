// ---- creating, destroying, storing and loading a tree --------------------------------------------------
pub open spec fn btNew(t: T_BPTree, fs: int) -> bool {
    t == (T_BPTree { fileStorage: fs, rootAddr: -1, height: 0, leafList: T_leafList { tailAddr: -1, headAddr: -1 }, leafCount: 0, nonLeafCount: 0, recordCount: 0, payloadSize: 0 })
}
pub open spec fn btOf(i: T_bpTreeInfo, fs: int) -> T_BPTree {
    T_BPTree { fileStorage: fs, rootAddr: i.RootAddr, height: i.Height, leafList: T_leafList { tailAddr: i.LeafListTailAddr, headAddr: i.LeafListHeadAddr }, leafCount: i.LeafCount, nonLeafCount: i.NonLeafCount, recordCount: i.RecordCount, payloadSize: i.PayloadSize }
}
// the tree t lies stored in the file, its description at address a
pub open spec fn btStored(h: Heap, a: int, t: T_BPTree) -> bool {
    &&& a > 0 && z_i64ok(a) && h.sp.contains(a) && !isOv(tR(h, t), a) && tP(h, t)
    &&& h.mem[-1 - a].len() >= enc_size_bpTreeInfo() && btOf(dec_bpTreeInfo(h.mem[-1 - a]), t.fileStorage) == t
}
// a page with no records that links to itself is a tree with no records
pub proof fn lem_tree0(h: Heap, t: T_BPTree)
    requires z_heap_ok(h), t.height == 1, z_i64ok(t.rootAddr), t.rootAddr > 0, h.al == Set::<int>::empty().insert(t.rootAddr), t.leafList.headAddr == t.rootAddr, t.leafList.tailAddr == t.rootAddr,
        t.leafCount == 1, t.nonLeafCount == 0, t.recordCount == 0, t.payloadSize == 0,
        ({ let q = bp(h.mem, t.rootAddr); q.len() == 8192 && lok(q) && lrecs(q) == Seq::<Rec>::empty() && nxq(q) == t.rootAddr && pvq(q) == t.rootAddr })
    ensures tP(h, t), tR(h, t) == Seq::<Rec>::empty(), tC(h, t) == Seq::<KV>::empty()
{
    let L = tL(h, t); let m = h.mem; lem_levs(m, t.rootAddr, 1); assert(L[0] == lev(m, t.rootAddr, 0)); assert(L[0] == root1(t.rootAddr)); let E = tE(h, t); let q = bp(m, t.rootAddr);
    assert(adr(L, 0, 0) == t.rootAddr); assert(at(L, 0, 0, t.rootAddr));
    reveal(dist);
    assert(tight(L, h.al)) by {
        assert(L.len() == 1 && L[0].len() == 1);
        assert forall|d1: int, j1: int, d2: int, j2: int| inL(L, d1, j1) && inL(L, d2, j2) && #[trigger] adr(L, d1, j1) == #[trigger] adr(L, d2, j2) implies d1 == d2 && j1 == j2 by { assert(d1 == 0 && d2 == 0); assert(j1 == 0 && j2 == 0); }
        assert forall|d: int, j: int| inL(L, d, j) implies h.al.contains(#[trigger] adr(L, d, j)) by { assert(d == 0 && j == 0); }
        assert(alive(L, h.al));
        assert forall|a: int| #[trigger] h.al.contains(a) implies inLev(L, a) by { assert(at(L, 0, 0, a)); }
        assert(exact(L, h.al));
    }
    reveal_with_fuel(cnt, 2); assert(ekOK(E));
    assert(ixOK(m, L, noix(), noix()));
    lem_fr1(m, E[0]); assert(E =~= seq![E[0]]); assert(lp(m, E[0]) == lrecs(q)); assert(fr(m, E) == lrecs(q));
    lem_ln_bound(q, ln(q)); reveal_with_fuel(rsz, 2); lem_leaf_K();
    assert(lf1(m, E, noix(), noix(), 0)); assert(lfs(m, E, noix(), noix())); assert(ring1(m, E, 0)); assert(ring(m, E));
    assert(tC(h, t) =~= Seq::<KV>::empty());
}
// ---- a tree with no records, and how high a tree can be ------------------------------------------------
pub proof fn lem_exf_two(m: Mem, x: Seq<Chd>)
    requires forall|j: int| 0 <= j < x.len() ==> kidsA(m, #[trigger] x[j]).len() >= 2
    ensures exf(m, x).len() >= 2 * x.len()
    decreases x.len()
{
    if x.len() > 0 {
        let y = x.subrange(0, x.len() - 1);
        assert forall|j: int| 0 <= j < y.len() implies kidsA(m, #[trigger] y[j]).len() >= 2 by { assert(y[j] == x[j]); }
        lem_exf_two(m, y); assert(kidsA(m, x[x.len() - 1]).len() >= 2);
    }
}
pub open spec fn wid(d: int) -> int { if d >= 63 { 0x8000_0000_0000_0000 } else { p2(d) } }
pub proof fn lem_wide(h: Heap, t: T_BPTree, d: int)
    requires ixT(h, t, noix(), noix()), 0 <= d < t.height, forall|a: int| #[trigger] h.al.contains(a) ==> a >= 0
    ensures tL(h, t)[d].len() >= wid(d)
    decreases d
{
    let L = tL(h, t); let m = h.mem; lem_levs(m, t.rootAddr, t.height); 
    if d == 0 { assert(p2(0) == 1); }
    else {
        lem_wide(h, t, d - 1); assert(rep1(m, L, d - 1)); let x = L[d - 1];
        assert forall|j: int| 0 <= j < x.len() implies kidsA(m, #[trigger] x[j]).len() >= 2 by { assert(h.al.contains(adr(L, d - 1, j))); assert(nodeP(m, adr(L, d - 1, j), d - 1, noix(), noix())); }
        lem_exf_two(m, x); assert(p2(63) == 0x8000_0000_0000_0000) by(compute);
        if d <= 63 { assert(p2(d) == 2 * p2(d - 1)); }
    }
}
pub proof fn lem_height(h: Heap, t: T_BPTree)
    requires z_heap_ok(h), tP(h, t), z_i64ok(t.leafCount)
    ensures 1 <= t.height <= 63, tE(h, t).len() >= t.height
{ lem_wide(h, t, t.height - 1); if t.height - 1 < 63 { lem_p2_lin(t.height - 1); } }
pub proof fn lem_p2_lin(n: int) requires n >= 0 ensures p2(n) >= n + 1 decreases n { if n > 0 { lem_p2_lin(n - 1); assert(p2(n) == 2 * p2(n - 1)); } else { assert(p2(0) == 1); } }
// a tree with no records is a single page
pub proof fn lem_none(h: Heap, t: T_BPTree)
    requires z_heap_ok(h), tP(h, t), tR(h, t).len() == 0, z_i64ok(t.leafCount)
    ensures t.height == 1, tE(h, t).len() == 1, h.al =~= Set::<int>::empty().insert(t.rootAddr), t.nonLeafCount == 0, t.leafCount == 1, t.payloadSize == 0, t.recordCount == 0, h.al.contains(t.rootAddr)
{
    lem_height(h, t); let E = tE(h, t); let L = tL(h, t); let m = h.mem; lem_levs(m, t.rootAddr, t.height);
    if E.len() > 1 { lem_fr_at(m, E, 0); assert(lf1(m, E, noix(), noix(), 0)); assert(lp(m, E[0]).len() >= 1); }
    assert(t.height == 1); assert(L.len() == 1 && L[0] == root1(t.rootAddr));
    assert(h.al.contains(adr(L, 0, 0)));
    assert forall|a: int| #[trigger] h.al.contains(a) implies a == t.rootAddr by { assert(inLev(L, a)); let (d, j) = choose|d: int, j: int| #[trigger] at(L, d, j, a); assert(d == 0 && j == 0); }
    reveal_with_fuel(cnt, 2); assert(tC(h, t).len() == 0);
}
// file spaces the tree does not use come and go
pub proof fn lem_tP_sp(h0: Heap, h: Heap, t: T_BPTree)
    requires z_heap_ok(h0), z_heap_ok(h), tP(h0, t), h.al == h0.al, goF(h0, h), forall|a: int| #[trigger] h0.al.contains(a) ==> h.mem[-1 - a] == h0.mem[-1 - a],
        forall|a: int| #[trigger] isOv(tR(h0, t), a) ==> h.sp.contains(a) && h.mem[-1 - a] == h0.mem[-1 - a]
    ensures tP(h, t), tR(h, t) == tR(h0, t), tC(h, t) == tC(h0, t)
{ lem_alS(h0, h, t, t, noix(), noix()); lem_keep(h0, h, tR(h0, t)); }
