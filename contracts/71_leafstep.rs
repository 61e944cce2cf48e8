// ---- writes to leaf pages only ---------------------------------------------------------------
pub open spec fn inE(E: Seq<Chd>, x: int) -> bool { exists|j: int| 0 <= j < E.len() && (#[trigger] E[j]).a == x }
pub open spec fn lfOnly(h0: Heap, h: Heap, E: Seq<Chd>) -> bool {
    h.al == h0.al && h.sp == h0.sp && h0.nxt <= h.nxt && forall|b: int| b < h0.nxt && !inE(E, -1 - b) ==> #[trigger] h.mem[b] == h0.mem[b]
}
pub open spec fn tN(t0: T_BPTree, t: T_BPTree) -> bool { t.rootAddr == t0.rootAddr && t.height == t0.height && t.nonLeafCount == t0.nonLeafCount }
// what the operations on the tree leave alone besides
pub open spec fn lfF(h0: Heap, h: Heap) -> bool {
    &&& h.sp == h0.sp && h0.nxt <= h.nxt
    &&& forall|b: int| 0 <= b < h0.nxt ==> #[trigger] h.mem[b] == h0.mem[b]
    &&& forall|a: int| #[trigger] h0.sp.contains(a) ==> h.mem[-1 - a] == h0.mem[-1 - a]
}
pub proof fn lem_lfF_trans(h0: Heap, h1: Heap, h: Heap)
    requires lfF(h0, h1), lfF(h1, h)
    ensures lfF(h0, h)
{ }
pub proof fn lem_E(h: Heap, t: T_BPTree, xa: int, xb: int)
    requires z_heap_ok(h), ixT(h, t, xa, xb)
    ensures eDist(tE(h, t)), tE(h, t).len() >= 1 || t.height > 1, tL(h, t).len() == t.height, rep(h.mem, t.rootAddr, tL(h, t)),
        forall|j: int| 0 <= j < tE(h, t).len() ==> h.al.contains((#[trigger] tE(h, t)[j]).a) && tE(h, t)[j].a > 0 && !h.sp.contains(tE(h, t)[j].a)
{
    let L = tL(h, t); let n = L.len() - 1; lem_levs(h.mem, t.rootAddr, t.height);
    assert forall|i: int, j: int| #![trigger tE(h, t)[i].a, tE(h, t)[j].a] 0 <= i < tE(h, t).len() && 0 <= j < tE(h, t).len() && tE(h, t)[i].a == tE(h, t)[j].a implies i == j by { lem_dist(L, n, i, n, j); }
    assert forall|j: int| 0 <= j < tE(h, t).len() implies h.al.contains((#[trigger] tE(h, t)[j]).a) && tE(h, t)[j].a > 0 && !h.sp.contains(tE(h, t)[j].a) by { assert(inL(L, n, j)); assert(h.al.contains(adr(L, n, j))); }
    if t.height == 1 { assert(L[0] == root1(t.rootAddr)); }
}
pub proof fn lem_leafw(h0: Heap, h: Heap, t0: T_BPTree, t: T_BPTree, xa: int, xb: int)
    requires z_heap_ok(h0), ixT(h0, t0, xa, xb), lfOnly(h0, h, tE(h0, t0)), tN(t0, t)
    ensures tL(h, t) == tL(h0, t0), tE(h, t) == tE(h0, t0), ixT(h, t, xa, xb), lfF(h0, h)
{
    let L = tL(h0, t0); let m0 = h0.mem; let m = h.mem; let E = tE(h0, t0); let n = L.len() - 1;
    lem_levs(m0, t0.rootAddr, t0.height); lem_E(h0, t0, xa, xb);
    assert forall|d: int, j: int| inL(L, d, j) && d < n implies bp(m, #[trigger] adr(L, d, j)) == bp(m0, adr(L, d, j)) by {
        let a = adr(L, d, j); assert(h0.al.contains(a));
        if inE(E, a) { let k = choose|k: int| 0 <= k < E.len() && (#[trigger] E[k]).a == a; lem_dist(L, d, j, n, k); }
        assert(m[-1 - a] == m0[-1 - a]);
    }
    assert forall|d: int| 0 <= d < n implies #[trigger] rep1(m, L, d) by {
        assert(rep1(m0, L, d));
        assert forall|j: int| 0 <= j < L[d].len() implies bp(m, #[trigger] L[d][j].a) == bp(m0, L[d][j].a) by { assert(inL(L, d, j)); assert(L[d][j].a == adr(L, d, j)); }
        lem_exf_same(m0, m, L[d]);
    }
    assert(rep(m, t.rootAddr, L)); lem_rep(m, t.rootAddr, L);
    assert forall|d: int, j: int| inL(L, d, j) && d < L.len() - 1 implies nodeP(m, #[trigger] adr(L, d, j), d, xa, xb) by { assert(nodeP(m0, adr(L, d, j), d, xa, xb)); assert(bp(m, adr(L, d, j)) == bp(m0, adr(L, d, j))); }
    assert forall|b: int| 0 <= b < h0.nxt implies #[trigger] h.mem[b] == h0.mem[b] by { if inE(E, -1 - b) { } }
    assert forall|a: int| #[trigger] h0.sp.contains(a) implies h.mem[-1 - a] == h0.mem[-1 - a] by { if inE(E, a) { } assert(a > 0); }
}
pub proof fn lem_leafw_path(h0: Heap, h: Heap, t0: T_BPTree, P: Seq<T_recordPathComponent>, xa: int, xb: int)
    requires z_heap_ok(h0), ixT(h0, t0, xa, xb), lfOnly(h0, h, tE(h0, t0)), pathOK(h0.mem, t0.rootAddr, P, t0.height)
    ensures pathOK(h.mem, t0.rootAddr, P, t0.height)
{
    let L = tL(h0, t0); let E = tE(h0, t0); let n = L.len() - 1; lem_levs(h0.mem, t0.rootAddr, t0.height);
    assert forall|d: int| 0 <= d < t0.height - 1 implies #[trigger] pstep(h.mem, P, d) by {
        assert(pstep(h0.mem, P, d)); lem_onpath(h0, t0, P, d, xa, xb); let p = pos(h0.mem, L, P, d); let a = P[d].NodeAddr;
        if inE(E, a) { let k = choose|k: int| 0 <= k < E.len() && (#[trigger] E[k]).a == a; lem_dist(L, d, p, n, k); }
        assert(h.mem[-1 - a] == h0.mem[-1 - a]);
    }
}
// index nodes change, leaves do not
pub proof fn lem_lf_keep(h0: Heap, h: Heap, t0: T_BPTree, t: T_BPTree, xa: int, xk: int)
    requires lfT(h0, t0, xa, xk), tE(h, t) == tE(h0, t0), ixF(h0, h, tE(h0, t0)), tF(t0, t), h0.nxt <= h.nxt
    ensures lfT(h, t, xa, xk), tR(h, t) == tR(h0, t0), lfF(h0, h)
{
    let E = tE(h0, t0); let m = h.mem; let m0 = h0.mem;
    assert forall|j: int| 0 <= j < E.len() implies bp(m, (#[trigger] E[j]).a) == bp(m0, E[j].a) by { assert(h.mem[-1 - E[j].a] == h0.mem[-1 - E[j].a]); }
    assert forall|j: int| 0 <= j < E.len() implies #[trigger] lf1(m, E, xa, xk, j) by { assert(lf1(m0, E, xa, xk, j)); assert(bp(m, E[j].a) == bp(m0, E[j].a)); }
    assert forall|j: int| 0 <= j < E.len() implies #[trigger] ring1(m, E, j) by { assert(ring1(m0, E, j)); assert(bp(m, E[j].a) == bp(m0, E[j].a)); }
    assert forall|j: int| 0 <= j < E.len() implies lp(m, #[trigger] E[j]) == lp(m0, E[j]) by { assert(bp(m, E[j].a) == bp(m0, E[j].a)); }
    lem_fr_same(m0, m, E, E);
}
// the links of leaves change
pub proof fn lem_lf_data(m0: Mem, m: Mem, E: Seq<Chd>, xa: int, xk: int)
    requires lfs(m0, E, xa, xk), forall|j: int| 0 <= j < E.len() ==> dataSame(bp(m0, (#[trigger] E[j]).a), bp(m, E[j].a))
    ensures lfs(m, E, xa, xk), fr(m, E) == fr(m0, E), forall|j: int| 0 <= j < E.len() ==> lp(m, #[trigger] E[j]) == lp(m0, E[j])
{
    assert forall|j: int| 0 <= j < E.len() implies #[trigger] lf1(m, E, xa, xk, j) && lp(m, E[j]) == lp(m0, E[j]) by { assert(lf1(m0, E, xa, xk, j)); lem_dataSame(bp(m0, E[j].a), bp(m, E[j].a)); }
    assert forall|j: int| 0 <= j < E.len() implies lp(m, #[trigger] E[j]) == lp(m0, E[j]) by { assert(lf1(m, E, xa, xk, j)); }
    lem_fr_same(m0, m, E, E);
}
// ---- moving records between neighbouring leaves -------------------------------------------------
// the leaf level of a step: entries q.. of the row E
pub open spec fn lfq(h0: Heap, t0: T_BPTree, P: Seq<T_recordPathComponent>, jl: int) -> int { off(h0.mem, tL(h0, t0)[t0.height - 2], pos(h0.mem, tL(h0, t0), P, t0.height - 2)) + jl }
pub open spec fn lf_row(h0: Heap, t0: T_BPTree, P: Seq<T_recordPathComponent>, k: int) -> Chd { kidsA(h0.mem, tL(h0, t0)[t0.height - 2][pos(h0.mem, tL(h0, t0), P, t0.height - 2)])[k] }
// the parts of the level lemma used below
pub proof fn lem_lf_step(h0: Heap, h: Heap, t0: T_BPTree, P: Seq<T_recordPathComponent>, Q: Seq<T_recordPathComponent>, xa: int, xb: int, lo: int, hi: int, w: Seq<Chd>, a: int, b: int)
    requires t0.height >= 2, step_pre(h0, h, t0, P, t0.height - 1, xa, xb), 0 <= lo < hi <= stepC(h0, t0, P, t0.height - 1).len(), pathQ(h.mem, P, Q, t0.height - 1, t0.height), lo <= P[t0.height - 2].RecordOrNonLeafChildIndex < hi, h0.nxt <= h.nxt,
        mem_kept3(h0, h, -1 - P[t0.height - 2].NodeAddr, -1 - a, -1 - b), a > 0, b > 0, !h0.sp.contains(a), !h0.sp.contains(b),
        !h0.al.contains(a) || exists|k: int| lo <= k < hi && #[trigger] stepC(h0, t0, P, t0.height - 1)[k].a == a,
        !h0.al.contains(b) || exists|k: int| lo <= k < hi && #[trigger] stepC(h0, t0, P, t0.height - 1)[k].a == b,
        ({ let i = t0.height - 1; let p = pos(h0.mem, tL(h0, t0), P, i - 1); let e = tL(h0, t0)[i - 1][p]; let C = kidsA(h0.mem, e); kidsA(h.mem, e) == winr(C, lo, hi, w) }),
        xa == noix() || xa == P[t0.height - 2].NodeAddr || exists|k: int| lo <= k < hi && #[trigger] stepC(h0, t0, P, t0.height - 1)[k].a == xa,
        xb == noix() || xb == P[t0.height - 2].NodeAddr || exists|k: int| lo <= k < hi && #[trigger] stepC(h0, t0, P, t0.height - 1)[k].a == xb,
        nOK(h.mem, P[t0.height - 2].NodeAddr),
    ensures ({ let i = t0.height - 1; let L = tL(h0, t0); let E = tE(h0, t0); let o = lfq(h0, t0, P, 0); let X = winr(E, o + lo, o + hi, w); let K = L.update(i, X); let c = stepC(h0, t0, P, i);
        tL(h, t0) == K && tE(h, t0) == X && ixOK(h.mem, K, P[i - 1].NodeAddr, noix()) && pathOK(h.mem, t0.rootAddr, Q, t0.height) && lfF(h0, h) && 0 <= o && o + hi <= E.len() && L.len() == t0.height && L[i] == E
        && (forall|k: int| lo <= k < hi ==> (#[trigger] E[o + k]).a == c[k].a && E[o + k] == lf_row(h0, t0, P, k)) && cnt(K, i) == cnt(L, i)
        && (forall|j: int| 0 <= j < E.len() && E[j].a != a && E[j].a != b ==> bp(h.mem, (#[trigger] E[j]).a) == bp(h0.mem, E[j].a)) })
{
    let H = t0.height; let i = H - 1; let L = tL(h0, t0); let m0 = h0.mem; let m = h.mem; let root = t0.rootAddr; lem_levs(m0, root, H); lem_E(h0, t0, xa, xb);
    lem_step(h0, h, t0, P, Q, i, xa, xb, lo, hi, w, a, b);
    let p = pos(m0, L, P, i - 1); let pa = P[i - 1].NodeAddr; let E = tE(h0, t0); let o = lfq(h0, t0, P, 0); let C = kidsA(m0, L[i - 1][p]); let c = stepC(h0, t0, P, i);
    let K = stepK(h0, t0, P, i, lo, hi, w); let X = winr(E, o + lo, o + hi, w);
    lem_rep(m, root, K); lem_cnt_upd(L, i, X, i);
    lem_onpath(h0, t0, P, i - 1, xa, xb);
    lem_lf_frame(h0, h, pa, a, b);
    assert forall|k: int| lo <= k < hi implies (#[trigger] E[o + k]).a == c[k].a && E[o + k] == lf_row(h0, t0, P, k) by { assert(L[i][o + k] == C[k]); }
    assert forall|j: int| 0 <= j < E.len() && E[j].a != a && E[j].a != b implies bp(m, (#[trigger] E[j]).a) == bp(m0, E[j].a) by {
        assert(h0.al.contains(E[j].a)); if E[j].a == pa { lem_dist(L, i, j, i - 1, p); } assert(m[-1 - E[j].a] == m0[-1 - E[j].a]); }
}
pub proof fn lem_lf_frame(h0: Heap, h: Heap, a: int, b: int, c: int)
    requires z_heap_ok(h0), h.sp == h0.sp, h0.nxt <= h.nxt, mem_kept3(h0, h, -1 - a, -1 - b, -1 - c), a > 0, b > 0, c > 0, !h0.sp.contains(a), !h0.sp.contains(b), !h0.sp.contains(c),
    ensures lfF(h0, h)
{ }
pub open spec fn two(m: Mem, a: int, b: int, n: int) -> bool {
    bp(m, a).len() == 8192 && lok(bp(m, a)) && ln(bp(m, a)) >= 1 && lB(bp(m, a), n) && bp(m, b).len() == 8192 && lok(bp(m, b)) && ln(bp(m, b)) >= 1 && lB(bp(m, b), n)
}
pub open spec fn sh_pre(h0: Heap, h: Heap, t0: T_BPTree, P: Seq<T_recordPathComponent>, jl: int, k: Seq<u8>) -> bool {
    let i = t0.height - 1; let c = stepC(h0, t0, P, i); let a = c[jl].a; let b = c[jl + 1].a; let m0 = h0.mem; let m = h.mem;
    &&& shift_pre(h0, h, t0, P, i, jl, k) && two(m, a, b, 2) && lnk(bp(m, a), bp(m0, a)) && lnk(bp(m, b), bp(m0, b))
    &&& lrecs(bp(m, a)) + lrecs(bp(m, b)) == lrecs(bp(m0, a)) + lrecs(bp(m0, b)) && k == lrecs(bp(m, b))[0].k
}
pub proof fn lem_lf_ek(m: Mem, E: Seq<Chd>, X: Seq<Chd>, q: int)
    requires ekOK(E), 1 <= q < X.len(), lfs(m, X, noix(), noix()), X.len() >= 2, X == E.update(q, X[q]) || X == E.insert(q, X[q]), q <= E.len()
    ensures ekOK(X)
{
    assert(lf1(m, X, noix(), noix(), q)); assert(recOK(lrecs(bp(m, X[q].a))[0]));
    assert forall|j: int| 0 <= j < X.len() implies (#[trigger] X[j]).k.len() <= 257 by { if j < q { assert(X[j] == E[j]); } else if j > q { if X == E.insert(q, X[q]) { assert(X[j] == E[j - 1]); } else { assert(X[j] == E[j]); } } }
}
pub open spec fn sh_all(h0: Heap, h: Heap, t0: T_BPTree, P: Seq<T_recordPathComponent>, Q: Seq<T_recordPathComponent>, jl: int, k: Seq<u8>, xa: int, xb: int) -> bool {
    t0.height >= 2 && step_pre(h0, h, t0, P, t0.height - 1, xa, xb) && sh_pre(h0, h, t0, P, jl, k) && pathQ(h.mem, P, Q, t0.height - 1, t0.height) && h0.nxt <= h.nxt
    && near(stepC(h0, t0, P, t0.height - 1), P[t0.height - 2].NodeAddr, jl, xa) && near(stepC(h0, t0, P, t0.height - 1), P[t0.height - 2].NodeAddr, jl, xb)
}
pub proof fn lem_sh_win(c: Seq<Chd>, ke: Seq<u8>, jl: int, k: Seq<u8>)
    requires 0 <= jl && jl + 1 < c.len()
    ensures rk(c.update(jl + 1, Chd { k: k, a: c[jl + 1].a }), ke) == winr(rk(c, ke), jl, jl + 2, seq![rk(c, ke)[jl], Chd { k: k, a: c[jl + 1].a }]), c.update(jl + 1, Chd { k: k, a: c[jl + 1].a })[0].k == c[0].k
{ assert(rk(c.update(jl + 1, Chd { k: k, a: c[jl + 1].a }), ke) =~= winr(rk(c, ke), jl, jl + 2, seq![rk(c, ke)[jl], Chd { k: k, a: c[jl + 1].a }])); }
pub proof fn lem_lf_shiftA(h0: Heap, h: Heap, t0: T_BPTree, P: Seq<T_recordPathComponent>, Q: Seq<T_recordPathComponent>, jl: int, k: Seq<u8>, xa: int, xb: int)
    requires sh_all(h0, h, t0, P, Q, jl, k, xa, xb)
    ensures nOK(h.mem, P[t0.height - 2].NodeAddr), cn(bp(h.mem, P[t0.height - 2].NodeAddr)) == cn(bp(h0.mem, P[t0.height - 2].NodeAddr)), pathOK(h.mem, t0.rootAddr, Q, t0.height), lfF(h0, h),
        ({ let q = lfq(h0, t0, P, jl); let E = tE(h0, t0); let c = stepC(h0, t0, P, t0.height - 1); let f = Chd { k: k, a: c[jl + 1].a }; let X = E.update(q + 1, f); let L = tL(h0, t0); let i = t0.height - 1; let K = L.update(i, X);
        0 <= q && q + 1 < E.len() && E[q].a == c[jl].a && E[q + 1].a == c[jl + 1].a && tE(h, t0) == X && tL(h, t0) == K && ixOK(h.mem, K, P[i - 1].NodeAddr, noix()) && L.len() == t0.height && L[i] == E && cnt(K, i) == cnt(L, i) && rep(h.mem, t0.rootAddr, K)
        && (forall|j: int| 0 <= j < E.len() && j != q && j != q + 1 ==> bp(h.mem, (#[trigger] E[j]).a) == bp(h0.mem, E[j].a)) })
{
    let H = t0.height; let i = H - 1; let L = tL(h0, t0); let m0 = h0.mem; let m = h.mem; lem_levs(m0, t0.rootAddr, H); lem_E(h0, t0, xa, xb);
    lem_onpath(h0, t0, P, i - 1, xa, xb); let p = pos(m0, L, P, i - 1); let e = L[i - 1][p]; let c = stepC(h0, t0, P, i); let pa = e.a; let C = kidsA(m0, e);
    lem_child(h0, t0, P, i, jl, xa, xb); lem_child(h0, t0, P, i, jl + 1, xa, xb);
    let a = c[jl].a; let b = c[jl + 1].a; let f = Chd { k: k, a: b }; let w = seq![C[jl], f]; let q = lfq(h0, t0, P, jl); let E = tE(h0, t0); let o = lfq(h0, t0, P, 0);
    lem_sh_win(c, e.k, jl, k); assert(kidsA(m, e) == winr(C, jl, jl + 2, w));
    assert(cchs(bp(m, pa)).len() == c.len());
    assert(nOK(m, pa)) by { assert(cchs(bp(m, pa))[0].k.len() == 0); }
    lem_lf_step(h0, h, t0, P, Q, xa, xb, jl, jl + 2, w, a, b);
    let X = winr(E, o + jl, o + jl + 2, w); let K = L.update(i, X);
    assert(E[o + jl].a == a && E[o + (jl + 1)].a == b && E[o + jl] == C[jl]);
    assert(X =~= E.update(q + 1, f));
    lem_levs(m, t0.rootAddr, H);
}
pub proof fn lem_lf_shift(h0: Heap, h: Heap, t0: T_BPTree, P: Seq<T_recordPathComponent>, Q: Seq<T_recordPathComponent>, jl: int, k: Seq<u8>, xa: int, xb: int, xl: int)
    requires sh_all(h0, h, t0, P, Q, jl, k, xa, xb),
        lfT(h0, t0, xl, noix()), xl == noix() || xl == stepC(h0, t0, P, t0.height - 1)[jl].a || xl == stepC(h0, t0, P, t0.height - 1)[jl + 1].a,
    ensures ixT(h, t0, P[t0.height - 2].NodeAddr, noix()), pathOK(h.mem, t0.rootAddr, Q, t0.height), lfF(h0, h), nOK(h.mem, P[t0.height - 2].NodeAddr),
        lfT(h, t0, noix(), noix()), tR(h, t0) == tR(h0, t0), cn(bp(h.mem, P[t0.height - 2].NodeAddr)) == cn(bp(h0.mem, P[t0.height - 2].NodeAddr))
{
    lem_lf_shiftA(h0, h, t0, P, Q, jl, k, xa, xb); lem_E(h0, t0, xa, xb);
    let i = t0.height - 1; let L = tL(h0, t0); let q = lfq(h0, t0, P, jl); let E = tE(h0, t0); let c = stepC(h0, t0, P, i); let f = Chd { k: k, a: c[jl + 1].a }; let X = E.update(q + 1, f);
    lem_lf_shift2(h0, h, E, q, k, xl);
    lem_tight_upd(L, i, q + 1, f, h0.al);
    lem_lf_ek(h.mem, E, X, q + 1);
}
pub proof fn lem_tight_upd(L: Seq<Seq<Chd>>, i: int, q: int, e: Chd, al: Set<int>)
    requires tight(L, al), 0 <= i < L.len(), 0 <= q < L[i].len(), L[i][q].a == e.a
    ensures tight(L.update(i, L[i].update(q, e)), al)
{
    let K = L.update(i, L[i].update(q, e));
    assert forall|d: int| 0 <= d < L.len() implies (#[trigger] K[d]).len() == L[d].len() by { }
    assert forall|d: int, j: int| inL(L, d, j) implies (#[trigger] K[d][j]).a == L[d][j].a by { if d == i && j == q { } }
    lem_tight_same(L, K, al);
}
pub proof fn lem_lf_shift2(h0: Heap, h: Heap, E: Seq<Chd>, q: int, k: Seq<u8>, xl: int)
    requires 0 <= q && q + 1 < E.len(), eDist(E), lfs(h0.mem, E, xl, noix()), ring(h0.mem, E), xl == noix() || xl == E[q].a || xl == E[q + 1].a,
        two(h.mem, E[q].a, E[q + 1].a, 2), lnk(bp(h.mem, E[q].a), bp(h0.mem, E[q].a)), lnk(bp(h.mem, E[q + 1].a), bp(h0.mem, E[q + 1].a)), forall|j: int| 0 <= j < E.len() && j != q && j != q + 1 ==> bp(h.mem, (#[trigger] E[j]).a) == bp(h0.mem, E[j].a),
        lrecs(bp(h.mem, E[q].a)) + lrecs(bp(h.mem, E[q + 1].a)) == lrecs(bp(h0.mem, E[q].a)) + lrecs(bp(h0.mem, E[q + 1].a)), k == lrecs(bp(h.mem, E[q + 1].a))[0].k,
    ensures ({ let X = E.update(q + 1, Chd { k: k, a: E[q + 1].a }); lfs(h.mem, X, noix(), noix()) && ring(h.mem, X) && fr(h.mem, X) == fr(h0.mem, E) })
{
    let m0 = h0.mem; let m = h.mem; let a = E[q].a; let b = E[q + 1].a; let f = Chd { k: k, a: b }; let X = E.update(q + 1, f); let n = E.len() as int;
    let A0 = lrecs(bp(m0, a)); let B0 = lrecs(bp(m0, b)); let A1 = lrecs(bp(m, a)); let B1 = lrecs(bp(m, b)); let S = A0 + B0;
    assert(lf1(m0, E, xl, noix(), q) && lf1(m0, E, xl, noix(), q + 1));
    assert(A0.len() == ln(bp(m0, a)) && A1.len() == ln(bp(m, a)) && B1.len() == ln(bp(m, b)));
    lem_recsOK_cat(A0, B0); lem_recsOK_sub(S, 0, A1.len() as int); lem_recsOK_sub(S, A1.len() as int, S.len() as int);
    assert(A1 =~= (A1 + B1).subrange(0, A1.len() as int)); assert(B1 =~= (A1 + B1).subrange(A1.len() as int, (A1 + B1).len() as int));
    assert(A1[0] == (A1 + B1)[0] && A0[0] == S[0]);
    assert forall|j: int| 0 <= j < n implies #[trigger] lf1(m, X, noix(), noix(), j) by { assert(lf1(m0, E, xl, noix(), j)); if j != q && j != q + 1 { assert(X[j] == E[j]); assert(E[j].a != a && E[j].a != b); assert(bp(m, E[j].a) == bp(m0, E[j].a)); } }
    assert forall|j: int| 0 <= j < n implies (#[trigger] X[j]).a == E[j].a && lnk(bp(m, E[j].a), bp(m0, E[j].a)) by { if j != q && j != q + 1 { assert(bp(m, E[j].a) == bp(m0, E[j].a)); } }
    lem_ring_same(m0, m, E, X);
    let w = seq![E[q], f]; lem_fr2(m, E[q], f); assert(E.subrange(q, q + 2) =~= seq![E[q], E[q + 1]]); lem_fr2(m0, E[q], E[q + 1]);
    assert forall|j: int| 0 <= j < n && !(q <= j < q + 2) implies lp(m, #[trigger] E[j]) == lp(m0, E[j]) by { assert(bp(m, E[j].a) == bp(m0, E[j].a)); }
    lem_fr_win(m0, m, E, q, q + 2, w); assert(X =~= winr(E, q, q + 2, w));
}
// ---- a new leaf takes some of the records ----------------------------------------------------------
pub open spec fn sp_pre(h0: Heap, h: Heap, t0: T_BPTree, P: Seq<T_recordPathComponent>, jl: int, k: Seq<u8>, ns: int) -> bool {
    let i = t0.height - 1; let c = stepC(h0, t0, P, i); let a = c[jl].a; let m0 = h0.mem; let m = h.mem;
    &&& split_pre(h0, h, t0, P, i, jl, k, ns) && two(m, a, ns, 2) && lnk(bp(m, a), bp(m0, a))
    &&& lrecs(bp(m, a)) + lrecs(bp(m, ns)) == lrecs(bp(m0, a)) && k == lrecs(bp(m, ns))[0].k
}
pub open spec fn ringE(m: Mem, E: Seq<Chd>, ll: T_leafList) -> bool { ring(m, E) && ends(E, ll) }
pub proof fn lem_lf_split(h0: Heap, h: Heap, t0: T_BPTree, P: Seq<T_recordPathComponent>, Q: Seq<T_recordPathComponent>, jl: int, k: Seq<u8>, ns: int, xa: int, xb: int)
    requires t0.height >= 2, step_pre(h0, h, t0, P, t0.height - 1, xa, xb), sp_pre(h0, h, t0, P, jl, k, ns), pathQ(h.mem, P, Q, t0.height - 1, t0.height), h0.nxt <= h.nxt,
        ({ let c = stepC(h0, t0, P, t0.height - 1); let pa = P[t0.height - 2].NodeAddr; (xa == noix() || xa == pa || xa == c[jl].a) && (xb == noix() || xb == pa || xb == c[jl].a) }),
        lfT(h0, t0, stepC(h0, t0, P, t0.height - 1)[jl].a, noix()),
    ensures ixT(h, t0, P[t0.height - 2].NodeAddr, noix()), pathOK(h.mem, t0.rootAddr, Q, t0.height), lfF(h0, h), nOK(h.mem, P[t0.height - 2].NodeAddr),
        ({ let q = lfq(h0, t0, P, jl); let E = tE(h0, t0); let X = tE(h, t0); 0 <= q < E.len() && E[q].a == stepC(h0, t0, P, t0.height - 1)[jl].a && X == E.insert(q + 1, Chd { k: k, a: ns }) && lfs(h.mem, X, noix(), noix()) && ring(h.mem, E) && fr(h.mem, X) == fr(h0.mem, E) && eDist(E) && eDist(X) }),
        cn(bp(h.mem, P[t0.height - 2].NodeAddr)) >= 2, cload(bp(h.mem, P[t0.height - 2].NodeAddr)) >= cload(bp(h0.mem, P[t0.height - 2].NodeAddr)),
{
    let H = t0.height; let i = H - 1; let L = tL(h0, t0); let m0 = h0.mem; let m = h.mem; lem_levs(m0, t0.rootAddr, H); lem_E(h0, t0, xa, xb);
    lem_onpath(h0, t0, P, i - 1, xa, xb); let p = pos(m0, L, P, i - 1); let e = L[i - 1][p]; let c = stepC(h0, t0, P, i); let pa = e.a; let C = kidsA(m0, e);
    lem_child(h0, t0, P, i, jl, xa, xb);
    let a = c[jl].a; let f = Chd { k: k, a: ns }; let w = seq![C[jl], f]; let q = lfq(h0, t0, P, jl); let E = tE(h0, t0); let o = lfq(h0, t0, P, 0);
    assert(kidsA(m, e) =~= winr(C, jl, jl + 1, w));
    assert(cchs(bp(m, pa)).len() == c.len() + 1);
    assert(nOK(m, pa)) by { assert(cchs(bp(m, pa))[0].k.len() == 0); }
    lem_lf_step(h0, h, t0, P, Q, xa, xb, jl, jl + 1, w, a, ns);
    let X = winr(E, o + jl, o + jl + 1, w); let K = L.update(i, X);
    assert(E[o + jl].a == a && E[o + jl] == C[jl]);
    assert(X =~= E.insert(q + 1, f));
    lem_lf_split2(h0, h, E, q, k, ns);
    lem_tight_ins(L, i, q + 1, f, h0.al);
    lem_lf_ek(h.mem, E, X, q + 1);
    lem_eDist(K, i, h.al);
    lem_chload(bp(m0, pa)); lem_chload(bp(m, pa)); lem_chload_ins(c, jl + 1, f);
}
pub proof fn lem_eDist(K: Seq<Seq<Chd>>, i: int, al: Set<int>)
    requires tight(K, al), 0 <= i < K.len()
    ensures eDist(K[i])
{ assert forall|x: int, y: int| #![trigger K[i][x].a, K[i][y].a] 0 <= x < K[i].len() && 0 <= y < K[i].len() && K[i][x].a == K[i][y].a implies x == y by { lem_dist(K, i, x, i, y); } }
pub proof fn lem_lf_split2(h0: Heap, h: Heap, E: Seq<Chd>, q: int, k: Seq<u8>, ns: int)
    requires 0 <= q < E.len(), eDist(E), lfs(h0.mem, E, E[q].a, noix()), ring(h0.mem, E),
        two(h.mem, E[q].a, ns, 2), lnk(bp(h.mem, E[q].a), bp(h0.mem, E[q].a)), forall|j: int| 0 <= j < E.len() && j != q ==> bp(h.mem, (#[trigger] E[j]).a) == bp(h0.mem, E[j].a),
        forall|j: int| 0 <= j < E.len() ==> (#[trigger] E[j]).a != ns,
        lrecs(bp(h.mem, E[q].a)) + lrecs(bp(h.mem, ns)) == lrecs(bp(h0.mem, E[q].a)), k == lrecs(bp(h.mem, ns))[0].k,
        E.len() == 1 ==> q == 0,
    ensures ({ let X = E.insert(q + 1, Chd { k: k, a: ns }); lfs(h.mem, X, noix(), noix()) && ring(h.mem, E) && fr(h.mem, X) == fr(h0.mem, E) })
{
    let m0 = h0.mem; let m = h.mem; let a = E[q].a; let f = Chd { k: k, a: ns }; let X = E.insert(q + 1, f); let n = E.len() as int;
    let A0 = lrecs(bp(m0, a)); let A1 = lrecs(bp(m, a)); let B1 = lrecs(bp(m, ns));
    assert(lf1(m0, E, a, noix(), q));
    assert(A0.len() == ln(bp(m0, a)) && A1.len() == ln(bp(m, a)) && B1.len() == ln(bp(m, ns)));
    lem_recsOK_sub(A0, 0, A1.len() as int); lem_recsOK_sub(A0, A1.len() as int, A0.len() as int);
    assert(A1 =~= (A1 + B1).subrange(0, A1.len() as int)); assert(B1 =~= (A1 + B1).subrange(A1.len() as int, (A1 + B1).len() as int));
    assert(A1[0] == (A1 + B1)[0]);
    assert forall|j: int| 0 <= j < n + 1 implies #[trigger] lf1(m, X, noix(), noix(), j) by {
        if j == q + 1 { assert(X[j] == f); }
        else { let j0 = if j > q { j - 1 } else { j }; assert(X[j] == E[j0]); assert(lf1(m0, E, a, noix(), j0)); if j0 != q { assert(E[j0].a != a); assert(bp(m, E[j0].a) == bp(m0, E[j0].a)); } }
    }
    assert forall|j: int| 0 <= j < n implies (#[trigger] E[j]).a == E[j].a && lnk(bp(m, E[j].a), bp(m0, E[j].a)) by { if j != q { assert(bp(m, E[j].a) == bp(m0, E[j].a)); } }
    lem_ring_same(m0, m, E, E);
    let w = seq![E[q], f]; lem_fr2(m, E[q], f); assert(E.subrange(q, q + 1) =~= seq![E[q]]); lem_fr1(m0, E[q]);
    assert forall|j: int| 0 <= j < n && !(q <= j < q + 1) implies lp(m, #[trigger] E[j]) == lp(m0, E[j]) by { assert(bp(m, E[j].a) == bp(m0, E[j].a)); }
    lem_fr_win(m0, m, E, q, q + 1, w); assert(X =~= winr(E, q, q + 1, w));
}
// ---- a leaf takes the records of its right neighbour ---------------------------------------------------
pub open spec fn mg_pre(h0: Heap, h: Heap, t0: T_BPTree, P: Seq<T_recordPathComponent>, jl: int) -> bool {
    let i = t0.height - 1; let c = stepC(h0, t0, P, i); let a = c[jl].a; let b = c[jl + 1].a; let m0 = h0.mem; let m = h.mem;
    &&& merge_pre(h0, h, t0, P, i, jl) && bp(m, a).len() == 8192 && lok(bp(m, a)) && lB(bp(m, a), 2) && lnk(bp(m, a), bp(m0, a))
    &&& lrecs(bp(m, a)) == lrecs(bp(m0, a)) + lrecs(bp(m0, b))
}
pub proof fn lem_lf_merge(h0: Heap, h: Heap, t0: T_BPTree, P: Seq<T_recordPathComponent>, Q: Seq<T_recordPathComponent>, jl: int, xa: int, xb: int, xl: int)
    requires t0.height >= 2, step_pre(h0, h, t0, P, t0.height - 1, xa, xb), mg_pre(h0, h, t0, P, jl), pathQ(h.mem, P, Q, t0.height - 1, t0.height), h0.nxt <= h.nxt,
        near(stepC(h0, t0, P, t0.height - 1), P[t0.height - 2].NodeAddr, jl, xa), near(stepC(h0, t0, P, t0.height - 1), P[t0.height - 2].NodeAddr, jl, xb),
        xl == stepC(h0, t0, P, t0.height - 1)[jl].a || xl == stepC(h0, t0, P, t0.height - 1)[jl + 1].a,
        ({ let E = tE(h0, t0); lfs(h0.mem, E, xl, noix()) && ring(h0.mem, E.remove(lfq(h0, t0, P, jl) + 1)) }),
    ensures ixT(h, t0, P[t0.height - 2].NodeAddr, noix()), pathOK(h.mem, t0.rootAddr, Q, t0.height), lfF(h0, h), nOK(h.mem, P[t0.height - 2].NodeAddr),
        ({ let q = lfq(h0, t0, P, jl); let E = tE(h0, t0); let X = tE(h, t0); 0 <= q && q + 1 < E.len() && E[q].a == stepC(h0, t0, P, t0.height - 1)[jl].a && E[q + 1].a == stepC(h0, t0, P, t0.height - 1)[jl + 1].a && X == E.remove(q + 1) && lfs(h.mem, X, noix(), noix()) && ring(h.mem, X) && fr(h.mem, X) == fr(h0.mem, E) }),
        cload(bp(h.mem, P[t0.height - 2].NodeAddr)) <= cload(bp(h0.mem, P[t0.height - 2].NodeAddr)),
{
    let H = t0.height; let i = H - 1; let L = tL(h0, t0); let m0 = h0.mem; let m = h.mem; lem_levs(m0, t0.rootAddr, H); lem_E(h0, t0, xa, xb);
    lem_onpath(h0, t0, P, i - 1, xa, xb); let p = pos(m0, L, P, i - 1); let e = L[i - 1][p]; let c = stepC(h0, t0, P, i); let pa = e.a; let C = kidsA(m0, e);
    lem_child(h0, t0, P, i, jl, xa, xb); lem_child(h0, t0, P, i, jl + 1, xa, xb);
    let a = c[jl].a; let b = c[jl + 1].a; let w = seq![C[jl]]; let q = lfq(h0, t0, P, jl); let E = tE(h0, t0); let o = lfq(h0, t0, P, 0);
    assert(kidsA(m, e) =~= winr(C, jl, jl + 2, w));
    assert(cchs(bp(m, pa)).len() == c.len() - 1);
    assert(nOK(m, pa)) by { assert(cchs(bp(m, pa))[0].k.len() == 0); }
    lem_lf_step(h0, h, t0, P, Q, xa, xb, jl, jl + 2, w, a, b);
    let X = winr(E, o + jl, o + jl + 2, w); let K = L.update(i, X);
    assert(E[o + jl].a == a && E[o + (jl + 1)].a == b && E[o + jl] == C[jl]);
    assert(X =~= E.remove(q + 1));
    lem_lf_merge2(h0, h, E, q, xl);
    lem_tight_rem(L, i, q + 1, h0.al);
    assert(ekOK(X)) by { assert forall|j: int| 0 <= j < X.len() implies (#[trigger] X[j]).k.len() <= 257 by { if j <= q { assert(X[j] == E[j]); } else { assert(X[j] == E[j + 1]); } } }
    lem_chload(bp(m0, pa)); lem_chload(bp(m, pa)); lem_chload_rem(c, jl + 1);
}
pub proof fn lem_lf_merge2(h0: Heap, h: Heap, E: Seq<Chd>, q: int, xl: int)
    requires 0 <= q && q + 1 < E.len(), eDist(E), lfs(h0.mem, E, xl, noix()), ring(h0.mem, E.remove(q + 1)), xl == E[q].a || xl == E[q + 1].a,
        bp(h.mem, E[q].a).len() == 8192, lok(bp(h.mem, E[q].a)), lB(bp(h.mem, E[q].a), 2), lnk(bp(h.mem, E[q].a), bp(h0.mem, E[q].a)), forall|j: int| 0 <= j < E.len() && j != q && j != q + 1 ==> bp(h.mem, (#[trigger] E[j]).a) == bp(h0.mem, E[j].a),
        lrecs(bp(h.mem, E[q].a)) == lrecs(bp(h0.mem, E[q].a)) + lrecs(bp(h0.mem, E[q + 1].a)),
    ensures ({ let X = E.remove(q + 1); lfs(h.mem, X, noix(), noix()) && ring(h.mem, X) && fr(h.mem, X) == fr(h0.mem, E) })
{
    let m0 = h0.mem; let m = h.mem; let a = E[q].a; let b = E[q + 1].a; let X = E.remove(q + 1); let n = E.len() as int;
    let A0 = lrecs(bp(m0, a)); let B0 = lrecs(bp(m0, b)); let A1 = lrecs(bp(m, a));
    assert(lf1(m0, E, xl, noix(), q) && lf1(m0, E, xl, noix(), q + 1));
    assert(A0.len() == ln(bp(m0, a)) && A1.len() == ln(bp(m, a)) && B0.len() == ln(bp(m0, b)));
    lem_recsOK_cat(A0, B0);
    assert(A1[0] == A0[0]);
    assert forall|j: int| 0 <= j < n - 1 implies #[trigger] lf1(m, X, noix(), noix(), j) by {
        let j0 = if j > q { j + 1 } else { j }; assert(X[j] == E[j0]); assert(lf1(m0, E, xl, noix(), j0)); if j0 != q { assert(E[j0].a != a && E[j0].a != b); assert(bp(m, E[j0].a) == bp(m0, E[j0].a)); }
    }
    assert forall|j: int| 0 <= j < n - 1 implies (#[trigger] X[j]).a == X[j].a && lnk(bp(m, X[j].a), bp(m0, X[j].a)) by { let j0 = if j > q { j + 1 } else { j }; assert(X[j] == E[j0]); if j != q { assert(bp(m, E[j0].a) == bp(m0, E[j0].a)); } }
    lem_ring_same(m0, m, X, X);
    let w = seq![E[q]]; lem_fr1(m, E[q]); assert(E.subrange(q, q + 2) =~= seq![E[q], E[q + 1]]); lem_fr2(m0, E[q], E[q + 1]);
    assert forall|j: int| 0 <= j < n && !(q <= j < q + 2) implies lp(m, #[trigger] E[j]) == lp(m0, E[j]) by { assert(bp(m, E[j].a) == bp(m0, E[j].a)); }
    lem_fr_win(m0, m, E, q, q + 2, w); assert(X =~= winr(E, q, q + 2, w));
}
