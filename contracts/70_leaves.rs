// ---- the leaves ---------------------------------------------------------------------------
pub open spec fn lp(m: Mem, e: Chd) -> Seq<Rec> { lrecs(bp(m, e.a)) }
// the records of a row of leaves from left to right
pub open spec fn fr(m: Mem, x: Seq<Chd>) -> Seq<Rec> decreases x.len() {
    if x.len() == 0 { Seq::<Rec>::empty() } else { fr(m, x.subrange(0, x.len() - 1)) + lp(m, x[x.len() - 1]) }
}
pub open spec fn roff(m: Mem, x: Seq<Chd>, p: int) -> int { fr(m, x.subrange(0, p)).len() as int }
pub proof fn lem_fr_cat(m: Mem, x: Seq<Chd>, y: Seq<Chd>)
    ensures fr(m, x + y) == fr(m, x) + fr(m, y)
    decreases y.len()
{
    if y.len() == 0 { assert(x + y =~= x); assert(fr(m, x) + fr(m, y) =~= fr(m, x)); }
    else {
        let n = y.len() - 1; let z = x + y;
        lem_fr_cat(m, x, y.subrange(0, n));
        assert(z.subrange(0, z.len() - 1) =~= x + y.subrange(0, n));
        assert(z[z.len() - 1] == y[n]);
        assert(fr(m, z) =~= fr(m, x) + fr(m, y));
    }
}
pub proof fn lem_fr1(m: Mem, e: Chd)
    ensures fr(m, seq![e]) == lp(m, e)
{ assert(seq![e].subrange(0, seq![e].len() - 1) =~= Seq::<Chd>::empty()); assert(fr(m, Seq::<Chd>::empty()) =~= Seq::<Rec>::empty()); assert(fr(m, seq![e]) =~= lp(m, e)); }
pub proof fn lem_fr2(m: Mem, e: Chd, f: Chd)
    ensures fr(m, seq![e, f]) == lp(m, e) + lp(m, f)
{ assert(seq![e, f] =~= seq![e] + seq![f]); lem_fr_cat(m, seq![e], seq![f]); lem_fr1(m, e); lem_fr1(m, f); }
pub proof fn lem_fr_same(m0: Mem, m: Mem, x: Seq<Chd>, y: Seq<Chd>)
    requires x.len() == y.len(), forall|j: int| 0 <= j < x.len() ==> lp(m, #[trigger] y[j]) == lp(m0, x[j])
    ensures fr(m, y) == fr(m0, x)
    decreases x.len()
{
    if x.len() > 0 {
        let u = x.subrange(0, x.len() - 1); let v = y.subrange(0, y.len() - 1);
        assert forall|j: int| 0 <= j < u.len() implies lp(m, #[trigger] v[j]) == lp(m0, u[j]) by { assert(v[j] == y[j]); assert(u[j] == x[j]); }
        lem_fr_same(m0, m, u, v); assert(lp(m, y[x.len() - 1]) == lp(m0, x[x.len() - 1]));
    }
}
// a window of the leaves is replaced by leaves with the same records
pub proof fn lem_fr_win(m0: Mem, m: Mem, F: Seq<Chd>, a: int, b: int, w: Seq<Chd>)
    requires 0 <= a <= b <= F.len(), fr(m, w) == fr(m0, F.subrange(a, b)), forall|j: int| 0 <= j < F.len() && !(a <= j < b) ==> lp(m, #[trigger] F[j]) == lp(m0, F[j]),
    ensures fr(m, winr(F, a, b, w)) == fr(m0, F)
{
    let u = F.subrange(0, a); let v = F.subrange(b, F.len() as int); let w0 = F.subrange(a, b);
    assert forall|j: int| 0 <= j < u.len() implies lp(m, #[trigger] u[j]) == lp(m0, u[j]) by { assert(u[j] == F[j]); }
    assert forall|j: int| 0 <= j < v.len() implies lp(m, #[trigger] v[j]) == lp(m0, v[j]) by { assert(v[j] == F[b + j]); }
    lem_fr_same(m0, m, u, u); lem_fr_same(m0, m, v, v);
    lem_fr_cat(m, u + w, v); lem_fr_cat(m, u, w);
    assert(F =~= u + w0 + v); lem_fr_cat(m0, u + w0, v); lem_fr_cat(m0, u, w0);
}
// the records of leaf p within the row
pub proof fn lem_fr_at(m: Mem, x: Seq<Chd>, p: int)
    requires 0 <= p < x.len()
    ensures ({ let n = x.len() as int; let F = fr(m, x); let o = roff(m, x, p); let c = lp(m, x[p]);
        0 <= o && o + c.len() <= F.len() && F.subrange(0, o) == fr(m, x.subrange(0, p)) && F.subrange(o, o + c.len()) == c
        && F.subrange(o + c.len(), F.len() as int) == fr(m, x.subrange(p + 1, n)) && roff(m, x, p + 1) == o + c.len() && (forall|j: int| 0 <= j < c.len() ==> F[o + j] == #[trigger] c[j]) })
{
    let n = x.len() as int; let u = x.subrange(0, p); let v = x.subrange(p + 1, n); let e = seq![x[p]];
    assert(x =~= u + (e + v)); lem_fr_cat(m, u, e + v); lem_fr_cat(m, e, v); lem_fr1(m, x[p]); lem_fr_cat(m, u, e);
    assert(x.subrange(0, p + 1) =~= u + e);
    let F = fr(m, x); let c = lp(m, x[p]); let o = roff(m, x, p);
    assert(F == fr(m, u) + (c + fr(m, v)));
    assert(F.subrange(0, o) =~= fr(m, u)); assert(F.subrange(o, o + c.len()) =~= c); assert(F.subrange(o + c.len(), F.len() as int) =~= fr(m, v));
    assert forall|j: int| 0 <= j < c.len() implies F[o + j] == #[trigger] c[j] by { assert(F.subrange(o, o + c.len())[j] == F[o + j]); }
}
// the records of leaf p change
pub proof fn lem_fr_upd(m0: Mem, m: Mem, x: Seq<Chd>, y: Seq<Chd>, p: int)
    requires 0 <= p < x.len(), y.len() == x.len(), forall|j: int| 0 <= j < x.len() && j != p ==> lp(m, #[trigger] y[j]) == lp(m0, x[j]),
    ensures ({ let o = roff(m0, x, p); let F = fr(m0, x); fr(m, y) == F.subrange(0, o) + lp(m, y[p]) + F.subrange(o + lp(m0, x[p]).len(), F.len() as int) }), roff(m, y, p) == roff(m0, x, p),
{
    let n = x.len() as int; lem_fr_at(m0, x, p); lem_fr_at(m, y, p);
    let u0 = x.subrange(0, p); let u = y.subrange(0, p); let v0 = x.subrange(p + 1, n); let v = y.subrange(p + 1, n);
    assert forall|j: int| 0 <= j < u.len() implies lp(m, #[trigger] u[j]) == lp(m0, u0[j]) by { assert(u[j] == y[j]); assert(u0[j] == x[j]); }
    assert forall|j: int| 0 <= j < v.len() implies lp(m, #[trigger] v[j]) == lp(m0, v0[j]) by { assert(v[j] == y[p + 1 + j]); assert(v0[j] == x[p + 1 + j]); }
    lem_fr_same(m0, m, u0, u); lem_fr_same(m0, m, v0, v);
    let G = fr(m, y); let o = roff(m, y, p); let c = lp(m, y[p]);
    assert(G =~= G.subrange(0, o) + G.subrange(o, o + c.len()) + G.subrange(o + c.len(), G.len() as int));
}
// ---- the ring of the leaves ------------------------------------------------------------------
pub open spec fn z64(v: int) -> int { if v < 0x8000_0000_0000_0000 { v } else { v - 0x1_0000_0000_0000_0000 } }
pub open spec fn pvq(q: Seq<u8>) -> int { z64(be64(q, 0)) }
pub open spec fn nxq(q: Seq<u8>) -> int { z64(be64(q, 8)) }
pub open spec fn nxi(n: int, j: int) -> int { if j + 1 < n { j + 1 } else { 0 } }
pub open spec fn pvi(n: int, j: int) -> int { if j > 0 { j - 1 } else { n - 1 } }
pub open spec fn ring1(m: Mem, E: Seq<Chd>, j: int) -> bool {
    nxq(bp(m, E[j].a)) == E[nxi(E.len() as int, j)].a && pvq(bp(m, E[j].a)) == E[pvi(E.len() as int, j)].a
}
pub open spec fn ring(m: Mem, E: Seq<Chd>) -> bool { E.len() >= 1 && forall|j: int| 0 <= j < E.len() ==> #[trigger] ring1(m, E, j) }
pub open spec fn ends(E: Seq<Chd>, ll: T_leafList) -> bool { ll.headAddr == E[0].a && ll.tailAddr == E[E.len() - 1].a }
pub open spec fn eDist(E: Seq<Chd>) -> bool { forall|i: int, j: int| #![trigger E[i].a, E[j].a] 0 <= i < E.len() && 0 <= j < E.len() && E[i].a == E[j].a ==> i == j }
pub open spec fn dataSame(q0: Seq<u8>, q: Seq<u8>) -> bool { q.len() == q0.len() && forall|p: int| 16 <= p < q.len() ==> #[trigger] q[p] == q0[p] }
pub proof fn lem_dataSame(q0: Seq<u8>, q: Seq<u8>)
    requires dataSame(q0, q), lok(q0)
    ensures lok(q), lrecs(q) == lrecs(q0), lload(q) == lload(q0), ln(q) == ln(q0)
{
    lem_be32_bytes(q, q0, 16, 16); let n = ln(q0); lem_ln_bound(q0, n);
    lem_page_from(q0, q, n);
}
pub proof fn lem_lnk(q: Seq<u8>, r: Seq<u8>)
    requires lnk(q, r)
    ensures pvq(q) == pvq(r), nxq(q) == nxq(r)
{ assert(forall|i: int| 0 <= i < 8 ==> #[trigger] q[0 + i] == r[0 + i]); assert(forall|i: int| 0 <= i < 8 ==> #[trigger] q[8 + i] == r[8 + i]); lem_be64_bytes(q, r, 0, 0); lem_be64_bytes(q, r, 8, 8); }
// what linking leaf s behind leaf a writes
pub open spec fn linkIns(m0: Mem, m: Mem, a: int, s: int) -> bool {
    let x = nxq(bp(m0, a));
    &&& nxq(bp(m, s)) == x && pvq(bp(m, s)) == a && nxq(bp(m, a)) == s && pvq(bp(m, x)) == s
    &&& pvq(bp(m, a)) == (if x == a { s } else { pvq(bp(m0, a)) }) && nxq(bp(m, x)) == (if x == a { s } else { nxq(bp(m0, x)) })
    &&& dataSame(bp(m0, s), bp(m, s)) && dataSame(bp(m0, a), bp(m, a)) && dataSame(bp(m0, x), bp(m, x))
}
pub open spec fn linkRem(m0: Mem, m: Mem, a: int) -> bool {
    let x = nxq(bp(m0, a)); let y = pvq(bp(m0, a));
    &&& nxq(bp(m, y)) == x && pvq(bp(m, x)) == y
    &&& pvq(bp(m, y)) == (if x == y { y } else { pvq(bp(m0, y)) }) && nxq(bp(m, x)) == (if x == y { x } else { nxq(bp(m0, x)) })
    &&& dataSame(bp(m0, y), bp(m, y)) && dataSame(bp(m0, x), bp(m, x))
}
pub proof fn lem_ring_ins(m0: Mem, m: Mem, E: Seq<Chd>, j: int, e: Chd, l0: T_leafList, l: T_leafList)
    requires ring(m0, E), eDist(E), ends(E, l0), 0 <= j < E.len(), linkIns(m0, m, E[j].a, e.a), forall|i: int| 0 <= i < E.len() ==> (#[trigger] E[i]).a != e.a,
        forall|i: int| 0 <= i < E.len() && i != j && i != nxi(E.len() as int, j) ==> bp(m, #[trigger] E[i].a) == bp(m0, E[i].a),
        l == (if E[j].a == l0.tailAddr { T_leafList { tailAddr: e.a, headAddr: l0.headAddr } } else { l0 }),
    ensures ring(m, E.insert(j + 1, e)), ends(E.insert(j + 1, e), l)
{
    let n = E.len() as int; let K = E.insert(j + 1, e); let x = nxi(n, j);
    assert(ring1(m0, E, j)); assert(ring1(m0, E, x));
    assert forall|i: int| 0 <= i < K.len() implies #[trigger] ring1(m, K, i) by {
        if i == j + 1 { assert(K[nxi(n + 1, i)] == E[x]); assert(K[pvi(n + 1, i)] == E[j]); }
        else {
            let i0 = if i > j { i - 1 } else { i }; assert(K[i] == E[i0]); assert(ring1(m0, E, i0));
            if i != j { assert(K[nxi(n + 1, i)] == E[nxi(n, i0)]) by { } }
            if i0 != x { assert(K[pvi(n + 1, i)] == E[pvi(n, i0)]) by { } }
            if i0 == x { assert(pvi(n + 1, i) == j + 1); assert(E[x].a == nxq(bp(m0, E[j].a))); assert(x == j || E[x].a != E[j].a); if x == j { assert(n == 1); } }
            if i0 == j { assert(x == j || E[x].a != E[j].a); if x == j { assert(n == 1); } }
        }
    }
    if E[j].a == l0.tailAddr { assert(j == n - 1); }
}
pub proof fn lem_ring_rem(m0: Mem, m: Mem, E: Seq<Chd>, j: int, l0: T_leafList, l: T_leafList)
    requires ring(m0, E), eDist(E), ends(E, l0), 0 <= j < E.len(), E.len() >= 2, linkRem(m0, m, E[j].a),
        forall|i: int| 0 <= i < E.len() && i != pvi(E.len() as int, j) && i != nxi(E.len() as int, j) ==> bp(m, #[trigger] E[i].a) == bp(m0, E[i].a),
        l == (if E[j].a == l0.headAddr { T_leafList { headAddr: nxq(bp(m0, E[j].a)), tailAddr: l0.tailAddr } } else if E[j].a == l0.tailAddr { T_leafList { tailAddr: pvq(bp(m0, E[j].a)), headAddr: l0.headAddr } } else { l0 }),
    ensures ring(m, E.remove(j)), ends(E.remove(j), l)
{
    let n = E.len() as int; let K = E.remove(j); let x = nxi(n, j); let y = pvi(n, j);
    assert(ring1(m0, E, j)); assert(ring1(m0, E, x)); assert(ring1(m0, E, y));
    assert forall|i: int| 0 <= i < K.len() implies #[trigger] ring1(m, K, i) by {
        let i0 = if i >= j { i + 1 } else { i }; assert(K[i] == E[i0]); assert(ring1(m0, E, i0));
        if i0 != y { assert(K[nxi(n - 1, i)] == E[nxi(n, i0)]); } else { assert(K[nxi(n - 1, i)] == E[x]); }
        if i0 != x { assert(K[pvi(n - 1, i)] == E[pvi(n, i0)]); } else { assert(K[pvi(n - 1, i)] == E[y]); }
        assert(E[x].a == nxq(bp(m0, E[j].a)) && E[y].a == pvq(bp(m0, E[j].a)));
        assert(x == y || E[x].a != E[y].a);
    }
    if E[j].a == l0.headAddr { assert(j == 0); } else if E[j].a == l0.tailAddr { assert(j == n - 1); } else { assert(j != 0 && j != n - 1); }
}
// writes to other parts of the pages
pub proof fn lem_ring_same(m0: Mem, m: Mem, E: Seq<Chd>, K: Seq<Chd>)
    requires ring(m0, E), K.len() == E.len(), forall|j: int| 0 <= j < E.len() ==> (#[trigger] K[j]).a == E[j].a && lnk(bp(m, E[j].a), bp(m0, E[j].a))
    ensures ring(m, K)
{
    let n = E.len() as int;
    assert forall|j: int| 0 <= j < K.len() implies #[trigger] ring1(m, K, j) by { assert(ring1(m0, E, j)); assert(K[j].a == E[j].a); assert(K[nxi(n, j)].a == E[nxi(n, j)].a); assert(K[pvi(n, j)].a == E[pvi(n, j)].a); lem_lnk(bp(m, E[j].a), bp(m0, E[j].a)); }
}
// ---- the leaves of the tree ---------------------------------------------------------------------
pub open spec fn recOK(r: Rec) -> bool { r.k.len() <= 257 && r.v.len() <= 129 }
pub open spec fn recsOK(x: Seq<Rec>) -> bool { forall|j: int| 0 <= j < x.len() ==> recOK(#[trigger] x[j]) }
pub open spec fn lB(q: Seq<u8>, n: int) -> bool { lload(q) <= K_leafOverloadThreshold() && (n > 1 ==> lload(q) >= K_leafUnderloadThreshold()) }
pub open spec fn lP(q: Seq<u8>) -> bool { q.len() == 8192 && lok(q) && recsOK(lrecs(q)) }
// xa: the leaf whose load is about to be fixed; xk: the one whose separator is
pub open spec fn lf1(m: Mem, E: Seq<Chd>, xa: int, xk: int, j: int) -> bool {
    let q = bp(m, E[j].a);
    &&& lP(q) && (E[j].a != xa ==> lB(q, E.len() as int)) && (E.len() > 1 ==> ln(q) >= 1)
    &&& j >= 1 && j != xk ==> E[j].k == lrecs(q)[0].k
}
pub open spec fn lfs(m: Mem, E: Seq<Chd>, xa: int, xk: int) -> bool { forall|j: int| 0 <= j < E.len() ==> #[trigger] lf1(m, E, xa, xk, j) }
pub open spec fn lfT(h: Heap, t: T_BPTree, xa: int, xk: int) -> bool {
    let E = tE(h, t);
    lfs(h.mem, E, xa, xk) && ring(h.mem, E) && ends(E, t.leafList) && t.leafCount == E.len()
}
pub open spec fn tR(h: Heap, t: T_BPTree) -> Seq<Rec> { fr(h.mem, tE(h, t)) }
pub proof fn lem_leaf_K()
    ensures K_leafOverloadThreshold() == 7778, K_leafUnderloadThreshold() == 2770, K_maxRecordSize() == 394
{ }
pub proof fn lem_recsMax(x: Seq<Rec>)
    requires recsOK(x)
    ensures recsMax(x)
{ lem_leaf_K(); assert forall|j: int| 0 <= j < x.len() implies 8 + rsz1(#[trigger] x[j]) <= K_maxRecordSize() by { assert(recOK(x[j])); } }
pub proof fn lem_recsOK_sub(x: Seq<Rec>, a: int, b: int)
    requires recsOK(x), 0 <= a <= b <= x.len()
    ensures recsOK(x.subrange(a, b))
{ assert forall|j: int| 0 <= j < b - a implies recOK(#[trigger] x.subrange(a, b)[j]) by { assert(recOK(x[a + j])); } }
pub proof fn lem_recsOK_cat(x: Seq<Rec>, y: Seq<Rec>)
    requires recsOK(x), recsOK(y)
    ensures recsOK(x + y)
{ assert forall|j: int| 0 <= j < (x + y).len() implies recOK(#[trigger] (x + y)[j]) by { if j < x.len() { assert(recOK(x[j])); } else { assert(recOK(y[j - x.len()])); } } }
pub proof fn lem_lP_ne(q: Seq<u8>)
    requires lok(q), lload(q) > 394 || (recsOK(lrecs(q)) && lload(q) > 0)
    ensures ln(q) >= 1
{ if ln(q) == 0 { } }
