// ---- records are added, removed and changed ---------------------------------------------------
// no page is written
pub open spec fn alS(h0: Heap, h: Heap) -> bool { h.al == h0.al && forall|a: int| #[trigger] h0.al.contains(a) ==> h.mem[-1 - a] == h0.mem[-1 - a] }
pub open spec fn tS(t0: T_BPTree, t: T_BPTree) -> bool { tN(t0, t) && t.leafList == t0.leafList && t.leafCount == t0.leafCount }
pub proof fn lem_pos_mem(m0: Mem, m: Mem, L: Seq<Seq<Chd>>, P: Seq<T_recordPathComponent>, d: int)
    requires 0 <= d <= L.len(), forall|x: int, p: int| 0 <= x < d && 0 <= p < L[x].len() ==> bp(m, #[trigger] L[x][p].a) == bp(m0, L[x][p].a), forall|x: int| 0 <= x < d ==> inL(L, x, #[trigger] pos(m0, L, P, x))
    ensures pos(m, L, P, d) == pos(m0, L, P, d)
    decreases d
{
    if d > 0 {
        lem_pos_mem(m0, m, L, P, d - 1); let p = pos(m0, L, P, d - 1); let x = L[d - 1].subrange(0, p);
        assert forall|j: int| 0 <= j < x.len() implies bp(m, #[trigger] x[j].a) == bp(m0, x[j].a) by { assert(x[j] == L[d - 1][j]); }
        lem_exf_same(m0, m, x);
    }
}
// index pages are not written
pub proof fn lem_ixS(h0: Heap, h: Heap, t0: T_BPTree, t: T_BPTree)
    requires z_heap_ok(h0), ixT(h0, t0, noix(), noix()), h.al == h0.al, tN(t0, t), forall|d: int, j: int| inL(tL(h0, t0), d, j) && d < t0.height - 1 ==> bp(h.mem, #[trigger] adr(tL(h0, t0), d, j)) == bp(h0.mem, adr(tL(h0, t0), d, j))
    ensures tL(h, t) == tL(h0, t0), tE(h, t) == tE(h0, t0), ixT(h, t, noix(), noix()),
        forall|P: Seq<T_recordPathComponent>| pathOK(h0.mem, t0.rootAddr, P, t0.height) ==> #[trigger] pathOK(h.mem, t.rootAddr, P, t.height) && pos(h.mem, tL(h, t), P, t.height - 1) == pos(h0.mem, tL(h0, t0), P, t0.height - 1)
{
    let L = tL(h0, t0); let m0 = h0.mem; let m = h.mem; let n = L.len() - 1;
    lem_levs(m0, t0.rootAddr, t0.height);
    assert forall|d: int| 0 <= d < n implies #[trigger] rep1(m, L, d) by {
        assert(rep1(m0, L, d));
        assert forall|j: int| 0 <= j < L[d].len() implies bp(m, #[trigger] L[d][j].a) == bp(m0, L[d][j].a) by { assert(inL(L, d, j)); assert(L[d][j].a == adr(L, d, j)); }
        lem_exf_same(m0, m, L[d]);
    }
    assert(rep(m, t.rootAddr, L)); lem_rep(m, t.rootAddr, L);
    assert forall|d: int, j: int| inL(L, d, j) && d < L.len() - 1 implies nodeP(m, #[trigger] adr(L, d, j), d, noix(), noix()) by { assert(nodeP(m0, adr(L, d, j), d, noix(), noix())); assert(bp(m, adr(L, d, j)) == bp(m0, adr(L, d, j))); }
    assert forall|P: Seq<T_recordPathComponent>| pathOK(h0.mem, t0.rootAddr, P, t0.height) implies #[trigger] pathOK(h.mem, t.rootAddr, P, t.height) && pos(h.mem, tL(h, t), P, t.height - 1) == pos(h0.mem, tL(h0, t0), P, t0.height - 1) by {
        assert forall|d: int| 0 <= d < t0.height - 1 implies #[trigger] pstep(m, P, d) by { assert(pstep(m0, P, d)); lem_pos(m0, t0.rootAddr, L, P, d); let p = pos(m0, L, P, d); assert(adr(L, d, p) == P[d].NodeAddr); }
        assert forall|x: int| 0 <= x < n implies inL(L, x, #[trigger] pos(m0, L, P, x)) by { lem_pos(m0, t0.rootAddr, L, P, x); }
        assert forall|x: int, p: int| 0 <= x < n && 0 <= p < L[x].len() implies bp(m, #[trigger] L[x][p].a) == bp(m0, L[x][p].a) by { assert(inL(L, x, p)); assert(adr(L, x, p) == L[x][p].a); }
        lem_pos_mem(m0, m, L, P, n);
    }
}
pub proof fn lem_alS(h0: Heap, h: Heap, t0: T_BPTree, t: T_BPTree, xl: int, xk: int)
    requires z_heap_ok(h0), ixT(h0, t0, noix(), noix()), lfT(h0, t0, xl, xk), alS(h0, h), tS(t0, t)
    ensures tL(h, t) == tL(h0, t0), tE(h, t) == tE(h0, t0), tR(h, t) == tR(h0, t0), ixT(h, t, noix(), noix()), lfT(h, t, xl, xk),
        forall|P: Seq<T_recordPathComponent>| pathOK(h0.mem, t0.rootAddr, P, t0.height) ==> #[trigger] pathOK(h.mem, t.rootAddr, P, t.height) && fAt(h, t, P) == fAt(h0, t0, P) && pos(h.mem, tL(h, t), P, t.height - 1) == pos(h0.mem, tL(h0, t0), P, t0.height - 1) && bp(h.mem, P[t0.height - 1].NodeAddr) == bp(h0.mem, P[t0.height - 1].NodeAddr)
{
    let L = tL(h0, t0); let E = tE(h0, t0); let m0 = h0.mem; let m = h.mem; lem_levs(m0, t0.rootAddr, t0.height);
    assert forall|d: int, j: int| inL(L, d, j) && d < t0.height - 1 implies bp(m, #[trigger] adr(L, d, j)) == bp(m0, adr(L, d, j)) by { assert(h0.al.contains(adr(L, d, j))); }
    lem_ixS(h0, h, t0, t); lem_E(h0, t0, noix(), noix());
    assert forall|j: int| 0 <= j < E.len() implies dataSame(bp(m0, (#[trigger] E[j]).a), bp(m, E[j].a)) && bp(m, E[j].a) == bp(m0, E[j].a) by { assert(h0.al.contains(E[j].a)); }
    lem_lf_data(m0, m, E, xl, xk);
    assert forall|j: int| 0 <= j < E.len() implies (#[trigger] E[j]).a == E[j].a && lnk(bp(m, E[j].a), bp(m0, E[j].a)) by { assert(dataSame(bp(m0, E[j].a), bp(m, E[j].a))); }
    lem_ring_same(m0, m, E, E);
    assert forall|P: Seq<T_recordPathComponent>| pathOK(h0.mem, t0.rootAddr, P, t0.height) implies #[trigger] pathOK(h.mem, t.rootAddr, P, t.height) && fAt(h, t, P) == fAt(h0, t0, P) && pos(h.mem, tL(h, t), P, t.height - 1) == pos(h0.mem, tL(h0, t0), P, t0.height - 1) && bp(h.mem, P[t0.height - 1].NodeAddr) == bp(h0.mem, P[t0.height - 1].NodeAddr) by {
        assert(pathOK(h.mem, t.rootAddr, P, t.height)); lem_lonpath(h0, t0, P, noix(), noix(), xl, xk); let p = pos(m0, L, P, t0.height - 1);
        let x = E.subrange(0, p); assert forall|j: int| 0 <= j < x.len() implies lp(m, #[trigger] x[j]) == lp(m0, x[j]) by { assert(x[j] == E[j]); }
        lem_fr_same(m0, m, x, x); assert(dataSame(bp(m0, E[p].a), bp(m, E[p].a)));
    }
}
// the records of the leaf at the end of the path change
pub open spec fn lset(h0: Heap, h: Heap, a: int) -> bool {
    let q0 = bp(h0.mem, a); let q = bp(h.mem, a);
    &&& mem_kept1(h0, h, -1 - a) && h.al == h0.al && h.sp == h0.sp && h.nxt >= h0.nxt
    &&& q.len() == 8192 && lok(q) && recsOK(lrecs(q)) && lnk(q, q0)
}
pub proof fn lem_lset(h0: Heap, h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, xk: int)
    requires z_heap_ok(h0), ixT(h0, t, noix(), noix()), lfT(h0, t, noix(), noix()), pathOK(h0.mem, t.rootAddr, P, t.height), lset(h0, h, P[t.height - 1].NodeAddr),
        ({ let a = P[t.height - 1].NodeAddr; let p = pos(h0.mem, tL(h0, t), P, t.height - 1); (tE(h0, t).len() > 1 ==> lrecs(bp(h.mem, a)).len() >= 1) && (p >= 1 && p != xk ==> lrecs(bp(h.mem, a))[0].k == lrecs(bp(h0.mem, a))[0].k) })
    ensures ixT(h, t, noix(), noix()), lfT(h, t, P[t.height - 1].NodeAddr, xk), pathOK(h.mem, t.rootAddr, P, t.height), lfF(h0, h), tE(h, t) == tE(h0, t), tL(h, t) == tL(h0, t),
        pos(h.mem, tL(h, t), P, t.height - 1) == pos(h0.mem, tL(h0, t), P, t.height - 1),
        ({ let a = P[t.height - 1].NodeAddr; let p = pos(h0.mem, tL(h0, t), P, t.height - 1); let o = roff(h0.mem, tE(h0, t), p); let R = tR(h0, t); let n = lrecs(bp(h0.mem, a)).len() as int;
            0 <= o && o + n <= R.len() && R.subrange(o, o + n) == lrecs(bp(h0.mem, a)) && tR(h, t) == R.subrange(0, o) + lrecs(bp(h.mem, a)) + R.subrange(o + n, R.len() as int) && roff(h.mem, tE(h0, t), p) == o })
{
    let a = P[t.height - 1].NodeAddr; let L = tL(h0, t); let E = tE(h0, t); let m0 = h0.mem; let m = h.mem; let p = pos(m0, L, P, t.height - 1); let n = t.height - 1;
    lem_levs(m0, t.rootAddr, t.height); lem_lonpath(h0, t, P, noix(), noix(), noix(), noix()); lem_E(h0, t, noix(), noix());
    assert forall|d: int, j: int| inL(L, d, j) && d < t.height - 1 implies bp(m, #[trigger] adr(L, d, j)) == bp(m0, adr(L, d, j)) by { if adr(L, d, j) == a { lem_dist(L, d, j, n, p); } }
    lem_ixS(h0, h, t, t); assert(pathOK(h.mem, t.rootAddr, P, t.height));
    assert forall|j: int| 0 <= j < E.len() implies (j != p ==> (#[trigger] E[j]).a != a && bp(m, E[j].a) == bp(m0, E[j].a)) by { }
    lem_fr_at(m0, E, p);
    assert forall|j: int| 0 <= j < E.len() && j != p implies lp(m, #[trigger] E[j]) == lp(m0, E[j]) by { assert(E[j].a != a); }
    lem_fr_upd(m0, m, E, E, p);
    assert forall|j: int| 0 <= j < E.len() implies #[trigger] lf1(m, E, a, xk, j) by { assert(lf1(m0, E, noix(), noix(), j)); if j == p { } else { assert(E[j].a != a); } }
    assert forall|j: int| 0 <= j < E.len() implies (#[trigger] E[j]).a == E[j].a && lnk(bp(m, E[j].a), bp(m0, E[j].a)) by { if j != p { assert(E[j].a != a); } }
    lem_ring_same(m0, m, E, E);
    assert(h0.al.contains(a));
}
pub open spec fn pIx(P: Seq<T_recordPathComponent>, t: T_BPTree) -> int { P[t.height - 1].RecordOrNonLeafChildIndex }
pub open spec fn pLf(h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>) -> int { pos(h.mem, tL(h, t), P, t.height - 1) }
pub open spec fn recSl(h: Heap, r: T_record) -> bool { sl_ok(h, r.Key) && sl_ok(h, r.Value) && r.Key.ep == 0 && r.Value.ep == 0 && r.Key.blk >= 0 && r.Value.blk >= 0 }
pub open spec fn recOf(h: Heap, r: T_record) -> Rec { Rec { k: z_seq_mem(h, r.Key), v: z_seq_mem(h, r.Value) } }
pub open spec fn tOkS(h: Heap, t: T_BPTree) -> bool { ixT(h, t, noix(), noix()) && lfT(h, t, noix(), noix()) }
// where a record can be inserted
pub open spec fn insP(h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>) -> bool {
    0 <= pIx(P, t) <= ln(bp(h.mem, P[t.height - 1].NodeAddr)) && (pIx(P, t) >= 1 || pLf(h, t, P) == 0)
}
pub proof fn lem_ins_at(h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, r: Rec)
    requires z_heap_ok(h), tOkS(h, t), pathOK(h.mem, t.rootAddr, P, t.height), recOK(r)
    ensures ({ let a = P[t.height - 1].NodeAddr; let q = bp(h.mem, a); let n = ln(q); leafAt(h, t, a, noix()) && 20 + 8 * (n + 1) + rsz1(r) <= lke(q, n, 0) && rsz(seq![r], 1) == rsz1(r) && P.len() == t.height && t.height >= 1 })
{ lem_lonpath(h, t, P, noix(), noix(), noix(), noix()); lem_leaf_K(); reveal_with_fuel(rsz, 2); }
pub proof fn lem_rload_ins(x: Seq<Rec>, i: int, r: Rec)
    requires 0 <= i <= x.len()
    ensures rload(x.subrange(0, i) + seq![r] + x.subrange(i, x.len() as int)) == rload(x) + 8 + rsz1(r)
{
    let n = x.len() as int; lem_rload_cat(x.subrange(0, i) + seq![r], x.subrange(i, n)); lem_rload_cat(x.subrange(0, i), seq![r]); lem_rload_cat(x.subrange(0, i), x.subrange(i, n)); assert(x.subrange(0, i) + x.subrange(i, n) =~= x); reveal_with_fuel(rsz, 2); assert(rload(seq![r]) == 8 + rsz1(r));
}
pub proof fn lem_seq_ins(R: Seq<Rec>, u: int, o: Seq<Rec>, i: int, r: Rec)
    requires 0 <= u, u + o.len() <= R.len(), R.subrange(u, u + o.len()) == o, 0 <= i <= o.len()
    ensures R.subrange(0, u) + (o.subrange(0, i) + seq![r] + o.subrange(i, o.len() as int)) + R.subrange(u + o.len(), R.len() as int) == R.insert(u + i, r)
{
    let n = o.len() as int; assert forall|j: int| u <= j < u + n implies #[trigger] R[j] == o[j - u] by { assert(R.subrange(u, u + n)[j - u] == R[j]); }
    assert(R.subrange(0, u) + (o.subrange(0, i) + seq![r] + o.subrange(i, n)) + R.subrange(u + n, R.len() as int) =~= R.insert(u + i, r));
}
pub proof fn lem_seq_rm(R: Seq<Rec>, u: int, o: Seq<Rec>, i: int)
    requires 0 <= u, u + o.len() <= R.len(), R.subrange(u, u + o.len()) == o, 0 <= i < o.len()
    ensures R.subrange(0, u) + (o.subrange(0, i) + o.subrange(i + 1, o.len() as int)) + R.subrange(u + o.len(), R.len() as int) == R.remove(u + i), R[u + i] == o[i]
{
    let n = o.len() as int; assert forall|j: int| u <= j < u + n implies #[trigger] R[j] == o[j - u] by { assert(R.subrange(u, u + n)[j - u] == R[j]); }
    assert(R.subrange(0, u) + (o.subrange(0, i) + o.subrange(i + 1, n)) + R.subrange(u + n, R.len() as int) =~= R.remove(u + i));
}
pub proof fn lem_rs_first(h: Heap)
    ensures forall|s: Sl, lo: int| #[trigger] rs_fresh(h, s, lo) && s.len >= 1 && lo >= 0 ==> { let r = h.c_record[s.blk][s.off]; recSl(h, r) && recOf(h, r) == rs(h, s)[0] && r.Key.blk >= lo && r.Value.blk >= lo }
{ assert forall|s: Sl, lo: int| #[trigger] rs_fresh(h, s, lo) && s.len >= 1 && lo >= 0 implies { let r = h.c_record[s.blk][s.off]; recSl(h, r) && recOf(h, r) == rs(h, s)[0] && r.Key.blk >= lo && r.Value.blk >= lo } by { assert(rs_at(h, s, 0) == h.c_record[s.blk][s.off]); } }
pub proof fn lem_insert(h0: Heap, h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, r: Rec)
    requires z_heap_ok(h0), tOkS(h0, t), pathOK(h0.mem, t.rootAddr, P, t.height), insP(h0, t, P), recOK(r),
        ({ let a = P[t.height - 1].NodeAddr; let q0 = bp(h0.mem, a); let q = bp(h.mem, a); let o = lrecs(q0); let i = pIx(P, t); mem_kept1(h0, h, -1 - a) && h.al == h0.al && h.sp == h0.sp && h.nxt >= h0.nxt && q.len() == 8192 && lok(q) && lnk(q, q0) && lrecs(q) == o.subrange(0, i) + seq![r] + o.subrange(i, o.len() as int) })
    ensures ixT(h, t, noix(), noix()), lfT(h, t, P[t.height - 1].NodeAddr, noix()), pathOK(h.mem, t.rootAddr, P, t.height), lfF(h0, h), tR(h, t) == tR(h0, t).insert(fAt(h0, t, P), r), 0 <= fAt(h0, t, P) <= tR(h0, t).len(),
        lload(bp(h.mem, P[t.height - 1].NodeAddr)) <= K_leafOverloadThreshold() ==> lB(bp(h.mem, P[t.height - 1].NodeAddr), t.leafCount)
{
    let a = P[t.height - 1].NodeAddr; let q0 = bp(h0.mem, a); let q = bp(h.mem, a); let o = lrecs(q0); let i = pIx(P, t); let n = o.len() as int; let c = lrecs(q);
    lem_lonpath(h0, t, P, noix(), noix(), noix(), noix());
    lem_recsOK_sub(o, 0, i); lem_recsOK_sub(o, i, n); assert(recsOK(seq![r])); lem_recsOK_cat(o.subrange(0, i), seq![r]); lem_recsOK_cat(o.subrange(0, i) + seq![r], o.subrange(i, n));
    if i >= 1 { assert(c[0] == o[0]); }
    lem_lset(h0, h, t, P, noix());
    lem_rload_ins(o, i, r); lem_rload(q0); lem_rload(q); lem_leaf_K();
    let R = tR(h0, t); let p = pLf(h0, t, P); let u = roff(h0.mem, tE(h0, t), p);
    lem_seq_ins(R, u, o, i, r);
}
pub proof fn lem_lpre_weak(h: Heap, t: T_BPTree, xl: int, xk: int)
    requires lfT(h, t, xl, noix())
    ensures lfT(h, t, xl, xk)
{ let E = tE(h, t); assert forall|j: int| 0 <= j < E.len() implies #[trigger] lf1(h.mem, E, xl, xk, j) by { assert(lf1(h.mem, E, xl, noix(), j)); } }
pub proof fn lem_lpre_weak2(h: Heap, t: T_BPTree, xl: int)
    requires z_heap_ok(h), ixT(h, t, noix(), noix()), lfT(h, t, noix(), noix())
    ensures lfT(h, t, xl, noix())
{ let E = tE(h, t); lem_E(h, t, noix(), noix());  assert forall|j: int| 0 <= j < E.len() implies #[trigger] lf1(h.mem, E, xl, noix(), j) by { assert(lf1(h.mem, E, noix(), noix(), j)); assert(h.al.contains(E[j].a)); } }
pub proof fn lem_rs_one(h: Heap, r: T_record)
    ensures forall|h9: Heap, s: Sl| h9.mem == h.mem && s.len == 1 && rs_at(h9, s, 0) == r ==> #[trigger] rs(h9, s) == seq![recOf(h, r)]
{ assert forall|h9: Heap, s: Sl| h9.mem == h.mem && s.len == 1 && rs_at(h9, s, 0) == r implies #[trigger] rs(h9, s) == seq![recOf(h, r)] by { assert(rs(h9, s) =~= seq![recOf(h, r)]); } }
pub proof fn lem_ts(h: Heap, t0: T_BPTree, t: T_BPTree)
    requires tOkS(h, t0), tS(t0, t)
    ensures tOkS(h, t), tR(h, t) == tR(h, t0), tL(h, t) == tL(h, t0), tE(h, t) == tE(h, t0)
{ }
pub proof fn lem_rload_rm(x: Seq<Rec>, i: int)
    requires 0 <= i < x.len()
    ensures rload(x) == rload(x.subrange(0, i) + x.subrange(i + 1, x.len() as int)) + 8 + rsz1(x[i])
{
    let n = x.len() as int; let y = x.subrange(0, i) + x.subrange(i + 1, n); lem_rload_ins(y, i, x[i]); assert(y.subrange(0, i) + seq![x[i]] + y.subrange(i, y.len() as int) =~= x);
}
pub proof fn lem_remove(h0: Heap, h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>)
    requires z_heap_ok(h0), tOkS(h0, t), pathOK(h0.mem, t.rootAddr, P, t.height), 0 <= pIx(P, t) < ln(bp(h0.mem, P[t.height - 1].NodeAddr)),
        ({ let a = P[t.height - 1].NodeAddr; let q0 = bp(h0.mem, a); let q = bp(h.mem, a); let o = lrecs(q0); let i = pIx(P, t); mem_kept1(h0, h, -1 - a) && h.al == h0.al && h.sp == h0.sp && h.nxt >= h0.nxt && q.len() == 8192 && lok(q) && lnk(q, q0) && lrecs(q) == o.subrange(0, i) + o.subrange(i + 1, o.len() as int) })
    ensures ixT(h, t, noix(), noix()), lfT(h, t, P[t.height - 1].NodeAddr, if pIx(P, t) >= 1 { noix() } else { pLf(h, t, P) }), pathOK(h.mem, t.rootAddr, P, t.height), lfF(h0, h), tR(h, t) == tR(h0, t).remove(fAt(h0, t, P)), 0 <= fAt(h0, t, P) < tR(h0, t).len(),
        lload(bp(h.mem, P[t.height - 1].NodeAddr)) <= K_leafOverloadThreshold(), lrecs(bp(h0.mem, P[t.height - 1].NodeAddr))[pIx(P, t)] == tR(h0, t)[fAt(h0, t, P)]
{
    let a = P[t.height - 1].NodeAddr; let q0 = bp(h0.mem, a); let q = bp(h.mem, a); let o = lrecs(q0); let i = pIx(P, t); let n = o.len() as int; let c = lrecs(q);
    lem_lonpath(h0, t, P, noix(), noix(), noix(), noix()); lem_leaf_K(); lem_rload_rm(o, i); lem_rload(q0); lem_rload(q); assert(recOK(o[i]));
    assert(rload(Seq::<Rec>::empty()) == 0); if c.len() == 0 { assert(c =~= Seq::<Rec>::empty()); }
    lem_recsOK_sub(o, 0, i); lem_recsOK_sub(o, i + 1, n); lem_recsOK_cat(o.subrange(0, i), o.subrange(i + 1, n));
    let p = pLf(h0, t, P); assert(lf1(h0.mem, tE(h0, t), noix(), noix(), p));
    let xk = if i >= 1 { noix() } else { p };
    if i >= 1 { assert(c[0] == o[0]); }
    lem_lset(h0, h, t, P, xk);
    let R = tR(h0, t); let u = roff(h0.mem, tE(h0, t), p);
    lem_seq_rm(R, u, o, i);
}
pub proof fn lem_recOf_lfF(h0: Heap, h: Heap, r: T_record)
    requires recSl(h0, r), lfF(h0, h), h0.ep <= h.ep
    ensures recSl(h, r), recOf(h, r) == recOf(h0, r)
{ assert(h.mem[r.Key.blk] == h0.mem[r.Key.blk]); assert(h.mem[r.Value.blk] == h0.mem[r.Value.blk]); }
pub proof fn lem_rm_at(h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>)
    requires z_heap_ok(h), tOkS(h, t), pathOK(h.mem, t.rootAddr, P, t.height)
    ensures leafAt(h, t, P[t.height - 1].NodeAddr, noix()), P.len() == t.height, t.height >= 1
{ lem_lonpath(h, t, P, noix(), noix(), noix(), noix()); }
