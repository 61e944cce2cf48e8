// ---- where the records of a range of keys lie ------------------------------------------------------
pub open spec fn sortd(S: Seq<KV>) -> bool { forall|i: int, j: int| 0 <= i < j < S.len() ==> lexcmp((#[trigger] S[i]).0, (#[trigger] S[j]).0) < 0 }
pub open spec fn lowb(S: Seq<KV>, G: Seq<u8>, n: int) -> int decreases n { if n <= 0 { 0 } else if lexcmp(S[n - 1].0, G) < 0 { n } else { lowb(S, G, n - 1) } }
pub open spec fn upb(S: Seq<KV>, G: Seq<u8>, n: int) -> int decreases n { if n <= 0 { -1 } else if lexcmp(S[n - 1].0, G) <= 0 { n - 1 } else { upb(S, G, n - 1) } }
// the first record not below the key (the last one for the greatest key), the last one not above it (the first one for the least key)
pub open spec fn loI(S: Seq<KV>, key: Sl, G: Seq<u8>) -> int { if isMin(key) { 0 } else if isMax(key) { S.len() - 1 } else { lowb(S, G, S.len() as int) } }
pub open spec fn hiI(S: Seq<KV>, key: Sl, G: Seq<u8>) -> int { if isMin(key) { 0 } else if isMax(key) { S.len() - 1 } else { upb(S, G, S.len() as int) } }
pub open spec fn below(S: Seq<KV>, G: Seq<u8>, o: int) -> bool { forall|j: int| 0 <= j < o ==> lexcmp((#[trigger] S[j]).0, G) < 0 }
pub open spec fn notbelow(S: Seq<KV>, G: Seq<u8>, o: int) -> bool { forall|j: int| o <= j < S.len() ==> lexcmp((#[trigger] S[j]).0, G) >= 0 }
pub open spec fn notabove(S: Seq<KV>, G: Seq<u8>, o: int) -> bool { forall|j: int| 0 <= j <= o ==> lexcmp((#[trigger] S[j]).0, G) <= 0 }
pub open spec fn above(S: Seq<KV>, G: Seq<u8>, o: int) -> bool { forall|j: int| o < j < S.len() ==> lexcmp((#[trigger] S[j]).0, G) > 0 }
pub proof fn lem_lowb(S: Seq<KV>, G: Seq<u8>, n: int, o: int)
    requires 0 <= o <= n <= S.len(), below(S, G, o), forall|j: int| o <= j < n ==> lexcmp((#[trigger] S[j]).0, G) >= 0
    ensures lowb(S, G, n) == o
    decreases n
{ if n > o { assert(lexcmp(S[n - 1].0, G) >= 0); lem_lowb(S, G, n - 1, o); } else if n > 0 { assert(lexcmp(S[n - 1].0, G) < 0); } }
pub proof fn lem_upb(S: Seq<KV>, G: Seq<u8>, n: int, o: int)
    requires -1 <= o < n <= S.len() || o == -1 && n == 0, notabove(S, G, o), forall|j: int| o < j < n ==> lexcmp((#[trigger] S[j]).0, G) > 0
    ensures upb(S, G, n) == o
    decreases n
{ if n - 1 > o { assert(lexcmp(S[n - 1].0, G) > 0); lem_upb(S, G, n - 1, o); } else if n > 0 { assert(lexcmp(S[n - 1].0, G) <= 0); } }
pub proof fn lem_sortd(h: Heap, t: T_BPTree)
    requires tP(h, t)
    ensures sortd(tC(h, t)), tC(h, t).len() == tR(h, t).len()
{ let R = tR(h, t); let S = tC(h, t); assert forall|i: int, j: int| 0 <= i < j < S.len() implies lexcmp((#[trigger] S[i]).0, (#[trigger] S[j]).0) < 0 by { assert(lexcmp(rwK(h.mem, R, i), rwK(h.mem, R, j)) < 0); } }
// what a search found
pub proof fn lem_bounds(h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, ok: bool, key: Sl)
    requires z_heap_ok(h), tP(h, t), tR(h, t).len() >= 1, fpost(h, t, P, ok, key)
    ensures ({ let S = tC(h, t); let G = z_seq_mem(h, key); let o = fAt(h, t, P); 0 <= o <= S.len() && loI(S, key, G) == o && hiI(S, key, G) == (if ok { o } else { o - 1 }) && (ok ==> o < S.len() && (!isMin(key) && !isMax(key) ==> S[o].0 == G)) && ((isMin(key) || isMax(key)) ==> ok) })
{
    let S = tC(h, t); let G = z_seq_mem(h, key); let o = fAt(h, t, P); let R = tR(h, t);
    if !isMin(key) && !isMax(key) {
        assert(fHit(h, R, o, ok, key));
        assert forall|j: int| 0 <= j < o implies lexcmp((#[trigger] S[j]).0, G) < 0 by { assert(lexcmp(rwK(h.mem, R, j), G) < 0); }
        assert forall|j: int| o <= j < S.len() && !(ok && j == o) implies lexcmp((#[trigger] S[j]).0, G) > 0 by { assert(lexcmp(rwK(h.mem, R, j), G) > 0); }
        if ok { assert(rwK(h.mem, R, o) == G); lem_lex_eq(S[o].0, G); }
        lem_lowb(S, G, S.len() as int, o); lem_upb(S, G, S.len() as int, if ok { o } else { o - 1 });
    }
}
// the bounds by their meaning
pub proof fn lem_bndK(S: Seq<KV>, key: Sl, G: Seq<u8>)
    requires sortd(S), !isMin(key), !isMax(key)
    ensures ({ let l = loI(S, key, G); let u = hiI(S, key, G); 0 <= l <= S.len() && below(S, G, l) && notbelow(S, G, l) && -1 <= u < S.len() && notabove(S, G, u) && above(S, G, u) })
{ lem_lowb_ok(S, G, S.len() as int); lem_upb_ok(S, G, S.len() as int); }
pub proof fn lem_lowb_ok(S: Seq<KV>, G: Seq<u8>, n: int)
    requires sortd(S), 0 <= n <= S.len()
    ensures ({ let l = lowb(S, G, n); 0 <= l <= n && below(S, G, l) && (forall|j: int| l <= j < n ==> lexcmp((#[trigger] S[j]).0, G) >= 0) })
    decreases n
{ if n > 0 { if lexcmp(S[n - 1].0, G) < 0 { assert forall|j: int| 0 <= j < n implies lexcmp((#[trigger] S[j]).0, G) < 0 by { if j < n - 1 { lem_lex_trans(S[j].0, S[n - 1].0, G); } } } else { lem_lowb_ok(S, G, n - 1); } } }
pub proof fn lem_upb_ok(S: Seq<KV>, G: Seq<u8>, n: int)
    requires sortd(S), 0 <= n <= S.len()
    ensures ({ let l = upb(S, G, n); -1 <= l < n && notabove(S, G, l) && (forall|j: int| l < j < n ==> lexcmp((#[trigger] S[j]).0, G) > 0) }) || n == 0 && upb(S, G, n) == -1
    decreases n
{ if n > 0 { if lexcmp(S[n - 1].0, G) <= 0 { assert forall|j: int| 0 <= j < n implies lexcmp((#[trigger] S[j]).0, G) <= 0 by { if j < n - 1 { lem_lex_trans(S[j].0, S[n - 1].0, G); } } } else { lem_upb_ok(S, G, n - 1); } } }
// comparing the two ends
pub proof fn lem_range(S: Seq<KV>, k1: Sl, G1: Seq<u8>, k2: Sl, G2: Seq<u8>)
    requires sortd(S), S.len() >= 1
    ensures ({ let l = loI(S, k1, G1); let u = hiI(S, k2, G2);
        (l < S.len() && !isMin(k2) && !isMax(k2) ==> (lexcmp(S[l].0, G2) > 0 <==> l > u) && (lexcmp(S[l].0, G2) == 0 ==> l == u))
        && (!isMin(k1) && !isMax(k1) && !isMin(k2) && !isMax(k2) && lexcmp(G1, G2) > 0 ==> l > u)
        && (l < S.len() && 0 <= u < S.len() ==> (lexcmp(S[l].0, S[u].0) > 0 <==> l > u))
        && (!isMin(k1) && !isMax(k1) && 0 <= u < S.len() ==> (lexcmp(G1, S[u].0) > 0 <==> l > u))
        && 0 <= l <= S.len() && -1 <= u < S.len() })
{
    let l = loI(S, k1, G1); let u = hiI(S, k2, G2);
    if !isMin(k1) && !isMax(k1) { lem_bndK(S, k1, G1); }
    if !isMin(k2) && !isMax(k2) { lem_bndK(S, k2, G2); if l < S.len() { lem_lex_anti(S[l].0, G2); if lexcmp(S[l].0, G2) == 0 { lem_lex_eq(S[l].0, G2); if u > l { lem_lex_trans(S[l].0, S[u].0, G2); } } } }
    if !isMin(k1) && !isMax(k1) && !isMin(k2) && !isMax(k2) && lexcmp(G1, G2) > 0 && l <= u { lem_lex_anti(G1, G2); lem_lex_anti(S[l].0, G1); assert(lexcmp(S[l].0, G1) >= 0); lem_lex_anti(S[l].0, G1); lem_lex_trans(G1, S[l].0, G2); }
    if l < S.len() && 0 <= u < S.len() { lem_lex_anti(S[l].0, S[u].0); if l == u { lem_lex_eq(S[l].0, S[u].0); } }
    if !isMin(k1) && !isMax(k1) && 0 <= u < S.len() { lem_lex_anti(G1, S[u].0); lem_lex_anti(S[u].0, G1); }
}
// ---- the place of a record ---------------------------------------------------------------------------
pub open spec fn atE(h: Heap, t: T_BPTree, p: int, a: int, i: int, o: int) -> bool { let E = tE(h, t); 0 <= p < E.len() && E[p].a == a && 0 <= i < ln(bp(h.mem, a)) && o == roff(h.mem, E, p) + i }
pub open spec fn atR(h: Heap, t: T_BPTree, a: int, i: int, o: int) -> bool { exists|p: int| #[trigger] atE(h, t, p, a, i, o) }
pub proof fn lem_atR_use(h: Heap, t: T_BPTree, a: int, i: int, o: int)
    requires z_heap_ok(h), tI(h, t), atR(h, t, a, i, o)
    ensures ({ let q = bp(h.mem, a); let R = tR(h, t); h.al.contains(a) && a > 0 && leafP(h, z_access(h, a)) && z_access(h, a).blk == -1 - a && 0 <= i < ln(q) && lrecs(q).len() == ln(q) && 0 <= o < R.len() && lrecs(q)[i] == R[o] && keyOK(h, R[o].k) && valOK(h, R[o].v) && ln(q) < 0x8000_0000 })
{
    let E = tE(h, t); let p = choose|p: int| #[trigger] atE(h, t, p, a, i, o); lem_E(h, t, noix(), noix()); assert(lf1(h.mem, E, noix(), noix(), p)); lem_fr_at(h.mem, E, p); let c = lp(h.mem, E[p]);
    assert(E[p].a == a); assert(c.len() == ln(bp(h.mem, a))); assert(tR(h, t)[roff(h.mem, E, p) + i] == c[i]); lem_ln_bound(bp(h.mem, a), ln(bp(h.mem, a)));
}
pub proof fn lem_atR_path(h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, ok: bool, key: Sl)
    requires z_heap_ok(h), tI(h, t), fpost(h, t, P, ok, key), pIx(P, t) < ln(bp(h.mem, P[t.height - 1].NodeAddr))
    ensures atR(h, t, P[t.height - 1].NodeAddr, pIx(P, t), fAt(h, t, P))
{ assert(atE(h, t, pos(h.mem, tL(h, t), P, t.height - 1), P[t.height - 1].NodeAddr, pIx(P, t), fAt(h, t, P))); }
pub proof fn lem_atR_inj(h: Heap, t: T_BPTree, a: int, i: int, o: int, b: int, j: int, u: int)
    requires z_heap_ok(h), tI(h, t), atR(h, t, a, i, o), atR(h, t, b, j, u)
    ensures (a == b && i == j) <==> o == u
{
    let E = tE(h, t); let m = h.mem; let p = choose|p: int| #[trigger] atE(h, t, p, a, i, o); let s = choose|p: int| #[trigger] atE(h, t, p, b, j, u); lem_E(h, t, noix(), noix());
    assert(E[p].a == a && E[s].a == b); lem_fr_at(m, E, p); lem_fr_at(m, E, s); assert(lf1(m, E, noix(), noix(), p)); assert(lf1(m, E, noix(), noix(), s)); assert(lp(m, E[p]).len() == ln(bp(m, a))); assert(lp(m, E[s]).len() == ln(bp(m, b)));
    if p < s { lem_lp1(h, t, noix(), noix()); lem_roff_mono(m, E, p + 1, s); }
    if s < p { lem_lp1(h, t, noix(), noix()); lem_roff_mono(m, E, s + 1, p); }
}
pub proof fn lem_atR_tail(h: Heap, t: T_BPTree, a: int, i: int, o: int)
    requires z_heap_ok(h), tI(h, t), atR(h, t, a, i, o), i == ln(bp(h.mem, a)) - 1
    ensures a == t.leafList.tailAddr <==> o == tR(h, t).len() - 1
{
    let E = tE(h, t); let m = h.mem; let n = E.len() as int; let p = choose|p: int| #[trigger] atE(h, t, p, a, i, o); lem_E(h, t, noix(), noix()); assert(E[p].a == a); lem_fr_at(m, E, p); assert(lf1(m, E, noix(), noix(), p)); lem_off0(m, E);
    assert(ends(E, t.leafList)); assert(lp(m, E[p]).len() == ln(bp(m, a)));
    if p < n - 1 { lem_lp1(h, t, noix(), noix()); lem_roff_mono(m, E, p + 1, n); assert(E[n - 1].a != a); }
}
pub proof fn lem_atR_next(h: Heap, t: T_BPTree, a: int, i: int, o: int)
    requires z_heap_ok(h), tI(h, t), atR(h, t, a, i, o), o + 1 < tR(h, t).len()
    ensures if i < ln(bp(h.mem, a)) - 1 { atR(h, t, a, i + 1, o + 1) } else { atR(h, t, nxq(bp(h.mem, a)), 0, o + 1) }
{
    let E = tE(h, t); let m = h.mem; let n = E.len() as int; let p = choose|p: int| #[trigger] atE(h, t, p, a, i, o); lem_E(h, t, noix(), noix()); assert(E[p].a == a); lem_fr_at(m, E, p); assert(lf1(m, E, noix(), noix(), p)); lem_off0(m, E);
    assert(lp(m, E[p]).len() == ln(bp(m, a)));
    if i < ln(bp(m, a)) - 1 { assert(atE(h, t, p, a, i + 1, o + 1)); }
    else { assert(p + 1 < n); assert(ring1(m, E, p)); lem_lp1(h, t, noix(), noix()); assert(lp(m, E[p + 1]).len() >= 1); assert(lf1(m, E, noix(), noix(), p + 1)); assert(lp(m, E[p + 1]).len() == ln(bp(m, E[p + 1].a))); assert(atE(h, t, p + 1, nxq(bp(m, a)), 0, o + 1)); }
}
pub proof fn lem_atR_prev(h: Heap, t: T_BPTree, a: int, i: int, o: int)
    requires z_heap_ok(h), tI(h, t), atR(h, t, a, i, o), o >= 1
    ensures if i >= 1 { atR(h, t, a, i - 1, o - 1) } else { let b = pvq(bp(h.mem, a)); h.al.contains(b) && b > 0 && leafP(h, z_access(h, b)) && z_access(h, b).blk == -1 - b && ln(bp(h.mem, b)) < 0x8000_0000 && atR(h, t, b, ln(bp(h.mem, b)) - 1, o - 1) }
{
    let E = tE(h, t); let m = h.mem; let n = E.len() as int; let p = choose|p: int| #[trigger] atE(h, t, p, a, i, o); lem_E(h, t, noix(), noix()); assert(E[p].a == a); lem_fr_at(m, E, p); assert(lf1(m, E, noix(), noix(), p)); lem_off0(m, E);
    if i >= 1 { assert(atE(h, t, p, a, i - 1, o - 1)); }
    else {
        assert(p >= 1) by { if p == 0 { assert(roff(m, E, 0) == 0); } }
        assert(ring1(m, E, p)); lem_lp1(h, t, noix(), noix()); assert(lp(m, E[p - 1]).len() >= 1); assert(lf1(m, E, noix(), noix(), p - 1)); assert(lp(m, E[p - 1]).len() == ln(bp(m, E[p - 1].a))); lem_fr_at(m, E, p - 1);
        let b = pvq(bp(m, a)); assert(E[p - 1].a == b); assert(atE(h, t, p - 1, b, ln(bp(m, b)) - 1, o - 1)); lem_atR_use(h, t, b, ln(bp(m, b)) - 1, o - 1);
    }
}
// a search that ended behind the last record of a leaf
pub proof fn lem_atR_end(h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, key: Sl)
    requires z_heap_ok(h), tP(h, t), fpost(h, t, P, false, key), tR(h, t).len() >= 1, pIx(P, t) == ln(bp(h.mem, P[t.height - 1].NodeAddr))
    ensures ({ let a = P[t.height - 1].NodeAddr; let o = fAt(h, t, P); o >= 1 && (a == t.leafList.tailAddr <==> o == tR(h, t).len()) && (a != t.leafList.tailAddr ==> atR(h, t, nxq(bp(h.mem, a)), 0, o)) })
{
    let E = tE(h, t); let m = h.mem; let p = pos(m, tL(h, t), P, t.height - 1); let a = P[t.height - 1].NodeAddr; let i = pIx(P, t); let o = fAt(h, t, P); lem_bounds(h, t, P, false, key);
    lem_E(h, t, noix(), noix()); lem_off0(m, E); lem_fr_at(m, E, p); assert(lf1(m, E, noix(), noix(), p)); assert(E[p].a == a); assert(lp(m, E[p]).len() == ln(bp(m, a)));
    assert(i >= 1) by { if i == 0 { assert(p == 0); assert(E.len() == 1); } }
    assert(atE(h, t, p, a, i - 1, o - 1)); lem_atR_tail(h, t, a, i - 1, o - 1); if a != t.leafList.tailAddr { lem_atR_next(h, t, a, i - 1, o - 1); }
}
pub proof fn lem_atR_keep(h0: Heap, h: Heap, t: T_BPTree, a: int, i: int, o: int)
    requires z_heap_ok(h0), tP(h0, t), mem_kept(h0, h), h.al == h0.al, h.sp == h0.sp, atR(h0, t, a, i, o)
    ensures atR(h, t, a, i, o), tP(h, t), tC(h, t) == tC(h0, t), tR(h, t) == tR(h0, t), bp(h.mem, a) == bp(h0.mem, a)
{
    lem_tP_keep(h0, h, t); lem_alS(h0, h, t, t, noix(), noix()); let p = choose|p: int| #[trigger] atE(h0, t, p, a, i, o); lem_E(h0, t, noix(), noix()); assert(tE(h0, t)[p].a == a); lem_atR_use(h0, t, a, i, o);
    let E = tE(h0, t); let x = E.subrange(0, p); assert forall|j: int| 0 <= j < x.len() implies lp(h.mem, #[trigger] x[j]) == lp(h0.mem, x[j]) by { assert(x[j] == E[j]); assert(h0.al.contains(E[j].a)); }
    lem_fr_same(h0.mem, h.mem, x, x);
    assert(atE(h, t, p, a, i, o));
}
pub open spec fn sOK(h: Heap, t: T_BPTree, k1: Sl, G1: Seq<u8>, k2: Sl, G2: Seq<u8>, a1: int, i1: int, a2: int, i2: int, ok: bool) -> bool {
    let S = tC(h, t); let l = loI(S, k1, G1); let u = hiI(S, k2, G2);
    ok == (S.len() > 0 && l <= u) && (ok ==> 0 <= l && u < S.len() && atR(h, t, a1, i1, l) && atR(h, t, a2, i2, u))
}
pub proof fn lem_range1(S: Seq<KV>, k1: Sl, G1: Seq<u8>, k2: Sl, G2: Seq<u8>)
    requires sortd(S), S.len() >= 1
    ensures ({ let l = loI(S, k1, G1); let u = hiI(S, k2, G2);
        (!isMin(k1) && !isMax(k1) && !isMin(k2) && !isMax(k2) && lexcmp(G1, G2) == 0 ==> l - 1 <= u <= l && u == hiI(S, k1, G1))
        && (isMin(k1) ==> l == 0) && (isMax(k1) && !isMin(k1) ==> l == S.len() - 1) && (isMin(k2) ==> u == 0) && (isMax(k2) && !isMin(k2) ==> u == S.len() - 1) })
{
    let l = loI(S, k1, G1); let u = hiI(S, k2, G2);
    if !isMin(k1) && !isMax(k1) && !isMin(k2) && !isMax(k2) && lexcmp(G1, G2) == 0 { lem_lex_eq(G1, G2); lem_bndK(S, k1, G1); lem_bndK(S, k2, G2);
        if u > l { lem_lex_anti(G1, S[l].0); lem_lex_trans(S[u].0, G2, S[l].0); lem_lex_anti(S[l].0, S[u].0); }
        if u < l - 1 { assert(lexcmp(S[l - 1].0, G1) < 0); assert(lexcmp(S[l - 1].0, G2) > 0); } }
}
// a search that found nothing, but not below all the records: the record before it
pub proof fn lem_atR_path1(h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, key: Sl)
    requires z_heap_ok(h), tP(h, t), fpost(h, t, P, false, key), tR(h, t).len() >= 1, fAt(h, t, P) >= 1
    ensures pIx(P, t) >= 1, atR(h, t, P[t.height - 1].NodeAddr, pIx(P, t) - 1, fAt(h, t, P) - 1)
{
    let E = tE(h, t); let m = h.mem; let p = pos(m, tL(h, t), P, t.height - 1); let a = P[t.height - 1].NodeAddr; let i = pIx(P, t); lem_bounds(h, t, P, false, key); lem_off0(m, E);
    assert(i >= 1) by { if i == 0 { assert(p == 0); } }
    assert(atE(h, t, p, a, i - 1, fAt(h, t, P) - 1));
}
// everything about a place a record is at
pub open spec fn atU(h: Heap, t: T_BPTree, a: int, i: int, o: int) -> bool {
    let q = bp(h.mem, a); let S = tC(h, t);
    atR(h, t, a, i, o) && lfU(h, a) && 0 <= i < ln(q) && lrecs(q).len() == ln(q) && 0 <= o < S.len() && keyOK(h, lrecs(q)[i].k) && valOK(h, lrecs(q)[i].v) && S[o] == raw1(h.mem, lrecs(q)[i])
}
pub open spec fn lfU(h: Heap, a: int) -> bool { h.al.contains(a) && a > 0 && leafP(h, z_access(h, a)) && z_access(h, a).blk == -1 - a && ln(bp(h.mem, a)) < 0x8000_0000 }
pub proof fn lem_atU(h: Heap, t: T_BPTree, a: int, i: int, o: int)
    requires z_heap_ok(h), tP(h, t), atR(h, t, a, i, o)
    ensures atU(h, t, a, i, o)
{ lem_atR_use(h, t, a, i, o); }
pub open spec fn fnd(h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, ok: bool, key: Sl) -> bool {
    let S = tC(h, t); let G = z_seq_mem(h, key); let o = fAt(h, t, P); let a = P[t.height - 1].NodeAddr; let i = P[t.height - 1].RecordOrNonLeafChildIndex; let q = bp(h.mem, a);
    &&& P.len() == t.height && t.height >= 1 && lfU(h, a) && 0 <= i <= ln(q) && 0 <= o <= S.len()
    &&& loI(S, key, G) == o && hiI(S, key, G) == (if ok { o } else { o - 1 }) && (ok ==> o < S.len() && i < ln(q) && (!isMin(key) && !isMax(key) ==> S[o].0 == G)) && ((isMin(key) || isMax(key)) ==> ok)
    &&& i < ln(q) ==> atU(h, t, a, i, o)
    &&& i == ln(q) ==> (a == t.leafList.tailAddr <==> o == S.len()) && (a != t.leafList.tailAddr ==> atU(h, t, nxq(q), 0, o))
    &&& !ok && o >= 1 ==> i >= 1 && atU(h, t, a, i - 1, o - 1)
}
pub proof fn lem_fnd(h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, ok: bool, key: Sl)
    requires z_heap_ok(h), tP(h, t), tR(h, t).len() >= 1, fpost(h, t, P, ok, key), pathOK(h.mem, t.rootAddr, P, t.height)
    ensures fnd(h, t, P, ok, key)
{
    let S = tC(h, t); let o = fAt(h, t, P); let a = P[t.height - 1].NodeAddr; let i = P[t.height - 1].RecordOrNonLeafChildIndex; let q = bp(h.mem, a);
    lem_bounds(h, t, P, ok, key); lem_leaf_at(h, t, P); lem_ln_bound(q, ln(q));
    if i < ln(q) { lem_atR_path(h, t, P, ok, key); lem_atU(h, t, a, i, o); }
    else { lem_atR_end(h, t, P, key); if a != t.leafList.tailAddr { lem_atU(h, t, nxq(q), 0, o); } }
    if !ok && o >= 1 { lem_atR_path1(h, t, P, key); lem_atU(h, t, a, i - 1, o - 1); }
}
pub proof fn lem_atU_keep(h0: Heap, h: Heap, t: T_BPTree, a: int, i: int, o: int)
    requires z_heap_ok(h0), z_heap_ok(h), tP(h0, t), mem_kept(h0, h), h.al == h0.al, h.sp == h0.sp, atU(h0, t, a, i, o)
    ensures atU(h, t, a, i, o), tP(h, t), tC(h, t) == tC(h0, t), tR(h, t) == tR(h0, t), bp(h.mem, a) == bp(h0.mem, a)
{ lem_atR_keep(h0, h, t, a, i, o); lem_atU(h, t, a, i, o); }
// the records between the bounds are exactly those with keys in the range
pub open spec fn geK(S: Seq<KV>, j: int, k: Sl, G: Seq<u8>) -> bool { if isMin(k) { true } else if isMax(k) { j == S.len() - 1 } else { lexcmp(S[j].0, G) >= 0 } }
pub open spec fn leK(S: Seq<KV>, j: int, k: Sl, G: Seq<u8>) -> bool { if isMin(k) { j == 0 } else if isMax(k) { true } else { lexcmp(S[j].0, G) <= 0 } }
pub proof fn lem_range_exact(S: Seq<KV>, k1: Sl, G1: Seq<u8>, k2: Sl, G2: Seq<u8>)
    requires sortd(S)
    ensures forall|j: int| 0 <= j < S.len() ==> ((loI(S, k1, G1) <= j <= hiI(S, k2, G2)) <==> (#[trigger] geK(S, j, k1, G1) && leK(S, j, k2, G2)))
{
    if !isMin(k1) && !isMax(k1) { lem_bndK(S, k1, G1); } if !isMin(k2) && !isMax(k2) { lem_bndK(S, k2, G2); }
    assert forall|j: int| 0 <= j < S.len() implies ((loI(S, k1, G1) <= j <= hiI(S, k2, G2)) <==> (#[trigger] geK(S, j, k1, G1) && leK(S, j, k2, G2))) by {
        if !isMin(k1) && !isMax(k1) { let l = loI(S, k1, G1); if j < l { assert(lexcmp(S[j].0, G1) < 0); } else { assert(lexcmp(S[j].0, G1) >= 0); } }
        if !isMin(k2) && !isMax(k2) { let u = hiI(S, k2, G2); if j <= u { assert(lexcmp(S[j].0, G2) <= 0); } else { assert(lexcmp(S[j].0, G2) > 0); } }
    }
}
