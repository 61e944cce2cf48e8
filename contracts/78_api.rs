// ---- the content of the tree and its changes -----------------------------------------------------
pub type KV = (Seq<u8>, Seq<u8>);
pub open spec fn tC(h: Heap, t: T_BPTree) -> Seq<KV> { raws(h.mem, tR(h, t)) }
// the state of a tree between two operations
pub open spec fn tP(h: Heap, t: T_BPTree) -> bool { tI(h, t) && t.recordCount == tR(h, t).len() && ovD(tR(h, t)) && t.payloadSize == psz(tC(h, t)) }
pub open spec fn inAt(S: Seq<KV>, o: int, k: Seq<u8>) -> bool {
    &&& 0 <= o <= S.len()
    &&& forall|j: int| 0 <= j < o ==> lexcmp((#[trigger] S[j]).0, k) < 0
    &&& forall|j: int| o <= j < S.len() ==> lexcmp((#[trigger] S[j]).0, k) > 0
}
pub open spec fn kAt(S: Seq<KV>, o: int, k: Seq<u8>) -> bool { 0 <= o < S.len() && S[o].0 == k }
pub open spec fn absent(S: Seq<KV>, k: Seq<u8>) -> bool { forall|j: int| 0 <= j < S.len() ==> (#[trigger] S[j]).0 != k }
pub open spec fn added(S0: Seq<KV>, S: Seq<KV>, k: Seq<u8>, v: Seq<u8>) -> bool { exists|o: int| #[trigger] inAt(S0, o, k) && S == S0.insert(o, (k, v)) }
pub open spec fn replaced(S0: Seq<KV>, S: Seq<KV>, k: Seq<u8>, v: Seq<u8>) -> bool { exists|o: int| #[trigger] kAt(S0, o, k) && S == S0.update(o, (k, v)) }
pub open spec fn removed(S0: Seq<KV>, S: Seq<KV>, k: Seq<u8>) -> bool { exists|o: int| #[trigger] kAt(S0, o, k) && S == S0.remove(o) }
pub open spec fn maps(S: Seq<KV>, k: Seq<u8>, v: Seq<u8>) -> bool { exists|o: int| #[trigger] kAt(S, o, k) && S[o].1 == v }
pub open spec fn hasK(S: Seq<KV>, k: Seq<u8>) -> bool { exists|o: int| #[trigger] kAt(S, o, k) }
// the file spaces besides the pages are exactly those of the records, and others that are left alone
pub open spec fn spD(h0: Heap, h: Heap, R0: Seq<Rec>, R: Seq<Rec>) -> bool {
    &&& forall|a: int| #[trigger] h.sp.contains(a) <==> (h0.sp.contains(a) && !isOv(R0, a)) || isOv(R, a)
    &&& forall|a: int| #[trigger] h0.sp.contains(a) && !isOv(R0, a) ==> h.mem[-1 - a] == h0.mem[-1 - a]
}
// the memory of the program is left alone
pub open spec fn goF(h0: Heap, h: Heap) -> bool { h0.nxt <= h.nxt && forall|b: int| 0 <= b < h0.nxt ==> #[trigger] h.mem[b] == h0.mem[b] }
pub proof fn lem_psz_ins(S: Seq<KV>, o: int, x: KV)
    requires 0 <= o <= S.len()
    ensures psz(S.insert(o, x)) == psz(S) + x.0.len() + x.1.len()
    decreases S.len()
{
    let T = S.insert(o, x);
    if o == S.len() { assert(T.drop_last() =~= S); assert(T.last() == x); }
    else { lem_psz_ins(S.drop_last(), o, x); assert(T.drop_last() =~= S.drop_last().insert(o, x)); assert(T.last() == S.last()); }
}
pub proof fn lem_keep1(h0: Heap, h: Heap, r: Rec)
    requires keyOK(h0, r.k), valOK(h0, r.v), forall|a: int| #[trigger] ovIn(r, a) ==> h.sp.contains(a) && h.mem[-1 - a] == h0.mem[-1 - a], z_heap_ok(h0)
    ensures keyOK(h, r.k), valOK(h, r.v), raw1(h.mem, r) == raw1(h0.mem, r)
{ if islong(r.k, kP()) { assert(ovIn(r, ovaddr(r.k, kP()))); } if islong(r.v, vP()) { assert(ovIn(r, ovaddr(r.v, vP()))); } }
pub proof fn lem_isOv_sp(h: Heap, R: Seq<Rec>)
    requires kvOK(h, R)
    ensures forall|a: int| #[trigger] isOv(R, a) ==> h.sp.contains(a)
{ assert forall|a: int| #[trigger] isOv(R, a) implies h.sp.contains(a) by { let j = choose|j: int| 0 <= j < R.len() && #[trigger] ovIn(R[j], a); assert(keyOK(h, R[j].k) && valOK(h, R[j].v)); } }
pub proof fn lem_keep(h0: Heap, h: Heap, R: Seq<Rec>)
    requires kvOK(h0, R), z_heap_ok(h0), forall|a: int| #[trigger] isOv(R, a) ==> h.sp.contains(a) && h.mem[-1 - a] == h0.mem[-1 - a]
    ensures kvOK(h, R), raws(h.mem, R) == raws(h0.mem, R), asc(h0.mem, R) ==> asc(h.mem, R), forall|j: int| 0 <= j < R.len() ==> #[trigger] rwK(h.mem, R, j) == rwK(h0.mem, R, j)
{
    assert forall|j: int| 0 <= j < R.len() implies keyOK(h, (#[trigger] R[j]).k) && valOK(h, R[j].v) && raw1(h.mem, R[j]) == raw1(h0.mem, R[j]) by {
        assert forall|a: int| #[trigger] ovIn(R[j], a) implies h.sp.contains(a) && h.mem[-1 - a] == h0.mem[-1 - a] by { assert(isOv(R, a)); }
        lem_keep1(h0, h, R[j]);
    }
    assert(raws(h.mem, R) =~= raws(h0.mem, R));
    assert forall|j: int| 0 <= j < R.len() implies #[trigger] rwK(h.mem, R, j) == rwK(h0.mem, R, j) by { assert(raw1(h.mem, R[j]) == raw1(h0.mem, R[j])); }
}
pub proof fn lem_ins_C(h: Heap, R0: Seq<Rec>, o: int, r: Rec)
    requires kvOK(h, R0), asc(h.mem, R0), ovD(R0), ovD1(r), keyOK(h, r.k), valOK(h, r.v), inAt(raws(h.mem, R0), o, rawK(h.mem, r.k)), forall|a: int| #[trigger] ovIn(r, a) ==> !isOv(R0, a)
    ensures ({ let R = R0.insert(o, r); kvOK(h, R) && asc(h.mem, R) && ovD(R) && raws(h.mem, R) == raws(h.mem, R0).insert(o, raw1(h.mem, r)) && psz(raws(h.mem, R)) == psz(raws(h.mem, R0)) + raw1(h.mem, r).0.len() + raw1(h.mem, r).1.len() }), forall|a: int| #[trigger] isOv(R0.insert(o, r), a) <==> isOv(R0, a) || ovIn(r, a)
{
    let R = R0.insert(o, r); let m = h.mem; let S0 = raws(m, R0);
    assert(raws(m, R) =~= S0.insert(o, raw1(m, r))); lem_psz_ins(S0, o, raw1(m, r));
    assert forall|j: int| 0 <= j < R.len() implies keyOK(h, (#[trigger] R[j]).k) && valOK(h, R[j].v) && ovD1(R[j]) by { if j < o { assert(R[j] == R0[j]); } else if j > o { assert(R[j] == R0[j - 1]); } }
    assert forall|i: int, j: int| 0 <= i < j < R.len() implies lexcmp(#[trigger] rwK(m, R, i), #[trigger] rwK(m, R, j)) < 0 by {
        let a = if i < o { i } else { i - 1 }; let b = if j < o { j } else { j - 1 };
        if i == o { assert(S0[b].0 == rwK(m, R0, b)); lem_lex_anti(rwK(m, R0, b), rawK(m, r.k)); assert(R[j] == R0[b]); }
        else if j == o { assert(S0[a].0 == rwK(m, R0, a)); assert(R[i] == R0[a]); }
        else { assert(R[i] == R0[a] && R[j] == R0[b]); assert(lexcmp(rwK(m, R0, a), rwK(m, R0, b)) < 0); }
    }
    assert forall|i: int, j: int, a: int| 0 <= i < j < R.len() && #[trigger] ovIn(R[i], a) implies !#[trigger] ovIn(R[j], a) by {
        let x = if i < o { i } else { i - 1 }; let y = if j < o { j } else { j - 1 };
        if i == o { assert(R[j] == R0[y]); if ovIn(R0[y], a) { assert(isOv(R0, a)); } }
        else if j == o { assert(R[i] == R0[x]); assert(isOv(R0, a)); }
        else { assert(R[i] == R0[x] && R[j] == R0[y]); }
    }
    assert forall|a: int| #[trigger] isOv(R, a) <==> isOv(R0, a) || ovIn(r, a) by {
        if isOv(R0, a) { let j = choose|j: int| 0 <= j < R0.len() && #[trigger] ovIn(R0[j], a); if j < o { assert(ovIn(R[j], a)); } else { assert(ovIn(R[j + 1], a)); } }
        if ovIn(r, a) { assert(ovIn(R[o], a)); }
        if isOv(R, a) { let j = choose|j: int| 0 <= j < R.len() && #[trigger] ovIn(R[j], a); if j < o { assert(ovIn(R0[j], a)); } else if j > o { assert(ovIn(R0[j - 1], a)); } }
    }
}
pub proof fn lem_rm_C(h: Heap, R0: Seq<Rec>, o: int)
    requires kvOK(h, R0), asc(h.mem, R0), ovD(R0), 0 <= o < R0.len()
    ensures ({ let R = R0.remove(o); kvOK(h, R) && asc(h.mem, R) && ovD(R) && raws(h.mem, R) == raws(h.mem, R0).remove(o) && psz(raws(h.mem, R)) == psz(raws(h.mem, R0)) - raw1(h.mem, R0[o]).0.len() - raw1(h.mem, R0[o]).1.len() && inAt(raws(h.mem, R), o, rawK(h.mem, R0[o].k)) }), forall|a: int| #[trigger] isOv(R0.remove(o), a) <==> isOv(R0, a) && !ovIn(R0[o], a)
{
    let R = R0.remove(o); let m = h.mem; let S0 = raws(m, R0); let S = raws(m, R);
    assert(S =~= S0.remove(o)); lem_psz_ins(S, o, S0[o]); assert(S.insert(o, S0[o]) =~= S0);
    assert forall|j: int| 0 <= j < R.len() implies keyOK(h, (#[trigger] R[j]).k) && valOK(h, R[j].v) && ovD1(R[j]) by { if j < o { assert(R[j] == R0[j]); } else { assert(R[j] == R0[j + 1]); } }
    assert forall|i: int, j: int| 0 <= i < j < R.len() implies lexcmp(#[trigger] rwK(m, R, i), #[trigger] rwK(m, R, j)) < 0 by {
        let a = if i < o { i } else { i + 1 }; let b = if j < o { j } else { j + 1 }; assert(R[i] == R0[a] && R[j] == R0[b]); assert(lexcmp(rwK(m, R0, a), rwK(m, R0, b)) < 0);
    }
    assert forall|i: int, j: int, a: int| 0 <= i < j < R.len() && #[trigger] ovIn(R[i], a) implies !#[trigger] ovIn(R[j], a) by { let x = if i < o { i } else { i + 1 }; let y = if j < o { j } else { j + 1 }; assert(R[i] == R0[x] && R[j] == R0[y]); }
    assert forall|j: int| 0 <= j < o implies lexcmp((#[trigger] S[j]).0, rawK(m, R0[o].k)) < 0 by { assert(R[j] == R0[j]); assert(lexcmp(rwK(m, R0, j), rwK(m, R0, o)) < 0); }
    assert forall|j: int| o <= j < S.len() implies lexcmp((#[trigger] S[j]).0, rawK(m, R0[o].k)) > 0 by { assert(R[j] == R0[j + 1]); assert(lexcmp(rwK(m, R0, o), rwK(m, R0, j + 1)) < 0); lem_lex_anti(rwK(m, R0, o), rwK(m, R0, j + 1)); }
    assert forall|a: int| #[trigger] isOv(R, a) <==> isOv(R0, a) && !ovIn(R0[o], a) by {
        if isOv(R0, a) && !ovIn(R0[o], a) { let j = choose|j: int| 0 <= j < R0.len() && #[trigger] ovIn(R0[j], a); if j < o { assert(ovIn(R[j], a)); } else { assert(ovIn(R[j - 1], a)); } }
        if isOv(R, a) { let j = choose|j: int| 0 <= j < R.len() && #[trigger] ovIn(R[j], a); if j < o { assert(ovIn(R0[j], a)); } else { assert(ovIn(R0[j + 1], a)); } }
    }
}
// ---- the steps of the operations ------------------------------------------------------------------
pub proof fn lem_tP_same(h0: Heap, h: Heap, t: T_BPTree)
    requires tP(h0, t), hEq(h0, h)
    ensures tP(h, t), tR(h, t) == tR(h0, t), tC(h, t) == tC(h0, t)
{ lem_tI_same(h0, h, t); }
// a tree whose pages, file spaces and memory are as before
pub proof fn lem_tP_keep(h0: Heap, h: Heap, t: T_BPTree)
    requires z_heap_ok(h0), tP(h0, t), mem_kept(h0, h), h.al == h0.al, h.sp == h0.sp
    ensures tP(h, t), tR(h, t) == tR(h0, t), tC(h, t) == tC(h0, t), spD(h0, h, tR(h0, t), tR(h, t)), goF(h0, h) || h.nxt < h0.nxt
{
    lem_alS(h0, h, t, t, noix(), noix()); let R = tR(h0, t); lem_isOv_sp(h0, R);
    assert forall|a: int| #[trigger] isOv(R, a) implies h.sp.contains(a) && h.mem[-1 - a] == h0.mem[-1 - a] by { assert(h0.sp.contains(a)); }
    lem_keep(h0, h, R);
}
// the record found
pub proof fn lem_hit(h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, key: Sl)
    requires z_heap_ok(h), tP(h, t), fpost(h, t, P, true, key), !isMin(key), !isMax(key)
    ensures ({ let q = bp(h.mem, P[t.height - 1].NodeAddr); let i = pIx(P, t); let o = fAt(h, t, P); let R = tR(h, t); 0 <= i < ln(q) && 0 <= o < R.len() && R[o] == lrecs(q)[i] && valOK(h, lrecs(q)[i].v) && keyOK(h, R[o].k) && kAt(tC(h, t), o, z_seq_mem(h, key)) && tC(h, t)[o].1 == rawV(h.mem, R[o].v) && tC(h, t)[o] == raw1(h.mem, R[o]) })
{ let o = fAt(h, t, P); let R = tR(h, t); assert(keyOK(h, R[o].k)); assert(rwK(h.mem, R, o) == z_seq_mem(h, key)); }
pub proof fn lem_miss(h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, key: Sl)
    requires z_heap_ok(h), tP(h, t), fpost(h, t, P, false, key), !isMin(key), !isMax(key)
    ensures inAt(tC(h, t), fAt(h, t, P), z_seq_mem(h, key))
{
    let o = fAt(h, t, P); let R = tR(h, t); let S = tC(h, t); let K = z_seq_mem(h, key);
    if R.len() > 0 {
        assert(fHit(h, R, o, false, key));
        assert forall|j: int| 0 <= j < o implies lexcmp((#[trigger] S[j]).0, K) < 0 by { assert(lexcmp(rwK(h.mem, R, j), K) < 0); }
        assert forall|j: int| o <= j < S.len() implies lexcmp((#[trigger] S[j]).0, K) > 0 by { assert(lexcmp(rwK(h.mem, R, j), K) > 0); }
    }
}
pub open spec fn addI(h: Heap, t: T_BPTree, o: int, r: Rec) -> bool {
    let R = tR(h, t);
    &&& kvOK(h, R) && asc(h.mem, R) && ovD(R) && inAt(raws(h.mem, R), o, rawK(h.mem, r.k)) && rec1OK(h, r)
    &&& forall|a: int| #[trigger] ovIn(r, a) ==> !isOv(R, a)
}
pub proof fn lem_add1(h1: Heap, h2: Heap, t1: T_BPTree, t2: T_BPTree, P: Seq<T_recordPathComponent>, key: Sl, r: Rec)
    requires z_heap_ok(h1), tP(h1, t1), pathOK(h1.mem, t1.rootAddr, P, t1.height), fpost(h1, t1, P, false, key), !isMin(key), !isMax(key), newOv(h1, h2, r), rec1OK(h2, r), tS(t1, t2), raw1(h2.mem, r).0 == z_seq_mem(h1, key)
    ensures tOkS(h2, t2), tR(h2, t2) == tR(h1, t1), tC(h2, t2) == tC(h1, t1), pathOK(h2.mem, t2.rootAddr, P, t2.height), insP(h2, t2, P), fAt(h2, t2, P) == fAt(h1, t1, P), addI(h2, t2, fAt(h1, t1, P), r)
{
    let R = tR(h1, t1); let o = fAt(h1, t1, P); let K = z_seq_mem(h1, key);
    assert(alS(h1, h2)); lem_alS(h1, h2, t1, t2, noix(), noix()); assert(pathOK(h2.mem, t2.rootAddr, P, t2.height)); lem_isOv_sp(h1, R);
    assert forall|a: int| #[trigger] isOv(R, a) implies h2.sp.contains(a) && h2.mem[-1 - a] == h1.mem[-1 - a] by { assert(h1.sp.contains(a)); assert(!ovIn(Rec { k: Seq::empty(), v: Seq::empty() }, a)); }
    lem_keep(h1, h2, R);
    let S = raws(h2.mem, R); assert(S == raws(h1.mem, R));
    if R.len() == 0 { } else {
        assert(fHit(h1, R, o, false, key));
        assert forall|j: int| 0 <= j < o implies lexcmp((#[trigger] S[j]).0, K) < 0 by { assert(lexcmp(rwK(h1.mem, R, j), K) < 0); }
        assert forall|j: int| o <= j < S.len() implies lexcmp((#[trigger] S[j]).0, K) > 0 by { assert(lexcmp(rwK(h1.mem, R, j), K) > 0); }
    }
    assert(inAt(S, o, K));
}
pub proof fn lem_add2(h2: Heap, h3: Heap, t2: T_BPTree, t3: T_BPTree, o: int, r: Rec)
    requires z_heap_ok(h2), z_heap_ok(h3), addI(h2, t2, o, r), tOkS(h3, t3), tR(h3, t3) == tR(h2, t2).insert(o, r), lfF(h2, h3), t3.recordCount == tR(h2, t2).len() + 1, t3.payloadSize == psz(tC(h2, t2)) + raw1(h2.mem, r).0.len() + raw1(h2.mem, r).1.len()
    ensures tP(h3, t3), tC(h3, t3) == tC(h2, t2).insert(o, raw1(h2.mem, r)), forall|a: int| #[trigger] isOv(tR(h3, t3), a) <==> isOv(tR(h2, t2), a) || ovIn(r, a)
{
    let R0 = tR(h2, t2); let R = tR(h3, t3); lem_ins_C(h2, R0, o, r); lem_isOv_sp(h2, R); lem_keep(h2, h3, R);
}
pub proof fn lem_add_sp(h1: Heap, h2: Heap, h3: Heap, R0: Seq<Rec>, R: Seq<Rec>, r: Rec)
    requires kvOK(h1, R0), newOv(h1, h2, r), lfF(h2, h3), forall|a: int| #[trigger] isOv(R, a) <==> isOv(R0, a) || ovIn(r, a)
    ensures spD(h1, h3, R0, R), goF(h1, h3)
{
    lem_isOv_sp(h1, R0);
    assert forall|a: int| #[trigger] h3.sp.contains(a) <==> (h1.sp.contains(a) && !isOv(R0, a)) || isOv(R, a) by { assert(h2.sp.contains(a) == h3.sp.contains(a)); assert(isOv(R, a) == (isOv(R0, a) || ovIn(r, a))); if isOv(R0, a) { assert(h1.sp.contains(a)); } }
    assert forall|a: int| #[trigger] h1.sp.contains(a) && !isOv(R0, a) implies h3.mem[-1 - a] == h1.mem[-1 - a] by { assert(!ovIn(Rec { k: Seq::empty(), v: Seq::empty() }, a)); assert(h2.sp.contains(a)); }
}
pub proof fn lem_sp_same(h0: Heap, h1: Heap, h: Heap, t0: T_BPTree, t: T_BPTree)
    requires hEq(h0, h1), spD(h1, h, tR(h1, t0), tR(h, t)), goF(h1, h), tR(h1, t0) == tR(h0, t0)
    ensures spD(h0, h, tR(h0, t0), tR(h, t)), goF(h0, h)
{ }
pub open spec fn updI(h1: Heap, h: Heap, t1: T_BPTree, t: T_BPTree, o: int, W: Seq<u8>) -> bool {
    let R0 = tR(h1, t1);
    &&& 0 <= o < R0.len() && tOkS(h, t) && tR(h, t) == R0.update(o, Rec { k: R0[o].k, v: W }) && valOK(h, W) && repOv(h1, h, R0[o], W)
    &&& t.recordCount == t1.recordCount && t.payloadSize == t1.payloadSize + rawV(h.mem, W).len() - rawV(h1.mem, R0[o].v).len()
}
pub proof fn lem_updR(h1: Heap, h: Heap, t1: T_BPTree, t: T_BPTree, o: int, W: Seq<u8>)
    requires z_heap_ok(h1), z_heap_ok(h), tP(h1, t1), updI(h1, h, t1, t, o, W)
    ensures tP(h, t), tC(h, t) == tC(h1, t1).update(o, (tC(h1, t1)[o].0, rawV(h.mem, W))), spD(h1, h, tR(h1, t1), tR(h, t)), goF(h1, h)
{
    let R0 = tR(h1, t1); let R1 = R0.remove(o); let R = tR(h, t); let r0 = R0[o]; let r = Rec { k: r0.k, v: W }; let x = Rec { k: Seq::empty(), v: r0.v }; let y = Rec { k: Seq::empty(), v: W };
    assert(keyOK(h1, r0.k) && valOK(h1, r0.v) && ovD1(r0));
    lem_rm_C(h1, R0, o); lem_isOv_sp(h1, R0);
    assert forall|a: int| ovIn(x, a) implies ovIn(r0, a) by { }
    assert forall|a: int| #[trigger] isOv(R1, a) implies h.sp.contains(a) && h.mem[-1 - a] == h1.mem[-1 - a] by { assert(isOv(R0, a)); assert(h1.sp.contains(a) && !ovIn(x, a)); }
    lem_keep(h1, h, R1);
    if islong(r0.k, kP()) { let a = ovaddr(r0.k, kP()); assert(h1.sp.contains(a)); assert(a > 0); assert(!ovIn(x, a)); assert(h.mem[-1 - a] == h1.mem[-1 - a]); assert(h.sp.contains(a)); assert(!ovIn(y, a)); }
    assert(keyOK(h, r.k) && rawK(h.mem, r.k) == rawK(h1.mem, r.k));
    assert forall|a: int| #[trigger] ovIn(r, a) implies !isOv(R1, a) by { if isOv(R1, a) { assert(isOv(R0, a) && !ovIn(r0, a)); assert(h1.sp.contains(a) && !ovIn(x, a)); if ovIn(y, a) { } else { assert(ova(r, 0) == a); assert(ovIn(r0, a)); } } }
    if ova(r, 0) > 0 && ova(r, 1) == ova(r, 0) { assert(ovIn(y, ova(r, 0))); }
    lem_ins_C(h, R1, o, r); assert(R1.insert(o, r) =~= R0.update(o, r));
    let S0 = tC(h1, t1); assert(S0.remove(o).insert(o, raw1(h.mem, r)) =~= S0.update(o, raw1(h.mem, r)));
    assert(S0[o] == raw1(h1.mem, r0));
    assert forall|a: int| #[trigger] h.sp.contains(a) <==> (h1.sp.contains(a) && !isOv(R0, a)) || isOv(R, a) by {
        assert(isOv(R, a) == (isOv(R1, a) || ovIn(r, a))); assert(isOv(R1, a) == (isOv(R0, a) && !ovIn(r0, a))); assert(h.sp.contains(a) == ((h1.sp.contains(a) && !ovIn(x, a)) || ovIn(y, a)));
        if isOv(R0, a) { assert(h1.sp.contains(a)); } if ovIn(r0, a) { assert(isOv(R0, a)); }
    }
    assert forall|a: int| #[trigger] h1.sp.contains(a) && !isOv(R0, a) implies h.mem[-1 - a] == h1.mem[-1 - a] by { if ovIn(x, a) { assert(ovIn(R0[o], a)); } }
}
// the record to be destroyed
pub proof fn lem_del1(h1: Heap, h2: Heap, t1: T_BPTree, P: Seq<T_recordPathComponent>)
    requires z_heap_ok(h1), tP(h1, t1), pathOK(h1.mem, t1.rootAddr, P, t1.height), 0 <= pIx(P, t1) < ln(bp(h1.mem, P[t1.height - 1].NodeAddr)), 0 <= fAt(h1, t1, P) < tR(h1, t1).len(), tR(h1, t1)[fAt(h1, t1, P)] == lrecs(bp(h1.mem, P[t1.height - 1].NodeAddr))[pIx(P, t1)], lfF(h1, h2)
    ensures rec1OK(h2, tR(h1, t1)[fAt(h1, t1, P)]), raw1(h2.mem, tR(h1, t1)[fAt(h1, t1, P)]) == tC(h1, t1)[fAt(h1, t1, P)]
{
    let o = fAt(h1, t1, P); let R = tR(h1, t1); lem_rv_at(h1, t1, P, pIx(P, t1)); let r = R[o]; assert(keyOK(h1, r.k) && valOK(h1, r.v) && ovD1(r)); lem_isOv_sp(h1, R);
    assert forall|a: int| #[trigger] ovIn(r, a) implies h2.sp.contains(a) && h2.mem[-1 - a] == h1.mem[-1 - a] by { assert(isOv(R, a)); assert(h1.sp.contains(a)); }
    lem_keep1(h1, h2, r);
}
pub proof fn lem_del2(h1: Heap, h2: Heap, h: Heap, t1: T_BPTree, t2: T_BPTree, t: T_BPTree, o: int)
    requires z_heap_ok(h1), z_heap_ok(h2), z_heap_ok(h), tP(h1, t1), 0 <= o < tR(h1, t1).len(), lfF(h1, h2), tOkS(h2, t2), tR(h2, t2) == tR(h1, t1).remove(o), delOv(h2, h, tR(h1, t1)[o]), tS(t2, t),
        t.recordCount == t1.recordCount - 1, t.payloadSize == t1.payloadSize - tC(h1, t1)[o].0.len() - tC(h1, t1)[o].1.len()
    ensures tP(h, t), tC(h, t) == tC(h1, t1).remove(o), spD(h1, h, tR(h1, t1), tR(h, t)), goF(h1, h)
{
    let R0 = tR(h1, t1); let r = R0[o]; let R = R0.remove(o); lem_rm_C(h1, R0, o); lem_isOv_sp(h1, R0); assert(alS(h2, h)); lem_alS(h2, h, t2, t, noix(), noix());
    assert forall|a: int| #[trigger] isOv(R, a) implies h.sp.contains(a) && h.mem[-1 - a] == h1.mem[-1 - a] by { assert(isOv(R0, a) && !ovIn(r, a)); assert(h1.sp.contains(a)); assert(h2.sp.contains(a)); }
    lem_keep(h1, h, R);
    assert forall|a: int| #[trigger] h.sp.contains(a) <==> (h1.sp.contains(a) && !isOv(R0, a)) || isOv(R, a) by {
        assert(isOv(R, a) == (isOv(R0, a) && !ovIn(r, a))); assert(h.sp.contains(a) == (h2.sp.contains(a) && !ovIn(r, a))); if isOv(R0, a) { assert(h1.sp.contains(a)); } if ovIn(r, a) { assert(isOv(R0, a)); }
    }
    assert forall|a: int| #[trigger] h1.sp.contains(a) && !isOv(R0, a) implies h.mem[-1 - a] == h1.mem[-1 - a] by { if ovIn(r, a) { assert(isOv(R0, a)); } assert(h2.sp.contains(a)); }
}
