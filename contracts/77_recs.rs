// ---- what the records stand for -----------------------------------------------------------------
pub open spec fn ova(r: Rec, w: int) -> int { if w == 0 { if islong(r.k, kP()) { ovaddr(r.k, kP()) } else { 0 } } else { if islong(r.v, vP()) { ovaddr(r.v, vP()) } else { 0 } } }
// the file spaces of a record
pub open spec fn ovIn(r: Rec, a: int) -> bool { a > 0 && (ova(r, 0) == a || ova(r, 1) == a) }
pub open spec fn isOv(R: Seq<Rec>, a: int) -> bool { exists|j: int| 0 <= j < R.len() && #[trigger] ovIn(R[j], a) }
pub open spec fn ovD1(r: Rec) -> bool { ova(r, 0) > 0 ==> ova(r, 0) != ova(r, 1) }
pub open spec fn ovD(R: Seq<Rec>) -> bool {
    &&& forall|j: int| 0 <= j < R.len() ==> ovD1(#[trigger] R[j])
    &&& forall|i: int, j: int, a: int| 0 <= i < j < R.len() && #[trigger] ovIn(R[i], a) ==> !#[trigger] ovIn(R[j], a)
}
pub open spec fn rec1OK(h: Heap, r: Rec) -> bool { keyOK(h, r.k) && valOK(h, r.v) && ovD1(r) && recOK(r) }
pub open spec fn raw1(m: Mem, r: Rec) -> (Seq<u8>, Seq<u8>) { (rawK(m, r.k), rawV(m, r.v)) }
// the content: keys and values in ascending order of the keys
pub open spec fn raws(m: Mem, R: Seq<Rec>) -> Seq<(Seq<u8>, Seq<u8>)> { Seq::new(R.len(), |j: int| raw1(m, R[j])) }
pub open spec fn psz(S: Seq<(Seq<u8>, Seq<u8>)>) -> int decreases S.len() { if S.len() == 0 { 0 } else { psz(S.drop_last()) + S.last().0.len() + S.last().1.len() } }
// new file spaces, nothing else
pub open spec fn newOv(h0: Heap, h: Heap, r: Rec) -> bool {
    &&& forall|a: int| #[trigger] h.sp.contains(a) <==> h0.sp.contains(a) || ovIn(r, a)
    &&& forall|a: int| #[trigger] ovIn(r, a) ==> !h0.sp.contains(a) && !h0.al.contains(a)
    &&& keepOv(h0, h, Rec { k: Seq::empty(), v: Seq::empty() })
}
// the file spaces of r are given back, nothing else
pub open spec fn delOv(h0: Heap, h: Heap, r: Rec) -> bool {
    &&& forall|a: int| #[trigger] h.sp.contains(a) <==> h0.sp.contains(a) && !ovIn(r, a)
    &&& keepOv(h0, h, r)
}
pub open spec fn keepOv(h0: Heap, h: Heap, r: Rec) -> bool {
    &&& h.al == h0.al && h0.nxt <= h.nxt && h0.ep <= h.ep
    &&& forall|b: int| 0 <= b < h0.nxt ==> #[trigger] h.mem[b] == h0.mem[b]
    &&& forall|a: int| #[trigger] h0.al.contains(a) ==> h.mem[-1 - a] == h0.mem[-1 - a]
    &&& forall|a: int| #[trigger] h0.sp.contains(a) && !ovIn(r, a) ==> h.mem[-1 - a] == h0.mem[-1 - a]
}
// the value of a record is replaced
pub open spec fn repOv(h0: Heap, h: Heap, r0: Rec, v: Seq<u8>) -> bool {
    let x = Rec { k: Seq::empty(), v: r0.v }; let y = Rec { k: Seq::empty(), v: v };
    &&& forall|a: int| #[trigger] h.sp.contains(a) <==> (h0.sp.contains(a) && !ovIn(x, a)) || ovIn(y, a)
    &&& forall|a: int| #[trigger] ovIn(y, a) ==> !(h0.sp.contains(a) && !ovIn(x, a)) && !h0.al.contains(a)
    &&& h0.nxt <= h.nxt
    &&& forall|b: int| 0 <= b < h0.nxt ==> #[trigger] h.mem[b] == h0.mem[b]
    &&& forall|a: int| #[trigger] h0.sp.contains(a) && !ovIn(x, a) ==> h.mem[-1 - a] == h0.mem[-1 - a]
}
pub proof fn lem_rep_lfF(h0: Heap, h1: Heap, h: Heap, r0: Rec, v: Seq<u8>)
    requires repOv(h0, h1, r0, v), lfF(h1, h), valOK(h1, v)
    ensures repOv(h0, h, r0, v), valOK(h, v), rawV(h.mem, v) == rawV(h1.mem, v)
{
    let x = Rec { k: Seq::empty(), v: r0.v };
    assert forall|a: int| #[trigger] h0.sp.contains(a) && !ovIn(x, a) implies h.mem[-1 - a] == h0.mem[-1 - a] by { assert(h1.sp.contains(a)); }
}
pub proof fn lem_rload_up(x: Seq<Rec>, i: int, v: Seq<u8>)
    requires 0 <= i < x.len()
    ensures rload(x.update(i, Rec { k: x[i].k, v: v })) == rload(x) + v.len() - x[i].v.len()
{
    let n = x.len() as int; let r = Rec { k: x[i].k, v: v }; let y = x.subrange(0, i) + x.subrange(i + 1, n); lem_rload_rm(x, i);
    lem_rload_ins(y, i, r); assert(y.subrange(0, i) + seq![r] + y.subrange(i, y.len() as int) =~= x.update(i, r));
}
pub proof fn lem_seq_up(R: Seq<Rec>, u: int, o: Seq<Rec>, i: int, r: Rec)
    requires 0 <= u, u + o.len() <= R.len(), R.subrange(u, u + o.len()) == o, 0 <= i < o.len()
    ensures R.subrange(0, u) + o.update(i, r) + R.subrange(u + o.len(), R.len() as int) == R.update(u + i, r), R[u + i] == o[i]
{
    let n = o.len() as int; assert forall|j: int| u <= j < u + n implies #[trigger] R[j] == o[j - u] by { assert(R.subrange(u, u + n)[j - u] == R[j]); }
    assert(R.subrange(0, u) + o.update(i, r) + R.subrange(u + n, R.len() as int) =~= R.update(u + i, r));
}
pub proof fn lem_setv(h0: Heap, h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, v: Seq<u8>)
    requires z_heap_ok(h0), tOkS(h0, t), pathOK(h0.mem, t.rootAddr, P, t.height), 0 <= pIx(P, t) < ln(bp(h0.mem, P[t.height - 1].NodeAddr)), v.len() <= 129,
        ({ let a = P[t.height - 1].NodeAddr; let q0 = bp(h0.mem, a); let q = bp(h.mem, a); let o = lrecs(q0); let i = pIx(P, t); mem_kept1(h0, h, -1 - a) && h.al == h0.al && h.sp == h0.sp && h.nxt >= h0.nxt && q.len() == 8192 && lok(q) && lnk(q, q0) && lrecs(q) == o.update(i, Rec { k: o[i].k, v: v }) })
    ensures ixT(h, t, noix(), noix()), lfT(h, t, P[t.height - 1].NodeAddr, noix()), pathOK(h.mem, t.rootAddr, P, t.height), lfF(h0, h), 0 <= fAt(h0, t, P) < tR(h0, t).len(), tR(h, t) == tR(h0, t).update(fAt(h0, t, P), Rec { k: tR(h0, t)[fAt(h0, t, P)].k, v: v }),
        lrecs(bp(h0.mem, P[t.height - 1].NodeAddr))[pIx(P, t)] == tR(h0, t)[fAt(h0, t, P)]
{
    let a = P[t.height - 1].NodeAddr; let q0 = bp(h0.mem, a); let q = bp(h.mem, a); let o = lrecs(q0); let i = pIx(P, t); let n = o.len() as int; let c = lrecs(q); let r = Rec { k: o[i].k, v: v };
    lem_lonpath(h0, t, P, noix(), noix(), noix(), noix());
    assert forall|j: int| 0 <= j < c.len() implies recOK(#[trigger] c[j]) by { assert(recOK(o[j])); }
    lem_lset(h0, h, t, P, noix());
    let R = tR(h0, t); let u = roff(h0.mem, tE(h0, t), pLf(h0, t, P));
    lem_seq_up(R, u, o, i, r);
}
// what replaceValue needs at the leaf
pub proof fn lem_rv_at(h: Heap, t: T_BPTree, P: Seq<T_recordPathComponent>, i: int)
    requires z_heap_ok(h), tOkS(h, t), pathOK(h.mem, t.rootAddr, P, t.height), 0 <= i < ln(bp(h.mem, P[t.height - 1].NodeAddr))
    ensures ({ let q = bp(h.mem, P[t.height - 1].NodeAddr); let n = ln(q); recOK(lrecs(q)[i]) && 20 + 8 * n + 129 <= lke(q, n, 0) })
{ lem_lonpath(h, t, P, noix(), noix(), noix(), noix()); lem_leaf_K(); }
