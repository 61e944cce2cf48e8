// ---- one slot changes: what becomes of the table ----------------------------------------
pub proof fn lem_tot_upd(x: Seq<Itm>, i: int, e: Itm, j: int)
    requires 0 <= i < x.len(), 0 <= j <= x.len()
    ensures tot(x.update(i, e), j) == tot(x, j) + (if j > i { isz(e) - isz(x[i]) } else { 0 })
    decreases j
{ if j > 0 { lem_tot_upd(x, i, e, j - 1); } }
pub proof fn lem_tot_rem(x: Seq<Itm>, i: int, j: int)
    requires 0 <= i < x.len(), i <= j < x.len()
    ensures tot(x.remove(i), j) == tot(x, j + 1) - isz(x[i])
    decreases j
{ if j > i { lem_tot_rem(x, i, j - 1); assert(x.remove(i)[j - 1] == x[j]); } else { lem_tot_ext(x, x.remove(i), i); } }
pub proof fn lem_slot_new(X: Seq<Seq<Itm>>, sh: int, y: Seq<Itm>, k: Seq<u8>, r: Option<Seq<u8>>)
    requires sh >= 0, p2(sh) <= X.len() < p2(sh + 1), conOK(X, sh), ({ let s = sidx(fnv64a(k), X.len() as int, sh);
        distinct(y) && slotIn(y, s, X.len() as int, sh) && slk(y, k) == r && forall|q: Seq<u8>| q != k ==> #[trigger] slk(y, q) == slk(X[s], q) })
    ensures ({ let n = X.len() as int; let s = sidx(fnv64a(k), n, sh); let Y = X.update(s, y);
        &&& 0 <= s < n && conOK(Y, sh) && Y.len() == n
        &&& nitems(Y, n) == nitems(X, n) - X[s].len() + y.len() && npay(Y, n) == npay(X, n) - tota(X[s]) + tota(y)
        &&& forall|q: Seq<u8>| #[trigger] mget(Y, sh, q) == (if q == k { r } else { mget(X, sh, q) }) })
{
    let n = X.len() as int; let s = sidx(fnv64a(k), n, sh); let Y = X.update(s, y);
    lem_fnv(k); lem_sidx(fnv64a(k), n, sh); lem_sums_upd(X, s, y, n);
    assert forall|t: int| 0 <= t < Y.len() implies distinct(#[trigger] Y[t]) && slotIn(Y[t], t, n, sh) by { if t != s { assert(distinct(X[t]) && slotIn(X[t], t, n, sh)); } }
    assert forall|q: Seq<u8>| #[trigger] mget(Y, sh, q) == (if q == k { r } else { mget(X, sh, q) }) by { lem_fnv(q); lem_sidx(fnv64a(q), n, sh); if sidx(fnv64a(q), n, sh) == s && q != k { assert(slk(y, q) == slk(X[s], q)); } }
}
pub open spec fn mkItm(k: Seq<u8>, v: Seq<u8>) -> Itm { Itm { s: if k.len() <= K_maxShortKeySize() { 0 } else { fnv64a(k) }, k: k, v: v } }
pub proof fn lem_put(X: Seq<Seq<Itm>>, sh: int, k: Seq<u8>, v: Seq<u8>)
    requires sh >= 0, p2(sh) <= X.len() < p2(sh + 1), conOK(X, sh), !hasKey(X[sidx(fnv64a(k), X.len() as int, sh)], k)
    ensures ({ let n = X.len() as int; let s = sidx(fnv64a(k), n, sh); let Y = X.update(s, X[s].push(mkItm(k, v)));
        &&& 0 <= s < n && conOK(Y, sh) && nitems(Y, n) == nitems(X, n) + 1 && npay(Y, n) == npay(X, n) + k.len() + v.len() && mget(X, sh, k) is None
        &&& forall|q: Seq<u8>| #[trigger] mget(Y, sh, q) == (if q == k { Some(v) } else { mget(X, sh, q) }) })
{
    let n = X.len() as int; let s = sidx(fnv64a(k), n, sh); lem_fnv(k); lem_sidx(fnv64a(k), n, sh);
    let x = X[s]; let e = mkItm(k, v); let y = x.push(e);
    assert(distinct(x) && slotIn(x, s, n, sh));
    assert forall|i: int, j: int| 0 <= i < j < y.len() implies (#[trigger] y[i]).k != (#[trigger] y[j]).k by { assert(y[i] == x[i]); if j < x.len() { assert(x[i].k != x[j].k); } else { assert(x[i].k != k); } }
    assert forall|i: int| 0 <= i < y.len() implies itOK(#[trigger] y[i]) && sidx(fnv64a(y[i].k), n, sh) == s by { if i < x.len() { assert(itOK(x[i])); } }
    lem_slk_at(y, y.len() - 1); assert(y[y.len() - 1] == e);
    assert forall|q: Seq<u8>| q != k implies #[trigger] slk(y, q) == slk(x, q) by {
        if hasKey(x, q) { let i = choose|i: int| 0 <= i < x.len() && (#[trigger] x[i]).k == q; lem_slk_at(x, i); lem_slk_at(y, i); assert(y[i] == x[i]); }
        else if hasKey(y, q) { let i = choose|i: int| 0 <= i < y.len() && (#[trigger] y[i]).k == q; assert(x[i].k == q); }
    }
    lem_tota_push(x, e);
    lem_slot_new(X, sh, y, k, Some(v));
}
pub proof fn lem_upd(X: Seq<Seq<Itm>>, sh: int, i: int, v: Seq<u8>, k: Seq<u8>)
    requires sh >= 0, p2(sh) <= X.len() < p2(sh + 1), conOK(X, sh), ({ let x = X[sidx(fnv64a(k), X.len() as int, sh)]; 0 <= i < x.len() && x[i].k == k })
    ensures ({ let n = X.len() as int; let s = sidx(fnv64a(k), n, sh); let e = X[s][i]; let Y = X.update(s, X[s].update(i, Itm { v: v, ..e }));
        &&& 0 <= s < n && conOK(Y, sh) && nitems(Y, n) == nitems(X, n) && npay(Y, n) == npay(X, n) + v.len() - e.v.len() && mget(X, sh, k) == Some(e.v)
        &&& forall|q: Seq<u8>| #[trigger] mget(Y, sh, q) == (if q == k { Some(v) } else { mget(X, sh, q) }) })
{
    let n = X.len() as int; let s = sidx(fnv64a(k), n, sh); lem_fnv(k); lem_sidx(fnv64a(k), n, sh);
    let x = X[s]; let e = x[i]; let f = Itm { v: v, ..e }; let y = x.update(i, f);
    assert(distinct(x) && slotIn(x, s, n, sh)); lem_slk_at(x, i);
    assert forall|a: int, b: int| 0 <= a < b < y.len() implies (#[trigger] y[a]).k != (#[trigger] y[b]).k by { assert(y[a].k == x[a].k && y[b].k == x[b].k); }
    assert forall|a: int| 0 <= a < y.len() implies itOK(#[trigger] y[a]) && sidx(fnv64a(y[a].k), n, sh) == s by { assert(itOK(x[a])); }
    lem_slk_at(y, i); assert(y[i] == f);
    assert forall|q: Seq<u8>| q != k implies #[trigger] slk(y, q) == slk(x, q) by {
        if hasKey(x, q) { let a = choose|a: int| 0 <= a < x.len() && (#[trigger] x[a]).k == q; lem_slk_at(x, a); assert(y[a] == x[a]); lem_slk_at(y, a); }
        else if hasKey(y, q) { let a = choose|a: int| 0 <= a < y.len() && (#[trigger] y[a]).k == q; assert(x[a].k == q); }
    }
    lem_tot_upd(x, i, f, x.len() as int);
    lem_slot_new(X, sh, y, k, Some(v));
}
pub proof fn lem_del(X: Seq<Seq<Itm>>, sh: int, i: int, k: Seq<u8>)
    requires sh >= 0, p2(sh) <= X.len() < p2(sh + 1), conOK(X, sh), ({ let x = X[sidx(fnv64a(k), X.len() as int, sh)]; 0 <= i < x.len() && x[i].k == k })
    ensures ({ let n = X.len() as int; let s = sidx(fnv64a(k), n, sh); let e = X[s][i]; let Y = X.update(s, X[s].remove(i));
        &&& 0 <= s < n && conOK(Y, sh) && nitems(Y, n) == nitems(X, n) - 1 && npay(Y, n) == npay(X, n) - k.len() - e.v.len() && mget(X, sh, k) == Some(e.v)
        &&& forall|q: Seq<u8>| #[trigger] mget(Y, sh, q) == (if q == k { None } else { mget(X, sh, q) }) })
{
    let n = X.len() as int; let s = sidx(fnv64a(k), n, sh); lem_fnv(k); lem_sidx(fnv64a(k), n, sh);
    let x = X[s]; let e = x[i]; let y = x.remove(i);
    assert(distinct(x) && slotIn(x, s, n, sh)); lem_slk_at(x, i);
    assert forall|a: int| 0 <= a < y.len() implies #[trigger] y[a] == (if a < i { x[a] } else { x[a + 1] }) by { }
    assert forall|a: int, b: int| 0 <= a < b < y.len() implies (#[trigger] y[a]).k != (#[trigger] y[b]).k by { let c = if a < i { a } else { a + 1 }; let d = if b < i { b } else { b + 1 }; assert(x[c].k != x[d].k); }
    assert forall|a: int| 0 <= a < y.len() implies itOK(#[trigger] y[a]) && sidx(fnv64a(y[a].k), n, sh) == s by { let c = if a < i { a } else { a + 1 }; assert(itOK(x[c])); }
    assert(!hasKey(y, k)) by { if hasKey(y, k) { let a = choose|a: int| 0 <= a < y.len() && (#[trigger] y[a]).k == k; let c = if a < i { a } else { a + 1 }; assert(y[a] == x[c]); if c < i { assert(x[c].k != x[i].k); } else { assert(x[i].k != x[c].k); } } }
    assert forall|q: Seq<u8>| q != k implies #[trigger] slk(y, q) == slk(x, q) by {
        if hasKey(x, q) { let a = choose|a: int| 0 <= a < x.len() && (#[trigger] x[a]).k == q; lem_slk_at(x, a); let c = if a < i { a } else { a - 1 }; assert(y[c] == x[a]); lem_slk_at(y, c); }
        else if hasKey(y, q) { let a = choose|a: int| 0 <= a < y.len() && (#[trigger] y[a]).k == q; let c = if a < i { a } else { a + 1 }; assert(x[c].k == q); }
    }
    lem_tot_rem(x, i, x.len() - 1);
    lem_slot_new(X, sh, y, k, None);
}
// t holds the items of the slot of key k
pub open spec fn locd(h: Heap, hm: T_HashMap, t: T_items, k: Seq<u8>) -> bool {
    let s = sidx(fnv64a(k), hm.slotCount, hm.minSlotCountShift);
    &&& isref(h, hm, t.SlotAddrRef, s) && t.SlotAddr == sA(h, hm, s) && itms(h, t.Value) == hslots(h, hm)[s]
    &&& its_ok(h, t.Value) && t.Value.ep == 0
}
pub open spec fn atK(x: Seq<Itm>, i: int, k: Seq<u8>) -> bool { 0 <= i < x.len() && x[i].k == k }
// only the counters differ
pub open spec fn sameLay(hm: T_HashMap, hm1: T_HashMap) -> bool {
    hm1.slotDirsAddr == hm.slotDirsAddr && hm1.maxSlotDirCountShift == hm.maxSlotDirCountShift && hm1.slotDirCount == hm.slotDirCount && hm1.minSlotCountShift == hm.minSlotCountShift && hm1.slotCount == hm.slotCount
}
pub proof fn lem_same_lay(h: Heap, hm: T_HashMap, hm1: T_HashMap)
    requires sameLay(hm, hm1), lay(h, hm, -1)
    ensures lay(h, hm1, -1), hslots(h, hm1) == hslots(h, hm), spare(hm1) == spare(hm),
        forall|a: int| #[trigger] own(h, hm1, -1, a) == own(h, hm, -1, a),
        forall|s: int| #[trigger] sA(h, hm1, s) == sA(h, hm, s), forall|d: int| #[trigger] dA(h, hm1, d) == dA(h, hm, d),
{
    assert forall|s: int| #[trigger] sA(h, hm1, s) == sA(h, hm, s) by { }
    assert forall|d: int| #[trigger] dA(h, hm1, d) == dA(h, hm, d) by { }
    assert(layD(h, hm1)) by {
        assert forall|d: int| 0 <= d < hm1.slotDirCount implies h.sp.contains(#[trigger] dA(h, hm1, d)) && h.mem[-1 - dA(h, hm1, d)].len() >= 32768 && dA(h, hm1, d) != hm1.slotDirsAddr by { assert(h.sp.contains(dA(h, hm, d))); }
        assert forall|d: int, e: int| 0 <= d < e < hm1.slotDirCount implies #[trigger] dA(h, hm1, d) != #[trigger] dA(h, hm1, e) by { assert(dA(h, hm, d) != dA(h, hm, e)); }
    }
    assert forall|a: int| #[trigger] ownD(h, hm1, a) == ownD(h, hm, a) by {
        if a != hm.slotDirsAddr && ownD(h, hm1, a) { let d = choose|d: int| 0 <= d < hm.slotDirCount && a == #[trigger] dA(h, hm1, d); assert(a == dA(h, hm, d)); }
        if a != hm.slotDirsAddr && ownD(h, hm, a) { let d = choose|d: int| 0 <= d < hm.slotDirCount && a == #[trigger] dA(h, hm, d); assert(a == dA(h, hm1, d)); }
    }
    assert forall|a: int| #[trigger] ownS(h, hm1, -1, a) == ownS(h, hm, -1, a) by {
        if ownS(h, hm1, -1, a) { let s = choose|s: int| 0 <= s < hm.slotCount && s != -1 && a == #[trigger] sA(h, hm1, s); assert(a == sA(h, hm, s)); }
        if ownS(h, hm, -1, a) { let s = choose|s: int| 0 <= s < hm.slotCount && s != -1 && a == #[trigger] sA(h, hm, s); assert(a == sA(h, hm1, s)); }
    }
    assert(layS(h, hm1, -1)) by {
        assert forall|s: int| 0 <= s < hm1.slotCount && s != -1 implies slotOK(h, #[trigger] sA(h, hm1, s)) && (sA(h, hm1, s) >= 0 ==> !ownD(h, hm1, sA(h, hm1, s))) by { assert(slotOK(h, sA(h, hm, s))); }
        assert forall|s: int, t: int| 0 <= s < t < hm1.slotCount && s != -1 && t != -1 && #[trigger] sA(h, hm1, s) >= 0 implies sA(h, hm1, s) != #[trigger] sA(h, hm1, t) by { assert(sA(h, hm, s) != sA(h, hm, t)); }
    }
    assert(hslots(h, hm1) =~= hslots(h, hm));
}
pub proof fn lem_isref_sA(h0: Heap, h: Heap, hm: T_HashMap, r: T_addrRef, s: int)
    requires isref(h0, hm, r, s) || isref(h, hm, r, s), geom(hm), forall|d: int| 0 <= d < hm.slotDirCount ==> #[trigger] dA(h, hm, d) == dA(h0, hm, d)
    ensures isref(h, hm, r, s)
{ lem_slot_dir(hm, s); assert(dA(h, hm, s / 4096) == dA(h0, hm, s / 4096)); }
// nothing of the file changes
pub proof fn lem_ro(h0: Heap, h: Heap, hm: T_HashMap)
    requires hmP(h0, hm), z_heap_ok(h0), mem_kept(h0, h), h.sp == h0.sp, h.al == h0.al
    ensures hmP(h, hm), outf(h0, ho(h0, hm), h, ho(h, hm)), hslots(h, hm) == hslots(h0, hm), forall|k: Seq<u8>| #[trigger] hget(h, hm, k) == hget(h0, hm, k)
{
    assert forall|a: int| #[trigger] own(h0, hm, -1, a) implies keeps(h0, h, a) by { lem_own_sp(h0, hm, -1, a); }
    lem_lay_keep(h0, h, hm, -1);
    assert forall|x: int| #[trigger] ho(h, hm)(x) == ho(h0, hm)(x) by { assert(own(h, hm, -1, x) == own(h0, hm, -1, x)); }
}
