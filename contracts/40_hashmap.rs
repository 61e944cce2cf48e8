// ---- slots of the hash map -----------------------------------------------------
pub struct Itm { pub s: int, pub k: Seq<u8>, pub v: Seq<u8> }

// trusted contract of the generated protobuf code: a slot is decoded to what was encoded
pub uninterp spec fn enc_slot(i: Seq<T_HashItemInfo>, b: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn dec_slot_ok(s: Seq<u8>) -> bool;
pub uninterp spec fn dec_slot_i(s: Seq<u8>) -> Seq<T_HashItemInfo>;
pub uninterp spec fn dec_slot_b(s: Seq<u8>) -> Seq<u8>;
pub open spec fn info_in_range(x: T_HashItemInfo) -> bool {
    0 <= x.KeySum < 0x1_0000_0000_0000_0000 && z_i64ok(x.KeySize) && z_i64ok(x.ValueSize)
}
pub axiom fn ax_slot_codec(i: Seq<T_HashItemInfo>, b: Seq<u8>)
    requires i.len() < 0x1_0000_0000_0000, b.len() < 0x1_0000_0000_0000, forall|j: int| 0 <= j < i.len() ==> info_in_range(#[trigger] i[j])
    ensures ({ let e = enc_slot(i, b); dec_slot_ok(e) && dec_slot_i(e) == i && dec_slot_b(e) == b && e.len() < 0x100_0000_0000_0000 });
pub open spec fn z_slotinfos(h: Heap, s: T_HashSlot) -> Seq<T_HashItemInfo> { z_seq_c_HashItemInfo(h, s.ItemInfos) }
#[verifier::external_body]
pub proof fn pb_SlotUnmarshal(h0: Heap, recv: T_HashSlot, s: Sl) -> (r: (Heap, T_HashSlot, int))
    requires recv.ItemInfos.len == 0 && recv.Bin.len == 0 && z_valid(h0, s)
    ensures ({
        let h = r.0; let t = r.1; let d = z_seq_mem(h0, s);
        &&& h == Heap { c_HashItemInfo: h0.c_HashItemInfo.insert(h0.nxt, h.c_HashItemInfo[h0.nxt]), nxt: h0.nxt + 1, ..h0 }
        &&& (r.2 == 0) == dec_slot_ok(d)
        &&& (t.ItemInfos.blk == h0.nxt || t.ItemInfos == z_nil()) && t.ItemInfos.ep == 0
        &&& dec_slot_ok(d) ==> z_slotinfos(h, t) == dec_slot_i(d) && t.ItemInfos.len == dec_slot_i(d).len()
        &&& t.Bin == z_nil() || (t.Bin.blk == s.blk && t.Bin.ep == s.ep)
        &&& dec_slot_ok(d) ==> z_seq_mem(h, t.Bin) == dec_slot_b(d) && t.Bin.len == dec_slot_b(d).len()
    })
{ unimplemented!() }

// ---- packing -----------------------------------------------------------------
// offset of item j in the binary part
pub open spec fn kofs(i: Seq<T_HashItemInfo>, j: int) -> int decreases j {
    if j <= 0 { 0 } else { kofs(i, j - 1) + i[j - 1].KeySize + i[j - 1].ValueSize }
}
pub open spec fn infosOK(i: Seq<T_HashItemInfo>, blen: int) -> bool {
    &&& forall|j: int| 0 <= j < i.len() ==> (#[trigger] i[j]).KeySize >= 0 && i[j].ValueSize >= 0
    &&& kofs(i, i.len() as int) <= blen
    &&& i.len() == 0 ==> blen == 0
}
pub open spec fn uitem(i: Seq<T_HashItemInfo>, b: Seq<u8>, j: int) -> Itm {
    let n = i.len() as int; let o = kofs(i, j);
    Itm { s: i[j].KeySum, k: b.subrange(o, o + i[j].KeySize),
          v: if j == n - 1 { b.subrange(kofs(i, n), b.len() as int) } else { b.subrange(o + i[j].KeySize, kofs(i, j + 1)) } }
}
pub open spec fn uitems(i: Seq<T_HashItemInfo>, b: Seq<u8>) -> Seq<Itm> { Seq::new(i.len(), |j: int| uitem(i, b, j)) }
pub open spec fn pinfo(x: Seq<Itm>, j: int) -> T_HashItemInfo {
    T_HashItemInfo { KeySum: x[j].s, KeySize: x[j].k.len() as int, ValueSize: if j == x.len() - 1 { 0 } else { x[j].v.len() as int } }
}
pub open spec fn pinfos(x: Seq<Itm>) -> Seq<T_HashItemInfo> { Seq::new(x.len(), |j: int| pinfo(x, j)) }
pub open spec fn pbin(x: Seq<Itm>, j: int) -> Seq<u8> decreases j {
    if j <= 0 { Seq::empty() } else { pbin(x, j - 1) + x[j - 1].k + x[j - 1].v }
}
pub open spec fn tot(x: Seq<Itm>, j: int) -> int decreases j {
    if j <= 0 { 0 } else { tot(x, j - 1) + x[j - 1].k.len() as int + x[j - 1].v.len() as int }
}
pub proof fn lem_tot_mono(x: Seq<Itm>, i: int, j: int)
    requires 0 <= i <= j
    ensures 0 <= tot(x, i) <= tot(x, j)
    decreases j
{
    if j > i { lem_tot_mono(x, i, j - 1); } else if i > 0 { lem_tot_mono(x, i - 1, i - 1); }
}
pub proof fn lem_pbin_len(x: Seq<Itm>, j: int)
    requires 0 <= j
    ensures pbin(x, j).len() == tot(x, j)
    decreases j
{ if j > 0 { lem_pbin_len(x, j - 1); } }
pub proof fn lem_kofs_pack(x: Seq<Itm>, j: int)
    requires 0 <= j <= x.len()
    ensures kofs(pinfos(x), j) == tot(x, j) - (if j == x.len() && j > 0 { x[j - 1].v.len() as int } else { 0 })
    decreases j
{
    if j > 0 { lem_kofs_pack(x, j - 1); assert(pinfos(x)[j - 1] == pinfo(x, j - 1)); }
}
// item i sits at its place in every longer prefix
pub proof fn lem_pbin_at(x: Seq<Itm>, j: int, i: int)
    requires 0 <= i < j <= x.len()
    ensures ({ let o = tot(x, i); let b = pbin(x, j);
        &&& 0 <= o && tot(x, i + 1) == o + x[i].k.len() + x[i].v.len() && tot(x, i + 1) <= b.len()
        &&& b.subrange(o, o + x[i].k.len()) == x[i].k
        &&& b.subrange(o + x[i].k.len(), o + x[i].k.len() + x[i].v.len()) == x[i].v })
    decreases j
{
    let o = tot(x, i); let b = pbin(x, j); let k = x[i].k; let v = x[i].v;
    lem_pbin_len(x, j); lem_pbin_len(x, j - 1); lem_tot_mono(x, 0, i); lem_tot_mono(x, i + 1, j);
    if i < j - 1 {
        lem_pbin_at(x, j - 1, i); lem_tot_mono(x, i + 1, j - 1);
        let c = pbin(x, j - 1);
        assert(b.subrange(o, o + k.len()) =~= c.subrange(o, o + k.len()));
        assert(b.subrange(o + k.len(), o + k.len() + v.len()) =~= c.subrange(o + k.len(), o + k.len() + v.len()));
    } else {
        assert(b.subrange(o, o + k.len()) =~= k);
        assert(b.subrange(o + k.len(), o + k.len() + v.len()) =~= v);
    }
}
pub proof fn lem_unpack(x: Seq<Itm>)
    requires x.len() >= 1
    ensures infosOK(pinfos(x), pbin(x, x.len() as int).len() as int), uitems(pinfos(x), pbin(x, x.len() as int)) == x
{
    let n = x.len() as int; let i = pinfos(x); let b = pbin(x, n);
    lem_pbin_len(x, n); lem_kofs_pack(x, n);
    assert forall|j: int| 0 <= j < n implies (#[trigger] i[j]).KeySize >= 0 && i[j].ValueSize >= 0 by { assert(i[j] == pinfo(x, j)); }
    assert forall|j: int| 0 <= j < n implies #[trigger] uitems(i, b)[j] == x[j] by {
        assert(i[j] == pinfo(x, j)); lem_kofs_pack(x, j); lem_kofs_pack(x, j + 1); lem_pbin_at(x, n, j);
    }
    assert(uitems(i, b) =~= x);
}
pub proof fn lem_kofs_mono(i: Seq<T_HashItemInfo>, a: int, b: int)
    requires 0 <= a <= b <= i.len(), forall|j: int| 0 <= j < i.len() ==> (#[trigger] i[j]).KeySize >= 0 && i[j].ValueSize >= 0
    ensures 0 <= kofs(i, a) <= kofs(i, b)
    decreases b
{ if b > a { lem_kofs_mono(i, a, b - 1); assert(i[b - 1].KeySize >= 0); } else if a > 0 { lem_kofs_mono(i, a - 1, a - 1); assert(i[a - 1].KeySize >= 0); } }

// ---- items in Go memory ----------------------------------------------------------
pub open spec fn it_at(h: Heap, s: Sl, j: int) -> T_hashItem { h.c_hashItem[s.blk][s.off + j] }
pub open spec fn itm(h: Heap, t: T_hashItem) -> Itm { Itm { s: t.KeySum, k: z_seq_mem(h, t.Key), v: z_seq_mem(h, t.Value) } }
pub open spec fn itms(h: Heap, s: Sl) -> Seq<Itm> { Seq::new(s.len as nat, |j: int| itm(h, it_at(h, s, j))) }
// a slice that can be read in full
pub open spec fn sl_in(h: Heap, s: Sl) -> bool { z_valid(h, s) && 0 <= s.off && 0 <= s.len <= s.cap && s.off + s.cap <= h.mem[s.blk].len() && s.blk < h.nxt }
pub open spec fn sl_ok(h: Heap, s: Sl) -> bool { z_wf_mem(h, s) && z_valid(h, s) }
pub open spec fn it1_ok(h: Heap, t: T_hashItem) -> bool { sl_ok(h, t.Key) && sl_ok(h, t.Value) && 0 <= t.KeySum < 0x1_0000_0000_0000_0000 }
pub open spec fn its_ok(h: Heap, s: Sl) -> bool {
    &&& z_wf_c_hashItem(h, s) && z_valid(h, s)
    &&& forall|j: int| 0 <= j < s.len ==> it1_ok(h, #[trigger] it_at(h, s, j))
}
// a decoded slot
pub open spec fn slt_ok(h: Heap, t: T_HashSlot) -> bool {
    &&& z_wf_c_HashItemInfo(h, t.ItemInfos) && z_valid(h, t.ItemInfos) && sl_ok(h, t.Bin)
    &&& infosOK(z_slotinfos(h, t), t.Bin.len)
    &&& forall|j: int| 0 <= j < t.ItemInfos.len ==> info_in_range(#[trigger] z_slotinfos(h, t)[j])
}
pub open spec fn slt_items(h: Heap, t: T_HashSlot) -> Seq<Itm> { uitems(z_slotinfos(h, t), z_seq_mem(h, t.Bin)) }

// ---- slots in the file ------------------------------------------------------------
pub open spec fn sbody(q: Seq<u8>) -> Seq<u8> { q.subrange(uvdec(q).1, uvdec(q).1 + uvdec(q).0) }
pub open spec fn slotP(q: Seq<u8>) -> bool {
    &&& uvdec(q).1 > 0 && uvdec(q).0 >= 0 && uvdec(q).0 < 0x8000_0000_0000_0000 && uvdec(q).1 + uvdec(q).0 <= q.len()
    &&& dec_slot_ok(sbody(q)) && infosOK(dec_slot_i(sbody(q)), dec_slot_b(sbody(q)).len() as int) && dec_slot_i(sbody(q)).len() >= 1
    &&& forall|j: int| 0 <= j < dec_slot_i(sbody(q)).len() ==> info_in_range(#[trigger] dec_slot_i(sbody(q))[j])
}
pub open spec fn sitems(q: Seq<u8>) -> Seq<Itm> { uitems(dec_slot_i(sbody(q)), dec_slot_b(sbody(q))) }
// content of the slot with address a
pub open spec fn scon(m: Mem, a: int) -> Seq<Itm> { if a < 0 { Seq::empty() } else { sitems(m[-1 - a]) } }
pub open spec fn slotOK(h: Heap, a: int) -> bool { a >= 0 ==> h.sp.contains(a) && slotP(h.mem[-1 - a]) }

// info j before the size of the last value is dropped
pub open spec fn finfo(x: Seq<Itm>, j: int) -> T_HashItemInfo {
    T_HashItemInfo { KeySum: x[j].s, KeySize: x[j].k.len() as int, ValueSize: x[j].v.len() as int }
}
pub proof fn lem_pinfos_range(h: Heap, s: Sl)
    requires its_ok(h, s)
    ensures forall|j: int| 0 <= j < s.len ==> info_in_range(#[trigger] pinfos(itms(h, s))[j])
{
    let x = itms(h, s);
    assert forall|j: int| 0 <= j < s.len implies info_in_range(#[trigger] pinfos(x)[j]) by {
        assert(it1_ok(h, it_at(h, s, j))); assert(x[j] == itm(h, it_at(h, s, j))); assert(pinfos(x)[j] == pinfo(x, j));
    }
}
// where item j of a slot lies
pub open spec fn ualoc(i: Seq<T_HashItemInfo>, b: Sl, t: T_hashItem, j: int) -> bool {
    &&& t.KeySum == i[j].KeySum && t.Key == z_slice(b, kofs(i, j), kofs(i, j) + i[j].KeySize)
    &&& t.Value == z_slice(b, kofs(i, j) + i[j].KeySize, kofs(i, j + 1))
}
pub open spec fn ualocL(i: Seq<T_HashItemInfo>, b: Sl, t: T_hashItem, j: int) -> bool {
    &&& t.KeySum == i[j].KeySum && t.Key == z_slice(b, kofs(i, j), kofs(i, j) + i[j].KeySize)
    &&& t.Value == z_slice(b, kofs(i, j + 1), b.len)
}
// ---- splitting and merging ---------------------------------------------------------
pub open spec fn hsum(x: Itm) -> int { if x.k.len() <= K_maxShortKeySize() { fnv64a(x.k) } else { x.s } }
pub open spec fn hbit(x: Itm, bit: int) -> bool { zband(hsum(x), bit) != 0 }
pub open spec fn filt(x: Seq<Itm>, bit: int, on: bool, j: int) -> Seq<Itm> decreases j {
    if j <= 0 { Seq::empty() } else if hbit(x[j - 1], bit) == on { filt(x, bit, on, j - 1).push(x[j - 1]) } else { filt(x, bit, on, j - 1) }
}
pub proof fn lem_filt_len(x: Seq<Itm>, bit: int, on: bool, j: int)
    requires 0 <= j
    ensures filt(x, bit, on, j).len() <= j
    decreases j
{ if j > 0 { lem_filt_len(x, bit, on, j - 1); } }
pub open spec fn mergePair(m: Seq<Itm>, a: Seq<Itm>, b: Seq<Itm>, i: int) -> bool {
    (m[2 * i] == a[i] && m[2 * i + 1] == b[i]) || (m[2 * i] == b[i] && m[2 * i + 1] == a[i])
}
pub open spec fn merged(m: Seq<Itm>, a: Seq<Itm>, b: Seq<Itm>) -> bool {
    let n = z_min(a.len() as int, b.len() as int);
    &&& m.len() == a.len() + b.len()
    &&& forall|i: int| 0 <= i < n ==> #[trigger] mergePair(m, a, b, i)
    &&& forall|i: int| n <= i < a.len() ==> m[n + i] == #[trigger] a[i]
    &&& forall|i: int| n <= i < b.len() ==> m[n + i] == #[trigger] b[i]
}
pub open spec fn mergeT(h: Heap, m: Sl, a: Sl, b: Sl, i: int) -> bool {
    let x = it_at(h, m, 2 * i); let y = it_at(h, m, 2 * i + 1);
    (x == it_at(h, a, i) && y == it_at(h, b, i)) || (x == it_at(h, b, i) && y == it_at(h, a, i))
}
// ---- the layout of the table -------------------------------------------------------
pub open spec fn dA(h: Heap, hm: T_HashMap, d: int) -> int { z_i64(be64(h.mem[-1 - hm.slotDirsAddr], 8 * d)) }
pub open spec fn eA(h: Heap, dir: int, e: int) -> int { z_i64(be64(h.mem[-1 - dir], 8 * e)) }
pub open spec fn sA(h: Heap, hm: T_HashMap, s: int) -> int { eA(h, dA(h, hm, s / 4096), s % 4096) }
pub open spec fn geom(hm: T_HashMap) -> bool {
    &&& 0 <= hm.minSlotCountShift && p2(hm.minSlotCountShift) <= hm.slotCount < p2(hm.minSlotCountShift + 1)
    &&& hm.slotCount <= 4096 * hm.slotDirCount && 1 <= hm.slotDirCount
}
// at most one slot directory more than needed
pub open spec fn spare(hm: T_HashMap) -> bool { hm.slotDirCount >= 2 ==> hm.slotCount > 4096 * (hm.slotDirCount - 2) + 1 }
pub open spec fn layD(h: Heap, hm: T_HashMap) -> bool {
    let D = hm.slotDirCount;
    &&& 3 <= hm.maxSlotDirCountShift && 1 <= D <= p2(hm.maxSlotDirCountShift)
    &&& h.sp.contains(hm.slotDirsAddr) && h.mem[-1 - hm.slotDirsAddr].len() >= 8 * p2(hm.maxSlotDirCountShift)
    &&& forall|d: int| 0 <= d < D ==> h.sp.contains(#[trigger] dA(h, hm, d)) && h.mem[-1 - dA(h, hm, d)].len() >= 32768 && dA(h, hm, d) != hm.slotDirsAddr
    &&& forall|d: int, e: int| 0 <= d < e < D ==> #[trigger] dA(h, hm, d) != #[trigger] dA(h, hm, e)
}
pub open spec fn ownD(h: Heap, hm: T_HashMap, a: int) -> bool {
    a == hm.slotDirsAddr || exists|d: int| 0 <= d < hm.slotDirCount && a == #[trigger] dA(h, hm, d)
}
pub open spec fn ownS(h: Heap, hm: T_HashMap, ex: int, a: int) -> bool {
    exists|s: int| 0 <= s < hm.slotCount && s != ex && a == #[trigger] sA(h, hm, s)
}
pub open spec fn own(h: Heap, hm: T_HashMap, ex: int, a: int) -> bool { a >= 0 && (ownD(h, hm, a) || ownS(h, hm, ex, a)) }
pub open spec fn layS(h: Heap, hm: T_HashMap, ex: int) -> bool {
    let S = hm.slotCount;
    &&& forall|s: int| 0 <= s < S && s != ex ==> slotOK(h, #[trigger] sA(h, hm, s)) && (sA(h, hm, s) >= 0 ==> !ownD(h, hm, sA(h, hm, s)))
    &&& forall|s: int, t: int| 0 <= s < t < S && s != ex && t != ex && #[trigger] sA(h, hm, s) >= 0 ==> sA(h, hm, s) != #[trigger] sA(h, hm, t)
}
// the table is laid out properly, slot ex excepted
pub open spec fn lay(h: Heap, hm: T_HashMap, ex: int) -> bool { geom(hm) && layD(h, hm) && layS(h, hm, ex) }
pub open spec fn layT(h: Heap, hm: T_HashMap) -> bool { lay(h, hm, -1) && spare(hm) }
pub open spec fn hslots(h: Heap, hm: T_HashMap) -> Seq<Seq<Itm>> { Seq::new(hm.slotCount as nat, |s: int| scon(h.mem, sA(h, hm, s))) }
pub open spec fn isref(h: Heap, hm: T_HashMap, r: T_addrRef, s: int) -> bool {
    0 <= s < hm.slotCount && r.ArrayAddr == dA(h, hm, s / 4096) && r.ElementIndex == s % 4096
}
pub open spec fn keeps(h0: Heap, h: Heap, a: int) -> bool { h.sp.contains(a) && h.mem[-1 - a] == h0.mem[-1 - a] }
pub proof fn lem_slot_dir(hm: T_HashMap, s: int)
    requires geom(hm), 0 <= s < hm.slotCount
    ensures 0 <= s / 4096 < hm.slotDirCount, 0 <= s % 4096 < 4096
{ }
pub proof fn lem_lay_keep(h0: Heap, h: Heap, hm: T_HashMap, ex: int)
    requires lay(h0, hm, ex), z_heap_ok(h0), forall|a: int| #[trigger] own(h0, hm, ex, a) ==> keeps(h0, h, a)
    ensures lay(h, hm, ex),
        forall|d: int| 0 <= d < hm.slotDirCount ==> #[trigger] dA(h, hm, d) == dA(h0, hm, d),
        forall|s: int| 0 <= s < hm.slotCount ==> #[trigger] sA(h, hm, s) == sA(h0, hm, s),
        forall|s: int| 0 <= s < hm.slotCount && s != ex ==> scon(h.mem, #[trigger] sA(h, hm, s)) == scon(h0.mem, sA(h0, hm, s)),
        forall|a: int| #[trigger] own(h, hm, ex, a) == own(h0, hm, ex, a),
        0 <= ex < hm.slotCount || hslots(h, hm) == hslots(h0, hm),
{
    assert(own(h0, hm, ex, hm.slotDirsAddr)); assert(keeps(h0, h, hm.slotDirsAddr));
    assert forall|d: int| 0 <= d < hm.slotDirCount implies #[trigger] dA(h, hm, d) == dA(h0, hm, d) && keeps(h0, h, dA(h0, hm, d)) by { assert(own(h0, hm, ex, dA(h0, hm, d))); }
    assert forall|s: int| 0 <= s < hm.slotCount implies #[trigger] sA(h, hm, s) == sA(h0, hm, s) by {
        lem_slot_dir(hm, s); assert(dA(h, hm, s / 4096) == dA(h0, hm, s / 4096)); assert(keeps(h0, h, dA(h0, hm, s / 4096)));
    }
    assert forall|s: int| 0 <= s < hm.slotCount && s != ex implies slotOK(h, #[trigger] sA(h, hm, s)) && scon(h.mem, sA(h, hm, s)) == scon(h0.mem, sA(h0, hm, s)) by {
        assert(sA(h, hm, s) == sA(h0, hm, s));
        if sA(h0, hm, s) >= 0 { assert(own(h0, hm, ex, sA(h0, hm, s))); assert(keeps(h0, h, sA(h0, hm, s))); }
    }
    assert forall|a: int| #[trigger] ownD(h, hm, a) == ownD(h0, hm, a) by {
        if a != hm.slotDirsAddr && ownD(h, hm, a) { let d = choose|d: int| 0 <= d < hm.slotDirCount && a == #[trigger] dA(h, hm, d); assert(a == dA(h0, hm, d)); }
        if a != hm.slotDirsAddr && ownD(h0, hm, a) { let d = choose|d: int| 0 <= d < hm.slotDirCount && a == #[trigger] dA(h0, hm, d); assert(a == dA(h, hm, d)); }
    }
    assert forall|a: int| #[trigger] own(h, hm, ex, a) == own(h0, hm, ex, a) by {
        assert(ownD(h, hm, a) == ownD(h0, hm, a));
        if ownS(h, hm, ex, a) { let s = choose|s: int| 0 <= s < hm.slotCount && s != ex && a == #[trigger] sA(h, hm, s); assert(a == sA(h0, hm, s)); }
        if ownS(h0, hm, ex, a) { let s = choose|s: int| 0 <= s < hm.slotCount && s != ex && a == #[trigger] sA(h0, hm, s); assert(a == sA(h, hm, s)); }
    }
    if !(0 <= ex < hm.slotCount) { assert(hslots(h, hm) =~= hslots(h0, hm)); }
}
// dropping or adding the exception
pub proof fn lem_lay_except(h: Heap, hm: T_HashMap, s: int)
    requires lay(h, hm, -1), 0 <= s < hm.slotCount
    ensures lay(h, hm, s), sA(h, hm, s) >= 0 ==> !own(h, hm, s, sA(h, hm, s)),
        forall|a: int| #[trigger] own(h, hm, -1, a) == (own(h, hm, s, a) || (a >= 0 && a == sA(h, hm, s))),
{
    let x = sA(h, hm, s);
    if x >= 0 {
        assert(!ownD(h, hm, x));
        if ownS(h, hm, s, x) { let t = choose|t: int| 0 <= t < hm.slotCount && t != s && x == #[trigger] sA(h, hm, t); if t < s { assert(sA(h, hm, t) != sA(h, hm, s)); } else { assert(sA(h, hm, s) != sA(h, hm, t)); } }
    }
    assert forall|a: int| #[trigger] own(h, hm, -1, a) == (own(h, hm, s, a) || (a >= 0 && a == x)) by {
        if ownS(h, hm, -1, a) { let t = choose|t: int| 0 <= t < hm.slotCount && t != -1 && a == #[trigger] sA(h, hm, t); if t != s { assert(ownS(h, hm, s, a)); } }
        if ownS(h, hm, s, a) { let t = choose|t: int| 0 <= t < hm.slotCount && t != s && a == #[trigger] sA(h, hm, t); assert(ownS(h, hm, -1, a)); }
        if a == x { assert(ownS(h, hm, -1, a)); }
    }
}
// writing the address of slot s
pub open spec fn setE(h0: Heap, h: Heap, dir: int, e: int, a: int) -> bool {
    h == Heap { mem: h0.mem.insert(-1 - dir, splice(h0.mem[-1 - dir], 8 * e, enc64(z_u64(a)))), ..h0 }
}
pub proof fn lem_eA_set(h0: Heap, h: Heap, dir: int, e: int, a: int)
    requires setE(h0, h, dir, e, a), 0 <= e, 8 * e + 8 <= h0.mem[-1 - dir].len(), z_i64ok(a)
    ensures eA(h, dir, e) == a, forall|f: int| 0 <= f && f != e && 8 * f + 8 <= h0.mem[-1 - dir].len() ==> #[trigger] eA(h, dir, f) == eA(h0, dir, f),
        forall|x: int, f: int| x != dir ==> #[trigger] eA(h, x, f) == eA(h0, x, f), h.mem[-1 - dir].len() == h0.mem[-1 - dir].len()
{
    let q = h0.mem[-1 - dir]; let t = enc64(z_u64(a));
    b_enc64(z_u64(a)); b_enc64_len(z_u64(a));
    b_be64_splice(q, 8 * e, t, 8 * e);
    assert forall|f: int| 0 <= f && f != e && 8 * f + 8 <= q.len() implies #[trigger] eA(h, dir, f) == eA(h0, dir, f) by { b_be64_splice(q, 8 * e, t, 8 * f); }
}
pub proof fn lem_set_slot(h0: Heap, h: Heap, hm: T_HashMap, s: int, a: int)
    requires lay(h0, hm, s), z_heap_ok(h0), 0 <= s < hm.slotCount, setE(h0, h, dA(h0, hm, s / 4096), s % 4096, a), z_i64ok(a),
        slotOK(h0, a), a >= 0 ==> !own(h0, hm, s, a)
    ensures lay(h, hm, -1), sA(h, hm, s) == a,
        hslots(h, hm) == hslots(h0, hm).update(s, scon(h0.mem, a)),
        forall|x: int| #[trigger] own(h, hm, -1, x) == (own(h0, hm, s, x) || (x >= 0 && x == a)),
{
    let dir = dA(h0, hm, s / 4096); let e = s % 4096;
    lem_slot_dir(hm, s); lem_eA_set(h0, h, dir, e, a);
    assert forall|d: int| 0 <= d < hm.slotDirCount implies #[trigger] dA(h, hm, d) == dA(h0, hm, d) && h.mem[-1 - dA(h0, hm, d)].len() >= 32768 by { }
    assert forall|x: int| #[trigger] ownD(h, hm, x) == ownD(h0, hm, x) by {
        if x != hm.slotDirsAddr && ownD(h, hm, x) { let d = choose|d: int| 0 <= d < hm.slotDirCount && x == #[trigger] dA(h, hm, d); assert(x == dA(h0, hm, d)); }
        if x != hm.slotDirsAddr && ownD(h0, hm, x) { let d = choose|d: int| 0 <= d < hm.slotDirCount && x == #[trigger] dA(h0, hm, d); assert(x == dA(h, hm, d)); }
    }
    assert(dA(h, hm, s / 4096) == dir);
    assert forall|t: int| 0 <= t < hm.slotCount && t != s implies #[trigger] sA(h, hm, t) == sA(h0, hm, t) by {
        lem_slot_dir(hm, t); let dt = dA(h0, hm, t / 4096); assert(dA(h, hm, t / 4096) == dt);
        if t / 4096 == s / 4096 { assert(t % 4096 != e); assert(eA(h, dir, t % 4096) == eA(h0, dir, t % 4096)); }
        else { if t / 4096 < s / 4096 { assert(dA(h0, hm, t / 4096) != dA(h0, hm, s / 4096)); } else { assert(dA(h0, hm, s / 4096) != dA(h0, hm, t / 4096)); }
            assert(eA(h, dt, t % 4096) == eA(h0, dt, t % 4096)); }
    }
    assert(sA(h, hm, s) == a);
    assert(ownD(h0, hm, dir));
    assert forall|t: int| 0 <= t < hm.slotCount implies slotOK(h, #[trigger] sA(h, hm, t)) && (sA(h, hm, t) >= 0 ==> !ownD(h, hm, sA(h, hm, t)))
        && scon(h.mem, sA(h, hm, t)) == (if t == s { scon(h0.mem, a) } else { scon(h0.mem, sA(h0, hm, t)) }) by {
        let x = sA(h, hm, t);
        if t != s { assert(x == sA(h0, hm, t)); }
        if x >= 0 { assert(x != dir) by { if t == s { assert(own(h0, hm, s, dir)); } else { assert(!ownD(h0, hm, sA(h0, hm, t))); } } }
    }
    assert forall|t: int, u: int| 0 <= t < u < hm.slotCount && t != -1 && u != -1 && #[trigger] sA(h, hm, t) >= 0 implies sA(h, hm, t) != #[trigger] sA(h, hm, u) by {
        if t != s { assert(sA(h, hm, t) == sA(h0, hm, t)); } if u != s { assert(sA(h, hm, u) == sA(h0, hm, u)); }
        if t == s { if a == sA(h0, hm, u) { assert(ownS(h0, hm, s, a)); } }
        if u == s { if a == sA(h0, hm, t) { assert(ownS(h0, hm, s, a)); } }
    }
    assert(hslots(h, hm) =~= hslots(h0, hm).update(s, scon(h0.mem, a)));
    assert forall|x: int| #[trigger] own(h, hm, -1, x) == (own(h0, hm, s, x) || (x >= 0 && x == a)) by {
        assert(ownD(h, hm, x) == ownD(h0, hm, x));
        if ownS(h, hm, -1, x) { let t = choose|t: int| 0 <= t < hm.slotCount && t != -1 && x == #[trigger] sA(h, hm, t); if t != s { assert(x == sA(h0, hm, t)); assert(ownS(h0, hm, s, x)); } }
        if ownS(h0, hm, s, x) { let t = choose|t: int| 0 <= t < hm.slotCount && t != s && x == #[trigger] sA(h0, hm, t); assert(x == sA(h, hm, t)); assert(ownS(h, hm, -1, x)); }
        if x == a { assert(x == sA(h, hm, s)); assert(ownS(h, hm, -1, x)); }
    }
}
// nothing outside of the given spaces is touched, and no space is lost
pub open spec fn outf(h0: Heap, o0: spec_fn(int) -> bool, h: Heap, o: spec_fn(int) -> bool) -> bool {
    &&& forall|a: int| (#[trigger] h.sp.contains(a) && !o(a)) == (h0.sp.contains(a) && !o0(a))
    &&& h.al == h0.al
    &&& forall|b: int| 0 <= b < h0.nxt ==> #[trigger] h.mem[b] == h0.mem[b]
    &&& forall|b: int| b < 0 && ((h0.sp.contains(-1 - b) && !o0(-1 - b)) || h0.al.contains(-1 - b)) ==> #[trigger] h.mem[b] == h0.mem[b]
}
pub open spec fn ho(h: Heap, hm: T_HashMap) -> spec_fn(int) -> bool { |a: int| own(h, hm, -1, a) }
// ---- what is in the table -----------------------------------------------------------
pub open spec fn sidx(x: int, n: int, sh: int) -> int { let i = x % p2(sh + 1); if i >= n { i - p2(sh) } else { i } }
pub proof fn lem_sidx(x: int, n: int, sh: int)
    requires x >= 0, 0 <= sh, p2(sh) <= n < p2(sh + 1)
    ensures 0 <= sidx(x, n, sh) < n
{ lem_p2_pos(sh); assert(p2(sh + 1) == 2 * p2(sh)); assert(0 <= x % p2(sh + 1) < p2(sh + 1)) by(nonlinear_arith) requires p2(sh + 1) >= 1; }
pub open spec fn itOK(x: Itm) -> bool { x.s == (if x.k.len() <= K_maxShortKeySize() { 0 } else { fnv64a(x.k) }) }
pub open spec fn hasKey(x: Seq<Itm>, k: Seq<u8>) -> bool { exists|i: int| 0 <= i < x.len() && (#[trigger] x[i]).k == k }
pub open spec fn distinct(x: Seq<Itm>) -> bool { forall|i: int, j: int| 0 <= i < j < x.len() ==> (#[trigger] x[i]).k != (#[trigger] x[j]).k }
pub open spec fn slotIn(x: Seq<Itm>, s: int, n: int, sh: int) -> bool { forall|i: int| 0 <= i < x.len() ==> itOK(#[trigger] x[i]) && sidx(fnv64a(x[i].k), n, sh) == s }
pub open spec fn conOK(X: Seq<Seq<Itm>>, sh: int) -> bool {
    forall|s: int| 0 <= s < X.len() ==> distinct(#[trigger] X[s]) && slotIn(X[s], s, X.len() as int, sh)
}
pub open spec fn nitems(X: Seq<Seq<Itm>>, n: int) -> int decreases n { if n <= 0 { 0 } else { nitems(X, n - 1) + X[n - 1].len() as int } }
pub open spec fn tota(x: Seq<Itm>) -> int { tot(x, x.len() as int) }
pub open spec fn npay(X: Seq<Seq<Itm>>, n: int) -> int decreases n { if n <= 0 { 0 } else { npay(X, n - 1) + tota(X[n - 1]) } }
pub open spec fn slk(x: Seq<Itm>, k: Seq<u8>) -> Option<Seq<u8>> {
    if hasKey(x, k) { Some(x[choose|i: int| 0 <= i < x.len() && (#[trigger] x[i]).k == k].v) } else { None }
}
// the table as a map from keys to values
pub open spec fn mget(X: Seq<Seq<Itm>>, sh: int, k: Seq<u8>) -> Option<Seq<u8>> { slk(X[sidx(fnv64a(k), X.len() as int, sh)], k) }
pub open spec fn hget(h: Heap, hm: T_HashMap, k: Seq<u8>) -> Option<Seq<u8>> { mget(hslots(h, hm), hm.minSlotCountShift, k) }
pub open spec fn hmP(h: Heap, hm: T_HashMap) -> bool {
    let X = hslots(h, hm);
    &&& layT(h, hm) && conOK(X, hm.minSlotCountShift)
    &&& hm.itemCount == nitems(X, hm.slotCount) && hm.payloadSize == npay(X, hm.slotCount)
    &&& ldHi(hm) && ldLo(hm)
}
// the number of slots is in proportion to the number of items
pub open spec fn ldHi(hm: T_HashMap) -> bool { 1000 * hm.itemCount <= 1619 * hm.slotCount }
pub open spec fn ldLo(hm: T_HashMap) -> bool { hm.slotCount == 1 || 1000 * hm.itemCount >= 809 * hm.slotCount }
pub proof fn lem_slk_at(x: Seq<Itm>, i: int)
    requires distinct(x), 0 <= i < x.len()
    ensures slk(x, x[i].k) == Some(x[i].v)
{
    let k = x[i].k; assert(hasKey(x, k));
    let c = choose|c: int| 0 <= c < x.len() && (#[trigger] x[c]).k == k;
    if c < i { assert(x[c].k != x[i].k); } else if c > i { assert(x[i].k != x[c].k); }
}
pub open spec fn sumP(h: Heap, hm: T_HashMap) -> bool {
    &&& layT(h, hm) && conOK(hslots(h, hm), hm.minSlotCountShift)
}

pub proof fn lem_isref(h: Heap, hm: T_HashMap, r: T_addrRef, s: int, u: int)
    requires geom(hm), layD(h, hm), isref(h, hm, r, s), isref(h, hm, r, u)
    ensures s == u
{
    lem_slot_dir(hm, s); lem_slot_dir(hm, u);
    let a = s / 4096; let b = u / 4096;
    if a < b { assert(dA(h, hm, a) != dA(h, hm, b)); } else if b < a { assert(dA(h, hm, b) != dA(h, hm, a)); }
}
// storing a slot anew: h0 -> h1 changes the space of the slot, h1 -> h its address
pub open spec fn restored(h0: Heap, h1: Heap, a0: int, a: int) -> bool {
    &&& a == -1 || (a > 0 && z_i64ok(a) && (!h0.sp.contains(a) || a == a0) && !h0.al.contains(a) && h1.sp.contains(a))
    &&& forall|x: int| #[trigger] h1.sp.contains(x) == ((h0.sp.contains(x) && (x != a0 || a0 < 0)) || (a > 0 && x == a))
    &&& h1.al == h0.al
    &&& forall|b: int| b < h0.nxt && (b >= 0 || b != -1 - a0) && (b >= 0 || b != -1 - a) ==> #[trigger] h1.mem[b] == h0.mem[b]
    &&& slotOK(h1, a)
}
pub proof fn lem_restore(h0: Heap, h1: Heap, hm: T_HashMap, s: int, a: int)
    requires lay(h0, hm, -1), z_heap_ok(h0), z_heap_ok(h1), 0 <= s < hm.slotCount, restored(h0, h1, sA(h0, hm, s), a)
    ensures lay(h1, hm, s), dA(h1, hm, s / 4096) == dA(h0, hm, s / 4096), h1.sp.contains(dA(h0, hm, s / 4096)), h1.mem[-1 - dA(h0, hm, s / 4096)].len() >= 32768,
        forall|t: int| 0 <= t < hm.slotCount && t != s ==> hslots(h1, hm)[t] == #[trigger] hslots(h0, hm)[t],
        forall|x: int| #[trigger] own(h1, hm, s, x) == own(h0, hm, s, x), a >= 0 ==> !own(h1, hm, s, a),
        forall|x: int| #[trigger] own(h0, hm, s, x) ==> keeps(h0, h1, x) && x != a,
{
    let a0 = sA(h0, hm, s);
    lem_lay_except(h0, hm, s); lem_slot_dir(hm, s);
    assert forall|x: int| #[trigger] own(h0, hm, s, x) implies keeps(h0, h1, x) && x != a by {
        assert(h0.sp.contains(x)) by { lem_own_sp(h0, hm, s, x); }
        assert(h1.sp.contains(x)); assert(h1.mem[-1 - x] == h0.mem[-1 - x]);
    }
    lem_lay_keep(h0, h1, hm, s);
    assert(own(h0, hm, s, dA(h0, hm, s / 4096)));
    assert(dA(h1, hm, s / 4096) == dA(h0, hm, s / 4096));
    assert forall|t: int| 0 <= t < hm.slotCount && t != s implies hslots(h1, hm)[t] == #[trigger] hslots(h0, hm)[t] by { assert(scon(h1.mem, sA(h1, hm, t)) == scon(h0.mem, sA(h0, hm, t))); }
}
pub proof fn lem_own_sp(h: Heap, hm: T_HashMap, ex: int, x: int)
    requires lay(h, hm, ex), own(h, hm, ex, x)
    ensures h.sp.contains(x)
{
    if ownD(h, hm, x) { if x != hm.slotDirsAddr { let d = choose|d: int| 0 <= d < hm.slotDirCount && x == #[trigger] dA(h, hm, d); } }
    else { let t = choose|t: int| 0 <= t < hm.slotCount && t != ex && x == #[trigger] sA(h, hm, t); assert(slotOK(h, sA(h, hm, t))); }
}
pub proof fn lem_restored(h0: Heap, h1: Heap, h: Heap, hm: T_HashMap, s: int, a: int)
    requires lay(h0, hm, -1), z_heap_ok(h0), z_heap_ok(h1), 0 <= s < hm.slotCount, restored(h0, h1, sA(h0, hm, s), a),
        setE(h1, h, dA(h0, hm, s / 4096), s % 4096, a)
    ensures lay(h, hm, -1), hslots(h, hm) == hslots(h0, hm).update(s, scon(h1.mem, a)), outf(h0, ho(h0, hm), h, ho(h, hm)), sA(h, hm, s) == a
{
    let a0 = sA(h0, hm, s); let dir = dA(h0, hm, s / 4096);
    lem_restore(h0, h1, hm, s, a); lem_set_slot(h1, h, hm, s, a);
    lem_lay_except(h0, hm, s); lem_slot_dir(hm, s);
    assert(hslots(h, hm) =~= hslots(h0, hm).update(s, scon(h1.mem, a)));
    assert(own(h0, hm, s, dir));
    let o0 = ho(h0, hm); let o = ho(h, hm);
    assert forall|x: int| (#[trigger] h.sp.contains(x) && !o(x)) == (h0.sp.contains(x) && !o0(x)) by {
        assert(own(h1, hm, s, x) == own(h0, hm, s, x));
        assert(own(h, hm, -1, x) == (own(h1, hm, s, x) || (x >= 0 && x == a)));
        assert(own(h0, hm, -1, x) == (own(h0, hm, s, x) || (x >= 0 && x == a0)));
        assert(h.sp.contains(x) == h1.sp.contains(x));
    }
    lem_own_sp(h0, hm, s, dir);
    assert forall|b: int| b < 0 && ((h0.sp.contains(-1 - b) && !o0(-1 - b)) || h0.al.contains(-1 - b)) implies #[trigger] h.mem[b] == h0.mem[b] by {
        let x = -1 - b;
        assert(own(h0, hm, -1, x) == (own(h0, hm, s, x) || (x >= 0 && x == a0)));
        if x == a0 { assert(h0.sp.contains(a0)); }
        assert(h1.mem[b] == h0.mem[b]);
    }
    assert forall|b: int| 0 <= b < h0.nxt implies #[trigger] h.mem[b] == h0.mem[b] by { assert(h1.mem[b] == h0.mem[b]); }
}
