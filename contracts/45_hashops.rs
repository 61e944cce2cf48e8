// ---- changing the number of slots and slot directories -----------------------------
// hm1 has one slot more than hm
pub open spec fn oneMore(hm: T_HashMap, hm1: T_HashMap) -> bool {
    hm1.slotDirsAddr == hm.slotDirsAddr && hm1.slotDirCount == hm.slotDirCount && hm1.maxSlotDirCountShift == hm.maxSlotDirCountShift && hm1.slotCount == hm.slotCount + 1
}
pub proof fn lem_ext(h: Heap, hm: T_HashMap, hm1: T_HashMap)
    requires oneMore(hm, hm1), hm.slotCount >= 0
    ensures
        layD(h, hm1) == layD(h, hm), layS(h, hm1, hm.slotCount) == layS(h, hm, -1),
        forall|a: int| #[trigger] own(h, hm1, hm.slotCount, a) == own(h, hm, -1, a),
        forall|s: int| #[trigger] sA(h, hm1, s) == sA(h, hm, s),
        forall|d: int| #[trigger] dA(h, hm1, d) == dA(h, hm, d),
        hslots(h, hm1).drop_last() == hslots(h, hm),
{
    let S = hm.slotCount;
    assert forall|s: int| #[trigger] sA(h, hm1, s) == sA(h, hm, s) by { }
    assert forall|d: int| #[trigger] dA(h, hm1, d) == dA(h, hm, d) by { }
    assert forall|a: int| #[trigger] ownD(h, hm1, a) == ownD(h, hm, a) by {
        if a != hm.slotDirsAddr && ownD(h, hm1, a) { let d = choose|d: int| 0 <= d < hm.slotDirCount && a == #[trigger] dA(h, hm1, d); assert(a == dA(h, hm, d)); }
        if a != hm.slotDirsAddr && ownD(h, hm, a) { let d = choose|d: int| 0 <= d < hm.slotDirCount && a == #[trigger] dA(h, hm, d); assert(a == dA(h, hm1, d)); }
    }
    assert forall|a: int| #[trigger] own(h, hm1, S, a) == own(h, hm, -1, a) by {
        assert(ownD(h, hm1, a) == ownD(h, hm, a));
        if ownS(h, hm1, S, a) { let s = choose|s: int| 0 <= s < S + 1 && s != S && a == #[trigger] sA(h, hm1, s); assert(a == sA(h, hm, s)); }
        if ownS(h, hm, -1, a) { let s = choose|s: int| 0 <= s < S && s != -1 && a == #[trigger] sA(h, hm, s); assert(a == sA(h, hm1, s)); }
    }
    if layD(h, hm) {
        assert forall|d: int| 0 <= d < hm1.slotDirCount implies h.sp.contains(#[trigger] dA(h, hm1, d)) && h.mem[-1 - dA(h, hm1, d)].len() >= 32768 && dA(h, hm1, d) != hm1.slotDirsAddr by { assert(h.sp.contains(dA(h, hm, d))); }
        assert forall|d: int, e: int| 0 <= d < e < hm1.slotDirCount implies #[trigger] dA(h, hm1, d) != #[trigger] dA(h, hm1, e) by { assert(dA(h, hm, d) != dA(h, hm, e)); }
    }
    if layD(h, hm1) {
        assert forall|d: int| 0 <= d < hm.slotDirCount implies h.sp.contains(#[trigger] dA(h, hm, d)) && h.mem[-1 - dA(h, hm, d)].len() >= 32768 && dA(h, hm, d) != hm1.slotDirsAddr by { assert(h.sp.contains(dA(h, hm1, d))); }
        assert forall|d: int, e: int| 0 <= d < e < hm.slotDirCount implies #[trigger] dA(h, hm, d) != #[trigger] dA(h, hm, e) by { assert(dA(h, hm1, d) != dA(h, hm1, e)); }
    }
    if layS(h, hm, -1) {
        assert forall|s: int| 0 <= s < S + 1 && s != S implies slotOK(h, #[trigger] sA(h, hm1, s)) && (sA(h, hm1, s) >= 0 ==> !ownD(h, hm1, sA(h, hm1, s))) by { assert(slotOK(h, sA(h, hm, s))); }
        assert forall|s: int, t: int| 0 <= s < t < S + 1 && s != S && t != S && #[trigger] sA(h, hm1, s) >= 0 implies sA(h, hm1, s) != #[trigger] sA(h, hm1, t) by { assert(sA(h, hm, s) != sA(h, hm, t)); }
    }
    if layS(h, hm1, S) {
        assert forall|s: int| 0 <= s < S && s != -1 implies slotOK(h, #[trigger] sA(h, hm, s)) && (sA(h, hm, s) >= 0 ==> !ownD(h, hm, sA(h, hm, s))) by { assert(slotOK(h, sA(h, hm1, s))); }
        assert forall|s: int, t: int| 0 <= s < t < S && s != -1 && t != -1 && #[trigger] sA(h, hm, s) >= 0 implies sA(h, hm, s) != #[trigger] sA(h, hm, t) by { assert(sA(h, hm1, s) != sA(h, hm1, t)); }
    }
    assert(hslots(h, hm1).drop_last() =~= hslots(h, hm));
}
// the slot directories change, the slots do not
pub open spec fn redir(h0: Heap, hm0: T_HashMap, h: Heap, hm: T_HashMap) -> bool {
    &&& hm.slotCount == hm0.slotCount && hm.slotCount <= 4096 * hm.slotDirCount && hm.minSlotCountShift == hm0.minSlotCountShift && hm.itemCount == hm0.itemCount && hm.payloadSize == hm0.payloadSize
    &&& forall|d: int| 0 <= d < hm0.slotDirCount && 0 <= d < hm.slotDirCount ==> #[trigger] dA(h, hm, d) == dA(h0, hm0, d)
    &&& forall|d: int| 0 <= d < hm0.slotDirCount && 0 <= d < hm.slotDirCount ==> keeps(h0, h, #[trigger] dA(h0, hm0, d))
    &&& forall|s: int| 0 <= s < hm0.slotCount && #[trigger] sA(h0, hm0, s) >= 0 ==> keeps(h0, h, sA(h0, hm0, s)) && !ownD(h, hm, sA(h0, hm0, s))
}
pub proof fn lem_redir(h0: Heap, hm0: T_HashMap, h: Heap, hm: T_HashMap)
    requires lay(h0, hm0, -1), layD(h, hm), redir(h0, hm0, h, hm)
    ensures lay(h, hm, -1), hslots(h, hm) == hslots(h0, hm0), forall|a: int| #[trigger] ownS(h, hm, -1, a) == ownS(h0, hm0, -1, a),
        forall|s: int| 0 <= s < hm.slotCount ==> #[trigger] sA(h, hm, s) == sA(h0, hm0, s),
{
    assert forall|s: int| 0 <= s < hm.slotCount implies #[trigger] sA(h, hm, s) == sA(h0, hm0, s) by {
        lem_slot_dir(hm0, s); lem_slot_dir(hm, s); assert(dA(h, hm, s / 4096) == dA(h0, hm0, s / 4096)); assert(keeps(h0, h, dA(h0, hm0, s / 4096)));
    }
    assert forall|a: int| #[trigger] ownS(h, hm, -1, a) == ownS(h0, hm0, -1, a) by {
        if ownS(h, hm, -1, a) { let s = choose|s: int| 0 <= s < hm.slotCount && s != -1 && a == #[trigger] sA(h, hm, s); assert(a == sA(h0, hm0, s)); }
        if ownS(h0, hm0, -1, a) { let s = choose|s: int| 0 <= s < hm.slotCount && s != -1 && a == #[trigger] sA(h0, hm0, s); assert(a == sA(h, hm, s)); }
    }
    assert forall|s: int| 0 <= s < hm.slotCount implies slotOK(h, #[trigger] sA(h, hm, s)) && (sA(h, hm, s) >= 0 ==> !ownD(h, hm, sA(h, hm, s))) && scon(h.mem, sA(h, hm, s)) == scon(h0.mem, sA(h0, hm0, s)) by {
        assert(sA(h, hm, s) == sA(h0, hm0, s)); assert(slotOK(h0, sA(h0, hm0, s)));
    }
    assert forall|s: int, t: int| 0 <= s < t < hm.slotCount && s != -1 && t != -1 && #[trigger] sA(h, hm, s) >= 0 implies sA(h, hm, s) != #[trigger] sA(h, hm, t) by {
        assert(sA(h, hm, s) == sA(h0, hm0, s)); assert(sA(h, hm, t) == sA(h0, hm0, t));
    }
    assert(hslots(h, hm) =~= hslots(h0, hm0));
}
// the directory array moved from a0 to a1
pub open spec fn moved(h0: Heap, hm0: T_HashMap, h: Heap, n: int, a1: int) -> bool {
    let a0 = hm0.slotDirsAddr;
    &&& a1 > 0 && (!h0.sp.contains(a1) || a1 == a0) && !h0.al.contains(a1) && h.mem[-1 - a1].len() >= 8 * p2(n)
    &&& h.sp == h0.sp.remove(a0).insert(a1) && h.al == h0.al
    &&& forall|b: int| b < h0.nxt && b != -1 - a0 && b != -1 - a1 ==> #[trigger] h.mem[b] == h0.mem[b]
    &&& forall|d: int| 0 <= d < hm0.slotDirCount ==> #[trigger] be64(h.mem[-1 - a1], 8 * d) == be64(h0.mem[-1 - a0], 8 * d)
}
pub proof fn lem_moved(h0: Heap, hm0: T_HashMap, h: Heap, n: int, a1: int)
    requires lay(h0, hm0, -1), z_heap_ok(h0), n >= 3, p2(n) >= hm0.slotDirCount, moved(h0, hm0, h, n, a1)
    ensures ({ let hm = T_HashMap { slotDirsAddr: a1, maxSlotDirCountShift: n, ..hm0 };
        lay(h, hm, -1) && hslots(h, hm) == hslots(h0, hm0) && outf(h0, ho(h0, hm0), h, ho(h, hm)) })
{
    let hm = T_HashMap { slotDirsAddr: a1, maxSlotDirCountShift: n, ..hm0 }; let a0 = hm0.slotDirsAddr;
    assert(own(h0, hm0, -1, a0));
    assert forall|d: int| 0 <= d < hm0.slotDirCount implies #[trigger] dA(h, hm, d) == dA(h0, hm0, d) by { assert(be64(h.mem[-1 - a1], 8 * d) == be64(h0.mem[-1 - a0], 8 * d)); }
    assert forall|d: int| 0 <= d < hm0.slotDirCount implies keeps(h0, h, #[trigger] dA(h0, hm0, d)) && dA(h0, hm0, d) != a0 && dA(h0, hm0, d) != a1 by { assert(h0.sp.contains(dA(h0, hm0, d))); }
    assert forall|d: int| 0 <= d < hm.slotDirCount implies h.sp.contains(#[trigger] dA(h, hm, d)) && h.mem[-1 - dA(h, hm, d)].len() >= 32768 && dA(h, hm, d) != hm.slotDirsAddr by { assert(h0.sp.contains(dA(h0, hm0, d))); assert(keeps(h0, h, dA(h0, hm0, d))); }
    assert forall|d: int, e: int| 0 <= d < e < hm.slotDirCount implies #[trigger] dA(h, hm, d) != #[trigger] dA(h, hm, e) by { assert(dA(h0, hm0, d) != dA(h0, hm0, e)); }
    assert forall|a: int| #[trigger] ownD(h, hm, a) == (a == a1 || (a != a0 && ownD(h0, hm0, a))) by {
        if a != a1 && ownD(h, hm, a) { let d = choose|d: int| 0 <= d < hm.slotDirCount && a == #[trigger] dA(h, hm, d); assert(a == dA(h0, hm0, d)); }
        if a != a0 && ownD(h0, hm0, a) { let d = choose|d: int| 0 <= d < hm.slotDirCount && a == #[trigger] dA(h0, hm0, d); assert(a == dA(h, hm, d)); }
    }
    assert forall|s: int| 0 <= s < hm0.slotCount && #[trigger] sA(h0, hm0, s) >= 0 implies keeps(h0, h, sA(h0, hm0, s)) && !ownD(h, hm, sA(h0, hm0, s)) by {
        let x = sA(h0, hm0, s); assert(slotOK(h0, x)); assert(!ownD(h0, hm0, x)); assert(ownD(h0, hm0, a0)); assert(h0.sp.contains(x)); assert(x != a0);
    }
    lem_redir(h0, hm0, h, hm);
    let o0 = ho(h0, hm0); let o = ho(h, hm);
    assert(!ownS(h0, hm0, -1, a0)) by { if ownS(h0, hm0, -1, a0) { let s = choose|s: int| 0 <= s < hm0.slotCount && s != -1 && a0 == #[trigger] sA(h0, hm0, s); assert(!ownD(h0, hm0, sA(h0, hm0, s))); } }
    assert forall|x: int| (#[trigger] h.sp.contains(x) && !o(x)) == (h0.sp.contains(x) && !o0(x)) by {
        assert(ownD(h, hm, x) == (x == a1 || (x != a0 && ownD(h0, hm0, x)))); assert(ownS(h, hm, -1, x) == ownS(h0, hm0, -1, x));
    }
    assert forall|b: int| b < 0 && ((h0.sp.contains(-1 - b) && !o0(-1 - b)) || h0.al.contains(-1 - b)) implies #[trigger] h.mem[b] == h0.mem[b] by { }
}
pub proof fn lem_outf_trans(h0: Heap, o0: spec_fn(int) -> bool, h1: Heap, o1: spec_fn(int) -> bool, h: Heap, o: spec_fn(int) -> bool)
    requires outf(h0, o0, h1, o1), outf(h1, o1, h, o), h1.nxt >= h0.nxt
    ensures outf(h0, o0, h, o)
{
    assert forall|a: int| (#[trigger] h.sp.contains(a) && !o(a)) == (h0.sp.contains(a) && !o0(a)) by { assert((h1.sp.contains(a) && !o1(a)) == (h0.sp.contains(a) && !o0(a))); }
    assert forall|b: int| b < 0 && ((h0.sp.contains(-1 - b) && !o0(-1 - b)) || h0.al.contains(-1 - b)) implies #[trigger] h.mem[b] == h0.mem[b] by {
        assert((h1.sp.contains(-1 - b) && !o1(-1 - b)) == (h0.sp.contains(-1 - b) && !o0(-1 - b))); assert(h1.mem[b] == h0.mem[b]);
    }
    assert forall|b: int| 0 <= b < h0.nxt implies #[trigger] h.mem[b] == h0.mem[b] by { assert(h1.mem[b] == h0.mem[b]); }
}
// one more slot directory, at address a
pub proof fn lem_add_dir(h0: Heap, hm0: T_HashMap, h1: Heap, h: Heap, a: int)
    requires lay(h0, hm0, -1), z_heap_ok(h0), hm0.slotDirCount < p2(hm0.maxSlotDirCountShift),
        a > 0, z_i64ok(a), !h0.sp.contains(a), !h0.al.contains(a), h1.sp == h0.sp.insert(a), h1.al == h0.al, h1.mem[-1 - a].len() >= 32768,
        forall|b: int| b < h0.nxt && b != -1 - a ==> #[trigger] h1.mem[b] == h0.mem[b],
        setE(h1, h, hm0.slotDirsAddr, hm0.slotDirCount, a)
    ensures ({ let hm = T_HashMap { slotDirCount: hm0.slotDirCount + 1, ..hm0 };
        lay(h, hm, -1) && hslots(h, hm) == hslots(h0, hm0) && outf(h0, ho(h0, hm0), h, ho(h, hm)) })
{
    let D = hm0.slotDirCount; let A = hm0.slotDirsAddr; let hm = T_HashMap { slotDirCount: D + 1, ..hm0 };
    assert(own(h0, hm0, -1, A)); assert(h0.sp.contains(A)); assert(h1.mem[-1 - A] == h0.mem[-1 - A]);
    lem_eA_set(h1, h, A, D, a);
    assert forall|d: int| 0 <= d < D implies #[trigger] dA(h, hm, d) == dA(h0, hm0, d) by { assert(eA(h, A, d) == eA(h1, A, d)); }
    assert(dA(h, hm, D) == a) by { assert(eA(h, A, D) == a); }
    assert forall|d: int| 0 <= d < D implies keeps(h0, h, #[trigger] dA(h0, hm0, d)) && dA(h0, hm0, d) != a by { assert(h0.sp.contains(dA(h0, hm0, d))); assert(h1.mem[-1 - dA(h0, hm0, d)] == h0.mem[-1 - dA(h0, hm0, d)]); }
    assert forall|d: int| 0 <= d < hm.slotDirCount implies h.sp.contains(#[trigger] dA(h, hm, d)) && h.mem[-1 - dA(h, hm, d)].len() >= 32768 && dA(h, hm, d) != hm.slotDirsAddr by { if d < D { assert(h0.sp.contains(dA(h0, hm0, d))); assert(keeps(h0, h, dA(h0, hm0, d))); } }
    assert forall|d: int, e: int| 0 <= d < e < hm.slotDirCount implies #[trigger] dA(h, hm, d) != #[trigger] dA(h, hm, e) by { assert(dA(h, hm, d) == dA(h0, hm0, d)); if e < D { assert(dA(h0, hm0, d) != dA(h0, hm0, e)); } }
    assert forall|x: int| #[trigger] ownD(h, hm, x) == (x == a || ownD(h0, hm0, x)) by {
        if x != A && ownD(h, hm, x) { let d = choose|d: int| 0 <= d < hm.slotDirCount && x == #[trigger] dA(h, hm, d); if d < D { assert(x == dA(h0, hm0, d)); } }
        if x != A && ownD(h0, hm0, x) { let d = choose|d: int| 0 <= d < hm0.slotDirCount && x == #[trigger] dA(h0, hm0, d); assert(x == dA(h, hm, d)); }
        if x == a { assert(x == dA(h, hm, D)); }
    }
    assert forall|s: int| 0 <= s < hm0.slotCount && #[trigger] sA(h0, hm0, s) >= 0 implies keeps(h0, h, sA(h0, hm0, s)) && !ownD(h, hm, sA(h0, hm0, s)) by {
        let x = sA(h0, hm0, s); assert(slotOK(h0, x)); assert(!ownD(h0, hm0, x)); assert(ownD(h0, hm0, A)); assert(h1.mem[-1 - x] == h0.mem[-1 - x]);
    }
    lem_redir(h0, hm0, h, hm);
    let o0 = ho(h0, hm0); let o = ho(h, hm);
    assert forall|x: int| (#[trigger] h.sp.contains(x) && !o(x)) == (h0.sp.contains(x) && !o0(x)) by {
        assert(ownD(h, hm, x) == (x == a || ownD(h0, hm0, x))); assert(ownS(h, hm, -1, x) == ownS(h0, hm0, -1, x));
    }
    assert forall|b: int| b < 0 && ((h0.sp.contains(-1 - b) && !o0(-1 - b)) || h0.al.contains(-1 - b)) implies #[trigger] h.mem[b] == h0.mem[b] by { assert(h1.mem[b] == h0.mem[b]); }
    assert forall|b: int| 0 <= b < h0.nxt implies #[trigger] h.mem[b] == h0.mem[b] by { assert(h1.mem[b] == h0.mem[b]); }
}
// one slot directory less
pub proof fn lem_drop_dir(h0: Heap, hm0: T_HashMap, h: Heap)
    requires lay(h0, hm0, -1), z_heap_ok(h0), hm0.slotDirCount >= 2, hm0.slotCount <= 4096 * (hm0.slotDirCount - 1),
        h.sp == h0.sp.remove(dA(h0, hm0, hm0.slotDirCount - 1)), h.al == h0.al,
        forall|b: int| b < h0.nxt && b != -1 - dA(h0, hm0, hm0.slotDirCount - 1) ==> #[trigger] h.mem[b] == h0.mem[b],
    ensures ({ let hm = T_HashMap { slotDirCount: hm0.slotDirCount - 1, ..hm0 };
        lay(h, hm, -1) && hslots(h, hm) == hslots(h0, hm0) && outf(h0, ho(h0, hm0), h, ho(h, hm)) })
{
    let D = hm0.slotDirCount - 1; let A = hm0.slotDirsAddr; let hm = T_HashMap { slotDirCount: D, ..hm0 };
    let a = dA(h0, hm0, D);
    assert(h0.sp.contains(a) && a != A);
    assert(own(h0, hm0, -1, A)); assert(h.mem[-1 - A] == h0.mem[-1 - A]);
    assert forall|d: int| 0 <= d < D implies #[trigger] dA(h, hm, d) == dA(h0, hm0, d) by { }
    assert forall|d: int| 0 <= d < D implies keeps(h0, h, #[trigger] dA(h0, hm0, d)) && dA(h0, hm0, d) != a by { assert(dA(h0, hm0, d) != dA(h0, hm0, D)); assert(h0.sp.contains(dA(h0, hm0, d))); assert(h.mem[-1 - dA(h0, hm0, d)] == h0.mem[-1 - dA(h0, hm0, d)]); }
    assert forall|d: int| 0 <= d < hm.slotDirCount implies h.sp.contains(#[trigger] dA(h, hm, d)) && h.mem[-1 - dA(h, hm, d)].len() >= 32768 && dA(h, hm, d) != hm.slotDirsAddr by { assert(h0.sp.contains(dA(h0, hm0, d))); assert(keeps(h0, h, dA(h0, hm0, d))); }
    assert forall|d: int, e: int| 0 <= d < e < hm.slotDirCount implies #[trigger] dA(h, hm, d) != #[trigger] dA(h, hm, e) by { assert(dA(h0, hm0, d) != dA(h0, hm0, e)); }
    assert forall|x: int| #[trigger] ownD(h, hm, x) == (x != a && ownD(h0, hm0, x)) by {
        if x != A && ownD(h, hm, x) { let d = choose|d: int| 0 <= d < hm.slotDirCount && x == #[trigger] dA(h, hm, d); assert(x == dA(h0, hm0, d)); }
        if x != A && x != a && ownD(h0, hm0, x) { let d = choose|d: int| 0 <= d < hm0.slotDirCount && x == #[trigger] dA(h0, hm0, d); assert(x == dA(h, hm, d)); }
    }
    assert(ownD(h0, hm0, a));
    assert forall|s: int| 0 <= s < hm0.slotCount && #[trigger] sA(h0, hm0, s) >= 0 implies keeps(h0, h, sA(h0, hm0, s)) && !ownD(h, hm, sA(h0, hm0, s)) by {
        let x = sA(h0, hm0, s); assert(slotOK(h0, x)); assert(!ownD(h0, hm0, x)); assert(h.mem[-1 - x] == h0.mem[-1 - x]);
    }
    lem_redir(h0, hm0, h, hm);
    let o0 = ho(h0, hm0); let o = ho(h, hm);
    assert(!ownS(h0, hm0, -1, a)) by { if ownS(h0, hm0, -1, a) { let s = choose|s: int| 0 <= s < hm0.slotCount && s != -1 && a == #[trigger] sA(h0, hm0, s); assert(!ownD(h0, hm0, sA(h0, hm0, s))); } }
    assert forall|x: int| (#[trigger] h.sp.contains(x) && !o(x)) == (h0.sp.contains(x) && !o0(x)) by {
        assert(ownD(h, hm, x) == (x != a && ownD(h0, hm0, x))); assert(ownS(h, hm, -1, x) == ownS(h0, hm0, -1, x));
    }
    assert forall|b: int| b < 0 && ((h0.sp.contains(-1 - b) && !o0(-1 - b)) || h0.al.contains(-1 - b)) implies #[trigger] h.mem[b] == h0.mem[b] by { }
}
pub open spec fn shiftUp(hm: T_HashMap) -> int { if hm.slotCount + 1 == p2(hm.minSlotCountShift + 1) { hm.minSlotCountShift + 1 } else { hm.minSlotCountShift } }
pub open spec fn shiftDown(hm: T_HashMap) -> int { if hm.slotCount - 1 < p2(hm.minSlotCountShift) { hm.minSlotCountShift - 1 } else { hm.minSlotCountShift } }
pub proof fn lem_shift(n: int, sh: int)
    requires sh >= 0, p2(sh) <= n < p2(sh + 1)
    ensures p2(sh + 1) == 2 * p2(sh), p2(sh + 2) == 4 * p2(sh), n + 1 == p2(sh + 1) ==> n + 1 < p2(sh + 2), n >= 2 ==> sh >= 1 && p2(sh) == 2 * p2(sh - 1)
{ lem_p2_pos(sh); assert(p2(sh + 2) == 2 * p2(sh + 1)); if sh == 0 { assert(p2(1) == 2) by(compute); } }
// one more slot: h0 -> h1 stores it, h1 -> h enters its address a
pub open spec fn stored(h0: Heap, h1: Heap, a: int) -> bool {
    &&& a == -1 || (a > 0 && z_i64ok(a) && !h0.sp.contains(a) && !h0.al.contains(a))
    &&& h1.sp == (if a < 0 { h0.sp } else { h0.sp.insert(a) }) && h1.al == h0.al && slotOK(h1, a)
    &&& forall|b: int| b < h0.nxt && (a < 0 || b != -1 - a) ==> #[trigger] h1.mem[b] == h0.mem[b]
}
pub proof fn lem_push_slot(h0: Heap, hm0: T_HashMap, h1: Heap, h: Heap, hm: T_HashMap, a: int)
    requires lay(h0, hm0, -1), z_heap_ok(h0), z_heap_ok(h1), hm0.slotCount < 4096 * hm0.slotDirCount, stored(h0, h1, a), 
        setE(h1, h, dA(h0, hm0, hm0.slotCount / 4096), hm0.slotCount % 4096, a),
        hm == (T_HashMap { slotCount: hm0.slotCount + 1, minSlotCountShift: shiftUp(hm0), ..hm0 })
    ensures lay(h, hm, -1), hslots(h, hm) == hslots(h0, hm0).push(scon(h1.mem, a)), outf(h0, ho(h0, hm0), h, ho(h, hm))
{
    let S = hm0.slotCount; let d = S / 4096;
    lem_shift(S, hm0.minSlotCountShift);
    assert(geom(hm));
    assert forall|x: int| #[trigger] own(h0, hm0, -1, x) implies keeps(h0, h1, x) && x != a by { lem_own_sp(h0, hm0, -1, x); assert(h1.mem[-1 - x] == h0.mem[-1 - x]); }
    lem_lay_keep(h0, h1, hm0, -1);
    lem_ext(h1, hm0, hm);
    assert(own(h0, hm0, -1, a) == own(h1, hm0, -1, a)); assert(own(h1, hm, S, a) == own(h1, hm0, -1, a));
    assert(dA(h1, hm0, d) == dA(h0, hm0, d)); assert(dA(h1, hm, d) == dA(h1, hm0, d));
    lem_set_slot(h1, h, hm, S, a);
    assert(hslots(h, hm) =~= hslots(h0, hm0).push(scon(h1.mem, a))) by {
        assert forall|t: int| 0 <= t < S implies hslots(h, hm)[t] == hslots(h0, hm0)[t] by { assert(hslots(h1, hm).drop_last()[t] == hslots(h1, hm)[t]); }
    }
    let o0 = ho(h0, hm0); let o = ho(h, hm);
    assert forall|x: int| #[trigger] o(x) == (o0(x) || (x >= 0 && x == a)) by { assert(own(h, hm, -1, x) == (own(h1, hm, S, x) || (x >= 0 && x == a))); assert(own(h1, hm, S, x) == own(h1, hm0, -1, x)); assert(own(h1, hm0, -1, x) == own(h0, hm0, -1, x)); }
    let dir = dA(h0, hm0, d); assert(own(h0, hm0, -1, dir)); assert(o0(dir)); lem_own_sp(h0, hm0, -1, dir);
    assert forall|x: int| (#[trigger] h.sp.contains(x) && !o(x)) == (h0.sp.contains(x) && !o0(x)) by { assert(o(x) == (o0(x) || (x >= 0 && x == a))); }
    assert forall|b: int| b < 0 && ((h0.sp.contains(-1 - b) && !o0(-1 - b)) || h0.al.contains(-1 - b)) implies #[trigger] h.mem[b] == h0.mem[b] by { assert(h1.mem[b] == h0.mem[b]); }
    assert forall|b: int| 0 <= b < h0.nxt implies #[trigger] h.mem[b] == h0.mem[b] by { assert(h1.mem[b] == h0.mem[b]); }
}
// one slot less
pub proof fn lem_pop_slot(h0: Heap, hm0: T_HashMap, h: Heap, hm: T_HashMap)
    requires lay(h0, hm0, -1), z_heap_ok(h0), hm0.slotCount >= 2,
        hm == (T_HashMap { slotCount: hm0.slotCount - 1, minSlotCountShift: shiftDown(hm0), ..hm0 }),
        ({ let a = sA(h0, hm0, hm0.slotCount - 1);
            &&& h.sp == (if a < 0 { h0.sp } else { h0.sp.remove(a) }) && h.al == h0.al
            &&& forall|b: int| b < h0.nxt && (a < 0 || b != -1 - a) ==> #[trigger] h.mem[b] == h0.mem[b] })
    ensures lay(h, hm, -1), hslots(h, hm) == hslots(h0, hm0).drop_last(), outf(h0, ho(h0, hm0), h, ho(h, hm))
{
    let S = hm0.slotCount - 1; let a = sA(h0, hm0, S);
    lem_shift(hm0.slotCount, hm0.minSlotCountShift);
    assert(geom(hm));
    lem_lay_except(h0, hm0, S);
    assert forall|x: int| #[trigger] own(h0, hm0, S, x) implies keeps(h0, h, x) by { lem_own_sp(h0, hm0, S, x); assert(h.mem[-1 - x] == h0.mem[-1 - x]); }
    lem_lay_keep(h0, h, hm0, S);
    lem_ext(h, hm, hm0);
    assert(hslots(h, hm) =~= hslots(h0, hm0).drop_last()) by {
        assert forall|t: int| 0 <= t < S implies hslots(h, hm)[t] == hslots(h0, hm0)[t] by { assert(sA(h, hm, t) == sA(h, hm0, t)); assert(scon(h.mem, sA(h, hm0, t)) == scon(h0.mem, sA(h0, hm0, t))); }
    }
    let o0 = ho(h0, hm0); let o = ho(h, hm);
    assert forall|x: int| #[trigger] o0(x) == (o(x) || (x >= 0 && x == a)) && !o(a) by { 
        assert(own(h, hm0, S, x) == own(h, hm, -1, x)); assert(own(h, hm0, S, x) == own(h0, hm0, S, x)); assert(own(h0, hm0, -1, x) == (own(h0, hm0, S, x) || (x >= 0 && x == a)));
        assert(own(h, hm0, S, a) == own(h, hm, -1, a)); assert(own(h, hm0, S, a) == own(h0, hm0, S, a)); }
    assert forall|x: int| (#[trigger] h.sp.contains(x) && !o(x)) == (h0.sp.contains(x) && !o0(x)) by { assert(o0(x) == (o(x) || (x >= 0 && x == a))); if x == a { assert(slotOK(h0, a)); } }
    assert forall|b: int| b < 0 && ((h0.sp.contains(-1 - b) && !o0(-1 - b)) || h0.al.contains(-1 - b)) implies #[trigger] h.mem[b] == h0.mem[b] by { assert(o0(a) || a < 0); if a >= 0 { assert(slotOK(h0, a)); } }
}
pub open spec fn mem_up(h0: Heap, h1: Heap) -> bool { forall|b: int| 0 <= b < h0.nxt ==> #[trigger] h1.mem[b] == h0.mem[b] }
pub proof fn lem_slot_up(h0: Heap, h1: Heap, t: T_HashSlot)
    requires slt_ok(h0, t), t.Bin.ep == 0, t.ItemInfos.ep == 0, mem_up(h0, h1), forall|b: int| b < h0.nxt ==> #[trigger] h1.c_HashItemInfo[b] == h0.c_HashItemInfo[b], h1.nxt >= h0.nxt, h1.ep >= h0.ep
    ensures slt_ok(h1, t), slt_items(h1, t) == slt_items(h0, t)
{
    assert(z_seq_mem(h1, t.Bin) =~= z_seq_mem(h0, t.Bin));
    assert(z_slotinfos(h1, t) =~= z_slotinfos(h0, t));
}
pub proof fn lem_its_up(h0: Heap, h1: Heap, s: Sl)
    requires its_ok(h0, s), mem_kept(h0, h1), forall|b: int| b < h0.nxt ==> #[trigger] h1.c_hashItem[b] == h0.c_hashItem[b], h1.nxt >= h0.nxt, h1.ep == h0.ep
    ensures its_ok(h1, s), itms(h1, s) == itms(h0, s)
{
    assert forall|j: int| 0 <= j < s.len implies it1_ok(h1, #[trigger] it_at(h1, s, j)) && itm(h1, it_at(h1, s, j)) == itm(h0, it_at(h0, s, j)) by {
        let t = it_at(h0, s, j); assert(it1_ok(h0, t)); assert(z_seq_mem(h1, t.Key) =~= z_seq_mem(h0, t.Key)); assert(z_seq_mem(h1, t.Value) =~= z_seq_mem(h0, t.Value));
    }
    assert(itms(h1, s) =~= itms(h0, s));
}
// as lem_its_up, when the mapping may have moved and all items lie in Go memory
pub open spec fn its_go(h: Heap, s: Sl) -> bool { s.ep == 0 && forall|j: int| 0 <= j < s.len ==> (#[trigger] it_at(h, s, j)).Key.ep == 0 && it_at(h, s, j).Value.ep == 0 }
// the load factor, as an exact fraction, against a bound
pub proof fn lem_load(i: int, s: int)
    ensures forall|p: int, q: int| #[trigger] z_fcmp(z_fdiv(Frac { n: i, d: 1 }, Frac { n: s, d: 1 }), Frac { n: p, d: q }) == i * q - p * s
{ }
