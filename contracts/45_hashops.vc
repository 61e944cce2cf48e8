func hashmap.HashMap.adjustSlotDirs(hm, n)
 props C01 C05 C08 C09
 requires lay(h, hm, -1) && n >= 3 && p2(n) >= hm.slotDirCount
 modifies mem alloc fs hm
 ensures @C01 @C08 same: lay(h, hm, -1) && hslots(h, hm) == hslots(h0, hm0)
 ensures fields: hm == (T_HashMap { slotDirsAddr: hm.slotDirsAddr, maxSlotDirCountShift: n, ..hm0 })
 ensures @C09 frame: outf(h0, ho(h0, hm0), h, ho(h, hm))
 at exit { assert forall|d: int| 0 <= d < hm0.slotDirCount implies #[trigger] be64(h.mem[-1 - hm.slotDirsAddr], 8 * d) == be64(h0.mem[-1 - hm0.slotDirsAddr], 8 * d) by {
     lem_be64_bytes(h.mem[-1 - hm.slotDirsAddr], h0.mem[-1 - hm0.slotDirsAddr], 8 * d, 8 * d); }
   assert(moved(h0, hm0, h, n, hm.slotDirsAddr)); lem_moved(h0, hm0, h, n, hm.slotDirsAddr); }

func hashmap.HashMap.addSlotDir(hm)
 props C01 C05 C08 C09 C10 C13
 requires lay(h, hm, -1)
 modifies mem alloc fs hm
 ensures @C01 @C08 same: lay(h, hm, -1) && hslots(h, hm) == hslots(h0, hm0)
 ensures @C10 @C13 fields: hm == (T_HashMap { slotDirsAddr: hm.slotDirsAddr, maxSlotDirCountShift: hm.maxSlotDirCountShift, slotDirCount: hm0.slotDirCount + 1, ..hm0 })
 ensures @C09 frame: outf(h0, ho(h0, hm0), h, ho(h, hm))
 at entry { lem_p2_pos(hm.maxSlotDirCountShift); assert(p2(3) == 8) by(compute); assert(p2(hm.maxSlotDirCountShift + 1) == 2 * p2(hm.maxSlotDirCountShift)); }
 at call AllocateSpace before { let h1 = h; let hm1 = hm; split; }
 at call AllocateSpace after { let h2 = h; assert(own(h1, hm1, -1, hm1.slotDirsAddr)); }
 at exit { lem_add_dir(h1, hm1, h2, h, slotDirAddr); lem_outf_trans(h0, ho(h0, hm0), h1, ho(h1, hm1), h, ho(h, hm)); }

func hashmap.HashMap.removeSlotDir(hm)
 props C01 C05 C08 C09 C10 C13
 requires lay(h, hm, -1) && hm.slotDirCount >= 2 && hm.slotCount <= 4096 * (hm.slotDirCount - 1)
 modifies mem alloc fs hm
 ensures @C01 @C08 same: lay(h, hm, -1) && hslots(h, hm) == hslots(h0, hm0)
 ensures @C10 @C13 fields: hm == (T_HashMap { slotDirsAddr: hm.slotDirsAddr, maxSlotDirCountShift: hm.maxSlotDirCountShift, slotDirCount: hm0.slotDirCount - 1, ..hm0 })
 ensures @C09 frame: outf(h0, ho(h0, hm0), h, ho(h, hm))
 at entry { lem_p2_pos(hm.maxSlotDirCountShift - 2); assert(p2(3) == 8) by(compute); assert(h.sp.contains(dA(h, hm, hm.slotDirCount - 1))); if hm.maxSlotDirCountShift > 3 { assert(p2(hm.maxSlotDirCountShift - 1) == 2 * p2(hm.maxSlotDirCountShift - 2)); } }
 at assign slotDirCount after { let h1 = h; let hm1 = hm; lem_drop_dir(h0, hm0, h); split; }
 at exit { lem_outf_trans(h0, ho(h0, hm0), h1, ho(h1, hm1), h, ho(h, hm)); }

func hashmap.HashMap.addSlot(hm, slot)
 props C01 C05 C08 C09 C10 C13
 requires layT(h, hm) && slt_ok(h, slot) && slot.Bin.ep == 0 && slot.ItemInfos.ep == 0
 modifies mem alloc fs hm
 ensures @C01 @C05 slots: hslots(h, hm) == hslots(h0, hm0).push(slt_items(h0, slot))
 ensures @C08 @C13 layout: layT(h, hm)
 ensures @C10 @C13 fields: hm.slotCount == hm0.slotCount + 1 && hm.minSlotCountShift == shiftUp(hm0) && hm.itemCount == hm0.itemCount && hm.payloadSize == hm0.payloadSize && hm.fileStorage == hm0.fileStorage
 ensures @C09 frame: outf(h0, ho(h0, hm0), h, ho(h, hm))
 at entry { let G = slt_items(h0, slot); assert(p2(12) == 4096) by(compute); }
 at call locateSlotAddr before { let h1 = h; let hm1 = hm; split; assert(mem_up(h0, h1)); lem_slot_up(h0, h1, slot); assert(0 <= hm.slotCount / 4096 < hm.slotDirCount && 0 <= hm.slotCount % 4096 < 4096); }
 at call storeSlot result { let h2 = h; assert(own(h1, hm1, -1, dA(h1, hm1, hm1.slotCount / 4096))); lem_own_sp(h1, hm1, -1, dA(h1, hm1, hm1.slotCount / 4096)); }
 at exit { assert(scon(h2.mem, ret_storeSlot) =~= slt_items(h0, slot)); lem_push_slot(h1, hm1, h2, h, hm, ret_storeSlot); lem_outf_trans(h0, ho(h0, hm0), h1, ho(h1, hm1), h, ho(h, hm)); }

func hashmap.HashMap.removeSlot(hm) (t)
 props C01 C05 C08 C09 C10 C13
 requires layT(h, hm) && hm.slotCount >= 2
 modifies mem alloc fs c_HashItemInfo hm
 ensures @C01 last: slt_ok(h, t) && slt_items(h, t) == hslots(h0, hm0).last() && t.Bin.ep == 0 && t.ItemInfos.ep == 0
 ensures @C01 @C05 rest: hslots(h, hm) == hslots(h0, hm0).drop_last()
 ensures @C08 @C13 layout: layT(h, hm)
 ensures @C10 @C13 fields: hm.slotCount == hm0.slotCount - 1 && hm.minSlotCountShift == shiftDown(hm0) && hm.itemCount == hm0.itemCount && hm.payloadSize == hm0.payloadSize && hm.fileStorage == hm0.fileStorage
 ensures @C09 frame: outf(h0, ho(h0, hm0), h, ho(h, hm))
 at entry { let S = hm.slotCount - 1; lem_slot_dir(hm, S); assert(slotOK(h, sA(h, hm, S))); assert(hslots(h, hm).last() == scon(h.mem, sA(h, hm, S))); lem_shift(hm.slotCount, hm.minSlotCountShift); }
 at assign Bin after { split; let h1 = h; assert(mem_kept(h0, h1)); assert(slt_items(h, slot) == hslots(h0, hm0).last() && slt_ok(h, slot) && slot.Bin.ep == 0); split; }
 at assign slotCount after { let h2 = h; let hm2 = T_HashMap { minSlotCountShift: shiftDown(hm0), ..hm }; lem_pop_slot(h0, hm0, h, hm2); lem_slot_up(h1, h, slot); split; assert(p2(12) == 4096) by(compute); }
 at call removeSlotDir before { assert(hm == hm2); }
 at exit { assert(hm2.slotDirCount == hm0.slotDirCount); lem_outf_trans(h0, ho(h0, hm0), h2, ho(h2, hm2), h, ho(h, hm)); lem_slot_up(h2, h, t); }

func hashmap.HashMap.maybeExpand(hm)
 props C01 C05 C08 C09 C10 C13
 requires sumP(h, hm)
 modifies mem alloc fs c_hashItem c_HashItemInfo hm
 ensures @C01 @C08 @C13 state: sumP(h, hm)
 ensures @C01 @C05 same: forall|k: Seq<u8>| #[trigger] hget(h, hm, k) == hget(h0, hm0, k)
 ensures @C10 counts: nitems(hslots(h, hm), hm.slotCount) == nitems(hslots(h0, hm0), hm0.slotCount) && npay(hslots(h, hm), hm.slotCount) == npay(hslots(h0, hm0), hm0.slotCount)
 ensures fields: hm.itemCount == hm0.itemCount && hm.payloadSize == hm0.payloadSize && hm.fileStorage == hm0.fileStorage
 ensures @C13 load: ldHi(hm) && (ldLo(hm0) ==> ldLo(hm))
 ensures @C09 frame: outf(h0, ho(h0, hm0), h, ho(h, hm))
 loop 1
  invariant sumP(h, hm) && hm.itemCount == hm0.itemCount && hm.payloadSize == hm0.payloadSize && hm.fileStorage == hm0.fileStorage && h.nxt >= h0.nxt && (ldLo(hm0) ==> ldLo(hm))
  invariant forall|k: Seq<u8>| #[trigger] hget(h, hm, k) == hget(h0, hm0, k)
  invariant nitems(hslots(h, hm), hm.slotCount) == nitems(hslots(h0, hm0), hm0.slotCount) && npay(hslots(h, hm), hm.slotCount) == npay(hslots(h0, hm0), hm0.slotCount)
  invariant outf(h0, ho(h0, hm0), h, ho(h, hm))
  decreases z_max(hm.itemCount - hm.slotCount, 0)
 at loop 1 begin { let ha = h; let hma = hm; let X = hslots(h, hm); let sh = hm.minSlotCountShift; let low = hm.slotCount - p2(sh); let x = X[low]; let f = filt(x, p2(sh), false, x.len() as int); let g = filt(x, p2(sh), true, x.len() as int);
   lem_shift(hm.slotCount, sh); lem_p2_pos(sh); lem_slot_dir(hm, low); assert(slotOK(h, sA(h, hm, low))); lem_p2_64(); lem_load(hm.itemCount, hm.slotCount); let ic = hm.itemCount; let sc = hm.slotCount; assert(1000 * ic >= 1618 * sc); lem_expand(X, sh, shiftUp(hm)); split; }
 at call splitItems after { let hs = h; let i1 = items1; let i2 = items2; assert(mem_kept(ha, hs)); assert(itms(h, i1) == f); assert(itms(h, i2) == g); split; }
 at call packSlot result { lem_its_up(hs, h, i2); let hq = h; assert(slt_items(h, ret_packSlot) =~= f); split; }
 at call packSlot#2 result { lem_slot_up(hq, h, ret_packSlot); let hp = h; split;
   assert(mem_kept(ha, hp)); assert forall|a: int| #[trigger] own(ha, hm, -1, a) implies keeps(ha, hp, a) by { lem_own_sp(ha, hm, -1, a); } lem_lay_keep(ha, hp, hm, -1); assert(sA(hp, hm, low) == sA(ha, hm, low)); assert(dA(hp, hm, low / 4096) == dA(ha, hm, low / 4096)); split; }
 at call restoreSlot result { let h1 = h; assert(restored(hp, h1, sA(ha, hm, low), ret_restoreSlot)); lem_restore(hp, h1, hm, low, ret_restoreSlot); }
 at call Set after { lem_restored(hp, h1, h, hm, low, ret_restoreSlot); assert(scon(h1.mem, ret_restoreSlot) == f); let h2 = h; lem_slot_up(hp, h, slot2); split; }
 at loop 1 end { lem_outf_trans(hp, ho(hp, hma), h2, ho(h2, hma), h, ho(h, hm));
   let oa = ho(ha, hma); let op = ho(hp, hma);
   assert forall|x: int| #[trigger] op(x) == oa(x) by { assert(own(hp, hma, -1, x) == own(ha, hma, -1, x)); }
   split;
   lem_outf_trans(h0, ho(h0, hm0), ha, oa, h, ho(h, hm));
   split; let Y = X.update(low, f).push(g);
   assert(hslots(h, hm) =~= Y); split; assert(hm.minSlotCountShift == shiftUp(hma));
   assert forall|k: Seq<u8>| #[trigger] hget(h, hm, k) == hget(h0, hm0, k) by { assert(mget(Y, shiftUp(hma), k) == mget(X, sh, k)); assert(hget(ha, hma, k) == mget(X, sh, k)); }
   split; }
 at exit { lem_load(hm.itemCount, hm.slotCount); }

func hashmap.HashMap.maybeShrink(hm)
 props C01 C05 C08 C09 C10 C13
 requires sumP(h, hm)
 modifies mem alloc fs c_hashItem c_HashItemInfo hm
 ensures @C01 @C08 @C13 state: sumP(h, hm)
 ensures @C01 @C05 same: forall|k: Seq<u8>| #[trigger] hget(h, hm, k) == hget(h0, hm0, k)
 ensures @C10 counts: nitems(hslots(h, hm), hm.slotCount) == nitems(hslots(h0, hm0), hm0.slotCount) && npay(hslots(h, hm), hm.slotCount) == npay(hslots(h0, hm0), hm0.slotCount)
 ensures fields: hm.itemCount == hm0.itemCount && hm.payloadSize == hm0.payloadSize && hm.fileStorage == hm0.fileStorage
 ensures @C13 load: ldLo(hm) && (ldHi(hm0) ==> ldHi(hm))
 ensures @C13 shrunk: hm.slotCount <= hm0.slotCount
 ensures @C09 frame: outf(h0, ho(h0, hm0), h, ho(h, hm))
 at entry { lem_p2_pos(hm.minSlotCountShift); }
 loop 1
  invariant sumP(h, hm) && hm.itemCount == hm0.itemCount && hm.payloadSize == hm0.payloadSize && hm.fileStorage == hm0.fileStorage && h.nxt >= h0.nxt && 1 <= hm.slotCount <= hm0.slotCount && (ldHi(hm0) ==> ldHi(hm))
  invariant forall|k: Seq<u8>| #[trigger] hget(h, hm, k) == hget(h0, hm0, k)
  invariant nitems(hslots(h, hm), hm.slotCount) == nitems(hslots(h0, hm0), hm0.slotCount) && npay(hslots(h, hm), hm.slotCount) == npay(hslots(h0, hm0), hm0.slotCount)
  invariant outf(h0, ho(h0, hm0), h, ho(h, hm))
  decreases hm.slotCount
 at loop 1 begin { let ha = h; let hma = hm; let Y = hslots(h, hm); let sh1 = hm.minSlotCountShift; let sh = shiftDown(hm); let n = hm.slotCount - 1; let low = n - p2(sh);
   lem_shift(hm.slotCount, sh1); lem_p2_pos(sh); lem_p2_pos(sh1); lem_load(hm.itemCount, hm.slotCount); assert(10000 * hma.itemCount <= 8091 * hma.slotCount); split; }
 at call removeSlot result { let hb = h; let hmb = hm; split; lem_slot_dir(hm, low); assert(slotOK(h, sA(h, hm, low))); assert(hslots(h, hm)[low] == Y[low]); split; }
 at call unpackSlot after { let hc = h; let i1 = items1; assert(itms(h, i1) == Y[n]); assert forall|a: int| #[trigger] own(hb, hm, -1, a) implies keeps(hb, hc, a) by { lem_own_sp(hb, hm, -1, a); } lem_lay_keep(hb, hc, hm, -1); assert(sA(hc, hm, low) == sA(hb, hm, low)); split; }
 at call unpackSlot#2 after { let hd = h; assert(mem_kept(hc, hd)); lem_its_up(hc, hd, i1); assert(itms(h, items2) == Y[low]); split; }
 at call mergeItems result { let M = itms(h, ret_mergeItems); split; assert(merged(M, Y[n], Y[low])); split; }
 at call packSlot result { let hp = h; split; assert(slt_items(hp, ret_packSlot) == M); assert(mem_kept(hb, hp)); assert forall|a: int| #[trigger] own(hb, hm, -1, a) implies keeps(hb, hp, a) by { lem_own_sp(hb, hm, -1, a); } lem_lay_keep(hb, hp, hm, -1); assert(sA(hp, hm, low) == sA(hb, hm, low)); assert(dA(hp, hm, low / 4096) == dA(hb, hm, low / 4096)); split; }
 at call restoreSlot result { let h1 = h; assert(restored(hp, h1, sA(hb, hm, low), ret_restoreSlot)); lem_restore(hp, h1, hm, low, ret_restoreSlot); }
 at call Set after { split; lem_restored(hp, h1, h, hm, low, ret_restoreSlot); assert(scon(h1.mem, ret_restoreSlot) == M); split; }
 at loop 1 end { let oa = ho(ha, hma); let ob = ho(hb, hm); let op = ho(hp, hm);
   assert forall|x: int| #[trigger] op(x) == ob(x) by { assert(own(hp, hm, -1, x) == own(hb, hm, -1, x)); }
   split; assert(outf(hb, ob, h, ho(h, hm))); split; lem_outf_trans(ha, oa, hb, ob, h, ho(h, hm)); lem_outf_trans(h0, ho(h0, hm0), ha, oa, h, ho(h, hm)); split;
   let X = Y.drop_last().update(low, M); assert(hslots(h, hm) =~= X); lem_shrink(Y, sh, sh1, M);
   assert forall|k: Seq<u8>| #[trigger] hget(h, hm, k) == hget(h0, hm0, k) by { assert(mget(X, sh, k) == mget(Y, sh1, k)); assert(hget(ha, hma, k) == mget(Y, sh1, k)); }
   split; }
 at exit { lem_load(hm.itemCount, hm.slotCount); }
