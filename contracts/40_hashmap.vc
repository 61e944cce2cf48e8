func hashmap.copyBytes(data) (x)
 props C01 C04 C08 C11
 requires sl_in(h, data)
 modifies mem alloc
 ensures z_seq_mem(h, x) == z_seq_mem(h0, data) && x.len == data.len
 ensures @C11 fresh: x == z_nil() || (x.blk == h0.nxt && x.ep == 0)
 ensures mem_kept(h0, h) && h.nxt <= h0.nxt + 1
 at exit { assert(z_seq_mem(h, x) =~= z_seq_mem(h0, data)); }

func hashmap.sumKey(key) (s)
 props C01 C08
 requires sl_ok(h, key)
 ensures s == fnv64a(z_seq_mem(h, key))

func hashmap.packSlot(items) (t)
 props C01 C04 C05 C08 C11
 requires its_ok(h, items)
 modifies mem alloc c_HashItemInfo
 ensures @C01 @C04 @C05 items: slt_items(h, t) == itms(h0, items) && slt_ok(h, t) && t.ItemInfos.len == items.len
 ensures fresh: t.ItemInfos.ep == 0 && t.Bin.ep == 0 && mem_kept(h0, h)
 ensures kept: forall|b: int| b < h0.nxt ==> #[trigger] h.c_HashItemInfo[b] == h0.c_HashItemInfo[b]
 ensures empty: items.len == 0 ==> h == h0
 at entry { let X = itms(h0, items0); let m = items0.len; }
 loop 1
  invariant h == h0 && rng1 == items && i == tot(X, it1)
 at loop 1 begin { assert(X[it1] == itm(h0, it_at(h0, items, it1))); }
 at loop 1 after { lem_tot_mono(X, 0, m); }
 loop 2
  invariant h.c_HashItemInfo == h_2.c_HashItemInfo.insert(ib, h.c_HashItemInfo[ib]) && h.c_HashItemInfo[ib].len() == m
  invariant h.mem == h_2.mem.insert(bb, h.mem[bb]) && h.mem[bb].len() == tot(X, m) && h.c_hashItem == h0.c_hashItem && rng2 == items
  invariant i == tot(X, it2) && i <= tot(X, m) && h.mem[bb].subrange(0, i) == pbin(X, it2)
  invariant forall|j: int| 0 <= j < it2 ==> #[trigger] h.c_HashItemInfo[ib][j] == finfo(X, j)
 at loop 2 before { let ib = slot.ItemInfos.blk; let bb = slot.Bin.blk; assert(pbin(X, 0) =~= h.mem[bb].subrange(0, 0)); lem_tot_mono(X, 0, m); assert(m == X.len()); }
 at loop 2 begin { let gi = i; let gq = h.mem[bb]; let gt = h.c_HashItemInfo[ib]; assert(X[it2] == itm(h0, it_at(h0, items, it2))); assert(z_seq_mem(h, it_at(h0, items, it2).Key) =~= X[it2].k); assert(z_seq_mem(h, it_at(h0, items, it2).Value) =~= X[it2].v); lem_tot_mono(X, it2 + 1, m); lem_tot_mono(X, 0, it2); }
 at loop 2 end { assert(h.mem[bb].subrange(0, i) =~= gq.subrange(0, gi) + X[it2 - 1].k + X[it2 - 1].v);
   assert(h.c_HashItemInfo[ib][it2 - 1] == finfo(X, it2 - 1));
   assert forall|j: int| 0 <= j < it2 implies #[trigger] h.c_HashItemInfo[ib][j] == finfo(X, j) by { if j < it2 - 1 { assert(gt[j] == finfo(X, j)); } } split; }
 at exit {
   assert(m > 0 ==> z_slotinfos(h, t) =~= pinfos(X)) by { if m > 0 {
     assert forall|j: int| 0 <= j < m implies #[trigger] z_slotinfos(h, t)[j] == pinfo(X, j) by { assert(h.c_HashItemInfo[t.ItemInfos.blk][j] == (if j == m - 1 { T_HashItemInfo { ValueSize: 0, ..finfo(X, j) } } else { finfo(X, j) })); } } }
   if m > 0 { assert(z_seq_mem(h, t.Bin) =~= pbin(X, m)); lem_pinfos_range(h0, items0); lem_unpack(X); }
   else { assert(slt_items(h, t) =~= X); }
 }

func hashmap.unpackSlot(slot) (items)
 props C01 C04 C08 C11
 requires slt_ok(h, slot)
 modifies alloc c_hashItem
 ensures @C01 @C04 items: itms(h, items) == slt_items(h0, slot) && items.len == slot.ItemInfos.len && its_ok(h, items)
 ensures fresh: items == z_nil() || (items.blk == h0.nxt && items.ep == 0)
 ensures kept: forall|b: int| b < h0.nxt ==> #[trigger] h.c_hashItem[b] == h0.c_hashItem[b]
 ensures bins: forall|j: int| 0 <= j < items.len ==> { let t = #[trigger] it_at(h, items, j); t.Key.blk == slot.Bin.blk && t.Value.blk == slot.Bin.blk && t.Key.ep == slot.Bin.ep && t.Value.ep == slot.Bin.ep }
 at entry { let I = z_slotinfos(h0, slot0); let B = z_seq_mem(h0, slot0.Bin); let m = slot0.ItemInfos.len; }
 loop 1
  invariant h.c_hashItem == h_1.c_hashItem.insert(items.blk, h.c_hashItem[items.blk]) && h.c_hashItem[items.blk].len() == m
  invariant h.c_HashItemInfo == h0.c_HashItemInfo && rng1 == slot.ItemInfos && slot == slot0 && i == kofs(I, it1)
  invariant forall|j: int| 0 <= j < it1 ==> ualoc(I, slot0.Bin, #[trigger] h.c_hashItem[items.blk][j], j)
 at loop 1 begin { let gt = h.c_hashItem[items.blk]; assert(I[it1] == h.c_HashItemInfo[rng1.blk][rng1.off + it1]); lem_kofs_mono(I, it1, it1 + 1); lem_kofs_mono(I, it1 + 1, m); assert(info_in_range(I[it1])); }
 at loop 1 end { assert(ualoc(I, slot0.Bin, h.c_hashItem[items.blk][it1 - 1], it1 - 1));
   assert forall|j: int| 0 <= j < it1 implies ualoc(I, slot0.Bin, #[trigger] h.c_hashItem[items.blk][j], j) by { if j < it1 - 1 { assert(ualoc(I, slot0.Bin, gt[j], j)); } } split; }
 at loop 1 after { lem_kofs_mono(I, m, m); }
 at exit { if m > 0 {
     lem_kofs_mono(I, m, m);
     assert forall|j: int| 0 <= j < m implies it1_ok(h, #[trigger] it_at(h, items, j)) && itms(h, items)[j] == uitem(I, B, j)
       && it_at(h, items, j).Key.blk == slot.Bin.blk && it_at(h, items, j).Value.blk == slot.Bin.blk && it_at(h, items, j).Key.ep == slot.Bin.ep && it_at(h, items, j).Value.ep == slot.Bin.ep by {
       assert(info_in_range(I[j])); lem_kofs_mono(I, j, j + 1); lem_kofs_mono(I, j + 1, m); lem_kofs_mono(I, 0, j);
       if j < m - 1 { assert(ualoc(I, slot0.Bin, h.c_hashItem[items.blk][j], j)); } else { assert(ualocL(I, slot0.Bin, h.c_hashItem[items.blk][j], j)); }
       assert(z_seq_mem(h, it_at(h, items, j).Key) =~= uitem(I, B, j).k);
       assert(z_seq_mem(h, it_at(h, items, j).Value) =~= uitem(I, B, j).v); } }
   assert(itms(h, items) =~= slt_items(h0, slot)); }

func hashmap.HashMap.storeSlot(hm, slot) (a)
 props C01 C05 C08 C09
 requires slt_ok(h, slot) && slot.Bin.ep == 0 && slot.ItemInfos.ep == 0
 modifies mem alloc fs
 ensures empty: slot.ItemInfos.len == 0 ==> a == -1 && h == h0
 ensures @C08 @C09 space: slot.ItemInfos.len > 0 ==> a > 0 && z_i64ok(a) && !h0.sp.contains(a) && !h0.al.contains(a) && h.sp == h0.sp.insert(a) && h.al == h0.al && h.ep > h0.ep
 ensures @C01 @C05 content: slot.ItemInfos.len > 0 ==> slotP(h.mem[-1 - a]) && sitems(h.mem[-1 - a]) == slt_items(h0, slot)
 ensures mem_kept1(h0, h, -1 - a)
 at entry { let I = z_slotinfos(h0, slot0); let B = z_seq_mem(h0, slot0.Bin); ax_slot_codec(I, B); let E = enc_slot(I, B); lem_uvenc_bound(E.len() as int); }
 at exit { if slot.ItemInfos.len > 0 {
     let q = h.mem[-1 - a]; let l = E.len() as int; let w = uvenc(l).len() as int;
     assert(q.subrange(0, w) =~= uvenc(l)); assert(q =~= uvenc(l) + q.subrange(w, q.len() as int));
     lem_uvdec(l, q.subrange(w, q.len() as int));
     assert(sbody(q) =~= E);
   } }

func hashmap.HashMap.eraseSlot(hm, a)
 props C01 C08 C09
 requires @C08 @C09 a < 0 || h.sp.contains(a)
 modifies mem fs
 ensures a < 0 ==> h == h0
 ensures a >= 0 ==> h.sp == h0.sp.remove(a) && h.al == h0.al && h.ep > h0.ep && mem_kept1(h0, h, -1 - a)

func hashmap.HashMap.loadSlot(hm, a) (t)
 props C01 C04 C05 C08
 requires slotOK(h, a)
 modifies alloc c_HashItemInfo
 ensures content: slt_ok(h, t) && slt_items(h, t) == scon(h.mem, a) && t.ItemInfos.len == scon(h.mem, a).len() && t.ItemInfos.ep == 0
 ensures where: t.Bin == z_nil() || (a >= 0 && t.Bin.blk == -1 - a && t.Bin.ep == h.ep)
 at exit { if a >= 0 { let q = h.mem[-1 - a];
     assert(z_seq_mem(h0, z_access(h0, a)) =~= q);
     assert forall|j: int| 0 <= j < t.ItemInfos.len implies info_in_range(#[trigger] z_slotinfos(h, t)[j]) by { assert(info_in_range(dec_slot_i(sbody(q))[j])); } }
   else { assert(slt_items(h, t) =~= scon(h.mem, a)); } }

func hashmap.splitItems(items, bit) (a, b)
 props C01 C13
 requires its_ok(h, items) && items.ep == 0
 modifies alloc c_hashItem
 ensures low: itms(h, a) == filt(itms(h0, items), bit, false, items.len) && its_ok(h, a)
 ensures high: itms(h, b) == filt(itms(h0, items), bit, true, items.len) && its_ok(h, b)
 at entry { let X = itms(h0, items0); let m = items0.len; let bit = distinctKeySumBit; }
 loop 1
  invariant items == items0 && rng1 == items0 && 0 <= i <= it1 && h.c_hashItem[items.blk].len() == h0.c_hashItem[items.blk].len()
  invariant items2 == z_nil() || (items2.blk >= h0.nxt && items2.ep == 0 && items2.off == 0)
  invariant 0 <= items2.len <= items2.cap && items2.cap < 0x1_0000_0000_0000 && items2.off + items2.cap <= h.c_hashItem[items2.blk].len()
  invariant i == filt(X, bit, false, it1).len() && items2.len == filt(X, bit, true, it1).len()
  invariant forall|j: int| it1 <= j < m ==> #[trigger] it_at(h, items0, j) == it_at(h0, items0, j)
  invariant forall|j: int| 0 <= j < i ==> itm(h0, #[trigger] it_at(h, items0, j)) == filt(X, bit, false, it1)[j] && it1_ok(h0, it_at(h, items0, j))
  invariant forall|j: int| 0 <= j < items2.len ==> itm(h0, #[trigger] it_at(h, items2, j)) == filt(X, bit, true, it1)[j] && it1_ok(h0, it_at(h, items2, j))
 at loop 1 begin { let gh = h; let g2 = items2; let gi = i; assert(X[it1] == itm(h0, it_at(h0, items0, it1))); assert(it1_ok(h0, it_at(h0, items0, it1))); assert(it_at(h, items0, it1) == it_at(h0, items0, it1)); assert(it1_ok(h, it_at(h, items0, it1))); lem_filt_len(X, bit, false, it1); lem_filt_len(X, bit, true, it1);
   let on = hbit(X[it1], bit); assert(filt(X, bit, on, it1 + 1) == filt(X, bit, on, it1).push(X[it1]) && filt(X, bit, !on, it1 + 1) == filt(X, bit, !on, it1)); }
 at assign keySum#2 after { assert(keySum == hsum(X[it1])); }
 at assign keySum#3 after { assert(keySum == hsum(X[it1])); }
 at loop 1 end { split;
   assert forall|j: int| it1 <= j < m implies #[trigger] it_at(h, items0, j) == it_at(h0, items0, j) by { assert(it_at(gh, items0, j) == it_at(h0, items0, j)); }
   assert forall|j: int| 0 <= j < i implies itm(h0, #[trigger] it_at(h, items0, j)) == filt(X, bit, false, it1)[j] && it1_ok(h0, it_at(h, items0, j)) by { if j < gi { assert(it_at(h, items0, j) == it_at(gh, items0, j)); } }
   assert forall|j: int| 0 <= j < items2.len implies itm(h0, #[trigger] it_at(h, items2, j)) == filt(X, bit, true, it1)[j] && it1_ok(h0, it_at(h, items2, j)) by { if j < g2.len { assert(it_at(h, items2, j) == it_at(gh, g2, j)); } }
   split; }
 at exit {
   assert forall|j: int| 0 <= j < a.len implies #[trigger] itms(h, a)[j] == filt(X, bit, false, m)[j] && it1_ok(h, it_at(h, a, j)) by { assert(it_at(h, a, j) == it_at(h, items0, j)); }
   assert forall|j: int| 0 <= j < b.len implies #[trigger] itms(h, b)[j] == filt(X, bit, true, m)[j] && it1_ok(h, it_at(h, b, j)) by { }
   assert(itms(h, a) =~= filt(X, bit, false, m)); assert(itms(h, b) =~= filt(X, bit, true, m));
   assert forall|j: int| 0 <= j < a.len implies it1_ok(h, #[trigger] it_at(h, a, j)) by { assert(itms(h, a)[j] == filt(X, bit, false, m)[j]); }
   assert forall|j: int| 0 <= j < b.len implies it1_ok(h, #[trigger] it_at(h, b, j)) by { assert(itms(h, b)[j] == filt(X, bit, true, m)[j]); }
 }

func hashmap.mergeItems(items1, items2) (items)
 props C01 C13
 requires its_ok(h, items1) && its_ok(h, items2) && items1.ep == 0 && items2.ep == 0
 modifies alloc c_hashItem
 ensures merged: merged(itms(h, items), itms(h0, items1), itms(h0, items2)) && its_ok(h, items)
 ensures items.len == items1.len + items2.len
 at entry { let A = itms(h0, items10); let B = itms(h0, items20); let g1 = items10.len; let g2 = items20.len; assert(p2(1) == 2) by(compute); }
 loop 1
  invariant 0 <= i <= n && h.c_hashItem == h_1.c_hashItem.insert(items.blk, h.c_hashItem[items.blk]) && h.c_hashItem[items.blk].len() == g1 + g2
  invariant forall|j: int| 0 <= j < i ==> #[trigger] mergeT(h, items, items10, items20, j)
 at loop 1 before { let hm = h; }
 at loop 1 begin { let gh = h; lem_bit01(i, 0); lem_bit01(i, 1); assert(it1_ok(h0, it_at(h0, items10, i))); assert(it1_ok(h0, it_at(h0, items20, i))); assert(it_at(h, items10, i) == it_at(h0, items10, i) && it_at(h, items20, i) == it_at(h0, items20, i)); }
 at loop 1 after { let ha = h; }
 at assign j after { lem_band_pow(x, 0); }
 at loop 1 end {
   assert(mergeT(h, items, items10, items20, i - 1));
   assert forall|j: int| 0 <= j < i implies #[trigger] mergeT(h, items, items10, items20, j) by { if j < i - 1 { assert(mergeT(gh, items, items10, items20, j)); } }
   split; }
 at exit {
   assert forall|j: int| 0 <= j < z_min(g1, g2) implies #[trigger] mergePair(itms(h, items), A, B, j) && it1_ok(h, it_at(h, items, 2 * j)) && it1_ok(h, it_at(h, items, 2 * j + 1)) by {
     assert(mergeT(ha, items, items10, items20, j)); assert(it_at(h, items, 2 * j) == it_at(ha, items, 2 * j) && it_at(h, items, 2 * j + 1) == it_at(ha, items, 2 * j + 1));
     assert(it_at(ha, items10, j) == it_at(h0, items10, j) && it_at(ha, items20, j) == it_at(h0, items20, j));
     assert(it1_ok(h0, it_at(h0, items10, j))); assert(it1_ok(h0, it_at(h0, items20, j))); }
   split;
   assert forall|j: int| z_min(g1, g2) <= j < g1 implies itms(h, items)[z_min(g1, g2) + j] == #[trigger] A[j] && it1_ok(h, it_at(h, items, z_min(g1, g2) + j)) by {
     assert(it_at(h, items, z_min(g1, g2) + j) == it_at(h0, items10, j)); assert(it1_ok(h0, it_at(h0, items10, j))); }
   assert forall|j: int| z_min(g1, g2) <= j < g2 implies itms(h, items)[z_min(g1, g2) + j] == #[trigger] B[j] && it1_ok(h, it_at(h, items, z_min(g1, g2) + j)) by {
     assert(it_at(h, items, z_min(g1, g2) + j) == it_at(h0, items20, j)); assert(it1_ok(h0, it_at(h0, items20, j))); }
   split;
   assert forall|j: int| 0 <= j < items.len implies it1_ok(h, #[trigger] it_at(h, items, j)) by {
     let w = z_min(g1, g2);
     if j < 2 * w { assert(mergePair(itms(h, items), A, B, j / 2)); } else if g1 > g2 { assert(A[j - w] == itm(h0, it_at(h0, items10, j - w))); } else { assert(B[j - w] == itm(h0, it_at(h0, items20, j - w))); } }
 }

func hashmap.addrRef.Get(ar, fs) (v)
 props C01 C04 C08
 requires @C08 h.sp.contains(ar.ArrayAddr)
 requires 0 <= ar.ElementIndex && 8 * ar.ElementIndex + 8 <= h.mem[-1 - ar.ArrayAddr].len()
 ensures v == eA(h, ar.ArrayAddr, ar.ElementIndex)
 at entry { assert(p2(3) == 8) by(compute); }

func hashmap.addrRef.Set(ar, fs, v)
 props C01 C08
 requires @C08 h.sp.contains(ar.ArrayAddr)
 requires 0 <= ar.ElementIndex && 8 * ar.ElementIndex + 8 <= h.mem[-1 - ar.ArrayAddr].len()
 modifies mem
 ensures setE(h0, h, ar.ArrayAddr, ar.ElementIndex, v)
 at entry { assert(p2(3) == 8) by(compute); }

func hashmap.HashMap.locateSlotAddr(hm, s) (ar)
 props C01 C04 C08
 requires layD(h, hm) && 0 <= s < 4096 * hm.slotDirCount
 ensures ar.ArrayAddr == dA(h, hm, s / 4096) && ar.ElementIndex == s % 4096
 at entry { assert(p2(12) == 4096) by(compute); lem_band_mask(s, 12); }

func hashmap.HashMap.calculateSlotIndex(hm, x) (s)
 props C01 C04 C08
 requires geom(hm)
 ensures s == sidx(x, hm.slotCount, hm.minSlotCountShift) && 0 <= s < hm.slotCount
 at entry { let sh = hm.minSlotCountShift; lem_p2_pos(sh); assert(p2(sh + 1) == 2 * p2(sh)); lem_band_mask(keySum, sh + 1); lem_sidx(keySum, hm.slotCount, sh);
   lem_p2_64(); if sh >= 63 { lem_p2_mono(63, sh); } lem_p2_mono(sh + 1, 63);
   assert(0 <= keySum % p2(sh + 1) < p2(sh + 1)) by(nonlinear_arith) requires p2(sh + 1) >= 1; }

func hashmap.HashMap.calculateLowSlotIndex(hm, x) (s)
 props C01 C08 C13
 requires hm.minSlotCountShift >= 0 && p2(hm.minSlotCountShift) <= x < p2(hm.minSlotCountShift + 1)
 ensures s == x - p2(hm.minSlotCountShift)
 at entry { let sh = hm.minSlotCountShift; lem_p2_pos(sh); assert(p2(sh + 1) == 2 * p2(sh)); lem_andnot_pow(x, sh); lem_divmod(x, p2(sh), 1, x - p2(sh)); assert(p2(sh) * 1 == p2(sh)); }

func hashmap.HashMap.locateItem(hm, key, keySum) (t, i)
 props C01 C08 C09
 requires sumP(h, hm) && sl_ok(h, key) && keySum == fnv64a(z_seq_mem(h, key))
 modifies alloc c_HashItemInfo c_hashItem
 ensures where: { let s = sidx(keySum, hm.slotCount, hm.minSlotCountShift); isref(h, hm, t.SlotAddrRef, s) && t.SlotAddr == sA(h0, hm, s) && itms(h, t.Value) == hslots(h0, hm)[s] }
 ensures its_ok(h, t.Value) && (t.Value == z_nil() || (t.Value.blk >= h0.nxt && t.Value.ep == 0))
 ensures @C01 found: { let x = itms(h, t.Value); let k = z_seq_mem(h0, key); -1 <= i < x.len() && (i >= 0 ==> x[i].k == k) && (i < 0 ==> !hasKey(x, k)) }
 at entry { let s = sidx(keySum, hm.slotCount, hm.minSlotCountShift); lem_sidx(keySum, hm.slotCount, hm.minSlotCountShift); lem_slot_dir(hm, s);
   assert(slotOK(h, sA(h, hm, s))); let X = hslots(h, hm)[s]; let K = z_seq_mem(h, key); assert(slotIn(hslots(h, hm)[s], s, hm.slotCount, hm.minSlotCountShift)); }
 loop 1
  invariant h == h_1
  invariant forall|j: int| 0 <= j < it1 ==> (#[trigger] X[j]).k != K
 at loop 1 before { assert(itms(h, items.Value) == X); }
 at loop 1 begin { assert(it1_ok(h, it_at(h, items.Value, it1))); assert(X[it1] == itm(h, it_at(h, items.Value, it1))); assert(itOK(X[it1])); assert(z_seq_mem(h, key) =~= K); }
 at exit { assert(i >= 0 ==> itms(h, t.Value)[i].k == K); }

func hashmap.HashMap.restoreSlot(hm, a0, slot) (a)
 props C01 C05 C08 C09
 requires slt_ok(h, slot) && slot.Bin.ep == 0 && slot.ItemInfos.ep == 0 && (a0 < 0 || h.sp.contains(a0))
 modifies mem alloc fs
 ensures @C08 @C09 space: a == -1 || (a > 0 && z_i64ok(a) && (!h0.sp.contains(a) || a == a0) && !h0.al.contains(a) && h.sp.contains(a))
 ensures @C09 balance: forall|x: int| #[trigger] h.sp.contains(x) == ((h0.sp.contains(x) && (x != a0 || a0 < 0)) || (a > 0 && x == a))
 ensures @C01 @C05 content: slotOK(h, a) && scon(h.mem, a) == slt_items(h0, slot) && h.al == h0.al
 ensures forall|b: int| b < h0.nxt && (b >= 0 || b != -1 - a0) && (b >= 0 || b != -1 - a) ==> #[trigger] h.mem[b] == h0.mem[b]
 at exit { if a < 0 { assert(slt_items(h0, slot) =~= scon(h.mem, a)); } }

func hashmap.HashMap.flushItems(hm, t)
 props C01 C05 C08 C09
 requires lay(h, hm, -1) && its_ok(h, t.Value) && exists|s: int| #[trigger] isref(h, hm, t.SlotAddrRef, s) && t.SlotAddr == sA(h, hm, s)
 modifies mem alloc fs c_HashItemInfo t
 ensures lay(h, hm, -1)
 ensures @C01 @C05 slot: forall|s: int| #[trigger] isref(h0, hm, t0.SlotAddrRef, s) && t0.SlotAddr == sA(h0, hm, s) ==> hslots(h, hm) == hslots(h0, hm).update(s, itms(h0, t0.Value))
 ensures @C08 @C09 frame: outf(h0, ho(h0, hm), h, ho(h, hm))
 at entry { let s = choose|s: int| #[trigger] isref(h, hm, t.SlotAddrRef, s) && t.SlotAddr == sA(h, hm, s); let y = itms(h, t.Value);
   lem_lay_except(h, hm, s); lem_slot_dir(hm, s); assert(slotOK(h, sA(h, hm, s)));
   assert forall|u: int| #[trigger] isref(h, hm, t.SlotAddrRef, u) implies u == s by { lem_slot_dir(hm, u); lem_isref(h, hm, t.SlotAddrRef, s, u); } }
 at call restoreSlot before { let hp = h; assert(mem_kept(h0, hp)); split; assert forall|a: int| #[trigger] own(h0, hm, -1, a) implies keeps(h0, h, a) by { lem_own_sp(h0, hm, -1, a); } lem_lay_keep(h0, h, hm, -1); assert(sA(hp, hm, s) == sA(h0, hm, s)); assert(dA(hp, hm, s / 4096) == dA(h0, hm, s / 4096)); split; }
 at call restoreSlot after { let h1 = h; assert(restored(hp, h1, sA(h0, hm, s), items.SlotAddr)); lem_restore(hp, h1, hm, s, items.SlotAddr); }
 at exit { lem_restored(hp, h1, h, hm, s, t.SlotAddr); assert(scon(h1.mem, t.SlotAddr) == y);
   let o0 = ho(h0, hm); let op = ho(hp, hm);
   assert forall|x: int| #[trigger] op(x) == o0(x) by { assert(own(hp, hm, -1, x) == own(h0, hm, -1, x)); } }
