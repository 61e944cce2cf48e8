func hashmap.HashMap.FetchItem(hm, c) (k, v, ok)
 props C01 C04 C08 C11
 requires hmP(h, hm) && curP(h, hm, c)
 modifies mem alloc c_hashItem c_HashItemInfo c
 ensures state: hmP(h, hm) && curP(h, hm, c)
 ensures @C04 ok: ok == (todo(h0, hm, c0).len() > 0)
 ensures @C04 item: ok ==> z_seq_mem(h, k) == todo(h0, hm, c0)[0].k && z_seq_mem(h, v) == todo(h0, hm, c0)[0].v
 ensures @C04 rest: todo(h, hm, c) == (if ok { todo(h0, hm, c0).subrange(1, todo(h0, hm, c0).len() as int) } else { Seq::empty() })
 ensures @C04 same: hslots(h, hm) == hslots(h0, hm)
 ensures @C11 copies: k.ep == 0 && v.ep == 0
 ensures @C09 frame: outf(h0, ho(h0, hm), h, ho(h, hm))
 at entry { let X = hslots(h, hm); let T = todo(h, hm, c); let S = hm.slotCount; }
 loop 1
  invariant mem_kept(h0, h) && h.sp == h0.sp && h.al == h0.al && curP(h, hm, c) && c.itemIndex >= c.items.len && flat(X, c.slotIndex, S) == T
  decreases hm.slotCount - c.slotIndex
 at loop 1 begin { let hb = h; let cb = c; lem_ro(h0, h, hm); lem_slot_dir(hm, c.slotIndex); assert(slotOK(h, sA(h, hm, c.slotIndex))); assert(hslots(h, hm)[c.slotIndex] == X[c.slotIndex]); split; }
 at assign Bin after { split; let hc = h; let si = cb.slotIndex; assert(mem_kept(hb, h)); assert(slt_items(h, slot) == X[si] && slt_ok(h, slot) && slot.Bin.ep == 0); split; }
 at assign items after { assert(itms(h, c.items) == X[si]); assert forall|j: int| 0 <= j < c.items.len implies (#[trigger] it_at(h, c.items, j)).Key.ep == 0 && it_at(h, c.items, j).Value.ep == 0 by { } split; }
 at loop 1 end { assert(flat(X, si, S) =~= flat(X, si + 1, S)); split; }
 at exit { lem_ro(h0, h, hm); if ok { let q = itms(h, c.items); let j = c.itemIndex - 1; assert(it1_ok(h, it_at(h, c.items, j))); assert(q[j] == itm(h, it_at(h, c.items, j))); assert(T =~= seq![q[j]] + todo(h, hm, c)); assert(T.subrange(1, T.len() as int) =~= todo(h, hm, c)); } else { assert(todo(h, hm, c) =~= Seq::empty()); } }

func hashmap.HashMap.Create(hm)
 props C01 C04 C05 C08 C09 C10 C13
 requires hmNew(hm, hm.fileStorage)
 modifies mem fs hm
 ensures @C08 @C10 @C13 state: hmP(h, hm) && hm.itemCount == 0 && hm.payloadSize == 0 && hm.fileStorage == hm0.fileStorage
 ensures @C01 @C05 empty: forall|k: Seq<u8>| (#[trigger] hget(h, hm, k)) is None
 ensures @C09 frame: outf(h0, noown(), h, ho(h, hm))
 at entry { assert(p2(3) == 8) by(compute); assert(p2(0) == 1 && p2(1) == 2) by(compute); assert(p2(12) == 4096) by(compute); }
 at exit { let X = hslots(h, hm); assert(dA(h, hm, 0) == slotDirAddr); assert(sA(h, hm, 0) == -1); split; assert(X =~= seq![Seq::<Itm>::empty()]); assert(nitems(X, 0) == 0 && npay(X, 0) == 0); assert(tota(X[0]) == 0); assert(nitems(X, 1) == 0 && npay(X, 1) == 0); split;
   assert forall|x: int| #[trigger] own(h, hm, -1, x) == (x >= 0 && (x == slotDirsAddr || x == slotDirAddr)) by { if x == slotDirAddr { assert(x == dA(h, hm, 0)); } } split; }

func hashmap.HashMap.Destroy(hm)
 props C05 C08 C09 C10
 requires hmP(h, hm) && hm.itemCount == 0
 modifies mem fs hm
 ensures @C10 reset: hmNew(hm, hm0.fileStorage)
 ensures @C09 freed: outf(h0, ho(h0, hm0), h, noown())
 at entry { let X = hslots(h, hm); let hma = hm; lem_p2_pos(hm.minSlotCountShift); assert(hm.slotCount == 1 && hm.slotDirCount == 1); assert(nitems(X, 1) == nitems(X, 0) + X[0].len()); assert(nitems(X, 0) == 0); assert(slotOK(h, sA(h, hm, 0))); assert(X[0] == scon(h.mem, sA(h, hm, 0))); assert(sA(h, hm, 0) < 0); assert(h.sp.contains(dA(h, hm, 0)));
   assert forall|x: int| #[trigger] own(h, hm, -1, x) == (x >= 0 && (x == hm.slotDirsAddr || x == dA(h, hm, 0))) by { if ownS(h, hm, -1, x) { let s = choose|s: int| 0 <= s < hm.slotCount && s != -1 && x == #[trigger] sA(h, hm, s); } if x == dA(h, hm, 0) { assert(ownD(h, hm, x)); } if ownD(h, hm, x) && x != hm.slotDirsAddr { let d = choose|d: int| 0 <= d < hm.slotDirCount && x == #[trigger] dA(h, hm, d); } } }

func hashmap.HashMap.Store(hm) (a)
 props C05 C08 C09 C10
 requires hmP(h, hm)
 modifies mem alloc fs hm
 ensures @C05 @C10 stored: hmStored(h, a, hm0)
 ensures @C05 same: hslots(h, hm0) == hslots(h0, hm0) && forall|k: Seq<u8>| #[trigger] hget(h, hm0, k) == hget(h0, hm0, k)
 ensures reset: hmNew(hm, hm0.fileStorage)
 ensures @C09 frame: outf(h0, ho(h0, hm0), h, hoA(h, hm0, a))
 at entry { let M = T_HashMapInfo { SlotDirsAddr: hm.slotDirsAddr, SlotDirCount: hm.slotDirCount, MaxSlotDirCountShift: hm.maxSlotDirCountShift, SlotCount: hm.slotCount, MinSlotCountShift: hm.minSlotCountShift, ItemCount: hm.itemCount, PayloadSize: hm.payloadSize }; }
 at call AllocateSpace before { let B = buffer; ax_msg_codec(M, Seq::empty()); assert(B =~= encmsg_HashMapInfo(M)); }
 at exit { let q = h.mem[-1 - a]; assert(q.subrange(0, B.len() as int) =~= B); let rest = q.subrange(B.len() as int, q.len() as int); assert(q =~= B + rest);
   ax_msg_codec(M, rest); assert(hmOf(M, hm0.fileStorage) == hm0); assert(decmsg_HashMapInfo(q) == (M, 0int)); assert(msg_ok(M)); assert(h.sp.contains(a)); assert(z_i64ok(a));
   assert forall|x: int| #[trigger] own(h0, hm0, -1, x) implies keeps(h0, h, x) && x != a by { lem_own_sp(h0, hm0, -1, x); } lem_lay_keep(h0, h, hm0, -1); assert(!own(h0, hm0, -1, a)) by { if own(h0, hm0, -1, a) { lem_own_sp(h0, hm0, -1, a); } } assert(own(h, hm0, -1, a) == own(h0, hm0, -1, a)); assert(hmP(h, hm0)); 
   split; assert forall|x: int| #[trigger] hoA(h, hm0, a)(x) == (ho(h0, hm0)(x) || x == a) by { assert(own(h, hm0, -1, x) == own(h0, hm0, -1, x)); } }

func hashmap.HashMap.Load(hm, a)
 props C05 C08 C09 C10
 requires hmNew(hm, hm.fileStorage) && exists|m: T_HashMap| #[trigger] hmStored(h, a, m) && m.fileStorage == hm.fileStorage
 modifies mem fs hm
 ensures @C05 @C08 @C10 loaded: hmStored(h0, a, hm) && hmP(h, hm) && hm.fileStorage == hm0.fileStorage
 ensures @C05 same: hslots(h, hm) == hslots(h0, hm) && forall|k: Seq<u8>| #[trigger] hget(h, hm, k) == hget(h0, hm, k)
 ensures @C09 frame: outf(h0, hoA(h0, hm, a), h, ho(h, hm))
 at entry { let m = choose|m: T_HashMap| #[trigger] hmStored(h, a, m) && m.fileStorage == hm.fileStorage; let ga = a; }
 at call AccessSpace after { assert(buffer =~= h.mem[-1 - ga]); }
 at exit { assert(hm == m); assert forall|x: int| #[trigger] own(h0, m, -1, x) implies keeps(h0, h, x) && x != ga by { lem_own_sp(h0, m, -1, x); } lem_lay_keep(h0, h, m, -1); split;
   assert forall|x: int| #[trigger] hoA(h0, m, ga)(x) == (ho(h, m)(x) || x == ga) by { assert(own(h, m, -1, x) == own(h0, m, -1, x)); } assert(own(h, m, -1, ga) == own(h0, m, -1, ga)); }

func hashmap.HashMap.NumberOfItems(hm) (n)
 props C10
 requires hmP(h, hm)
 ensures @C10 exact: n == nitems(hslots(h, hm), hm.slotCount)

func hashmap.HashMap.PayloadSize(hm) (n)
 props C10
 requires hmP(h, hm)
 ensures @C10 exact: n == npay(hslots(h, hm), hm.slotCount)

func hashmap.HashMap.NumberOfSlots(hm) (n)
 props C10
 requires hmP(h, hm)
 ensures @C10 exact: n == hslots(h, hm).len()

func hashmap.HashMap.NumberOfSlotDirs(hm) (n)
 props C10 C13
 requires hmP(h, hm)
 ensures @C10 exact: n == hm.slotDirCount && n >= 1 && 4096 * n >= hm.slotCount && (n >= 2 ==> hm.slotCount > 4096 * (n - 2) + 1)

func hashmap.HashMap.MaxNumberOfSlotDirs(hm) (n)
 props C10
 requires hmP(h, hm)
 ensures @C10 exact: n == p2(hm.maxSlotDirCountShift) && n >= hm.slotDirCount

func hashmap.HashMap.MinNumberOfSlots(hm) (n)
 props C10
 requires hmP(h, hm)
 ensures @C10 exact: n == p2(hm.minSlotCountShift) && n <= hm.slotCount < p2(hm.minSlotCountShift + 1)
