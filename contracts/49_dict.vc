func plainkv.Dict.Set(d, key, value, want) (v)
 props C01 C05 C08 C09 C10 C11 C13
 requires dP(h, d) && dTight(h, d) && sl_ok(h, key) && sl_ok(h, value)
 modifies mem alloc fs c_hashItem c_HashItemInfo d
 ensures @C08 @C10 @C13 state: dP(h, d)
 ensures @C09 tight: dTight(h, d)
 ensures @C01 map: forall|k: Seq<u8>| #[trigger] hget(h, d.hashMap, k) == (if k == z_seq_mem(h0, key) { Some(z_seq_mem(h0, value)) } else { hget(h0, d0.hashMap, k) })
 ensures @C01 value: if want && (hget(h0, d0.hashMap, z_seq_mem(h0, key)) is Some) { Some(z_seq_mem(h, v)) == hget(h0, d0.hashMap, z_seq_mem(h0, key)) } else { v == z_nil() }
 ensures @C11 fresh: v == z_nil() || (v.blk >= h0.nxt && v.ep == 0)

func plainkv.Dict.SetIfExists(d, key, value, want) (v, ok)
 props C01 C05 C08 C09 C10 C11 C13
 requires dP(h, d) && dTight(h, d) && sl_ok(h, key) && sl_ok(h, value)
 modifies mem alloc fs c_hashItem c_HashItemInfo d
 ensures @C08 @C10 @C13 state: dP(h, d)
 ensures @C09 tight: dTight(h, d)
 ensures @C01 map: forall|k: Seq<u8>| #[trigger] hget(h, d.hashMap, k) == (if k == z_seq_mem(h0, key) && hget(h0, d0.hashMap, z_seq_mem(h0, key)) is Some { Some(z_seq_mem(h0, value)) } else { hget(h0, d0.hashMap, k) })
 ensures @C01 ok: ok == (hget(h0, d0.hashMap, z_seq_mem(h0, key)) is Some)
 ensures @C01 value: if want && ok { Some(z_seq_mem(h, v)) == hget(h0, d0.hashMap, z_seq_mem(h0, key)) } else { v == z_nil() }
 ensures @C11 fresh: v == z_nil() || (v.blk >= h0.nxt && v.ep == 0)

func plainkv.Dict.SetIfNotExists(d, key, value, want) (v, ok)
 props C01 C05 C08 C09 C10 C11 C13
 requires dP(h, d) && dTight(h, d) && sl_ok(h, key) && sl_ok(h, value)
 modifies mem alloc fs c_hashItem c_HashItemInfo d
 ensures @C08 @C10 @C13 state: dP(h, d)
 ensures @C09 tight: dTight(h, d)
 ensures @C01 map: forall|k: Seq<u8>| #[trigger] hget(h, d.hashMap, k) == (if k == z_seq_mem(h0, key) && hget(h0, d0.hashMap, z_seq_mem(h0, key)) is None { Some(z_seq_mem(h0, value)) } else { hget(h0, d0.hashMap, k) })
 ensures @C01 ok: ok == (hget(h0, d0.hashMap, z_seq_mem(h0, key)) is None)
 ensures @C01 value: if want && !ok { Some(z_seq_mem(h, v)) == hget(h0, d0.hashMap, z_seq_mem(h0, key)) } else { v == z_nil() }
 ensures @C11 fresh: v == z_nil() || (v.blk >= h0.nxt && v.ep == 0)

func plainkv.Dict.Clear(d, key, want) (v, ok)
 props C01 C05 C08 C09 C10 C11 C13
 requires dP(h, d) && dTight(h, d) && sl_ok(h, key)
 modifies mem alloc fs c_hashItem c_HashItemInfo d
 ensures @C08 @C10 @C13 state: dP(h, d)
 ensures @C09 tight: dTight(h, d)
 ensures @C01 map: forall|k: Seq<u8>| #[trigger] hget(h, d.hashMap, k) == (if k == z_seq_mem(h0, key) { None } else { hget(h0, d0.hashMap, k) })
 ensures @C01 ok: ok == (hget(h0, d0.hashMap, z_seq_mem(h0, key)) is Some)
 ensures @C01 value: if want && ok { Some(z_seq_mem(h, v)) == hget(h0, d0.hashMap, z_seq_mem(h0, key)) } else { v == z_nil() }
 ensures @C11 fresh: v == z_nil() || (v.blk >= h0.nxt && v.ep == 0)

func plainkv.Dict.Test(d, key, want) (v, ok)
 props C01 C05 C08 C09 C10 C11 C13
 requires dP(h, d) && dTight(h, d) && sl_ok(h, key)
 modifies mem alloc c_hashItem c_HashItemInfo
 ensures @C08 @C10 @C13 state: dP(h, d)
 ensures @C09 tight: dTight(h, d)
 ensures @C01 map: forall|k: Seq<u8>| #[trigger] hget(h, d.hashMap, k) == (hget(h0, d0.hashMap, k))
 ensures @C01 ok: ok == (hget(h0, d0.hashMap, z_seq_mem(h0, key)) is Some)
 ensures @C01 value: if want && ok { Some(z_seq_mem(h, v)) == hget(h0, d0.hashMap, z_seq_mem(h0, key)) } else { v == z_nil() }
 ensures @C11 fresh: v == z_nil() || (v.blk >= h0.nxt && v.ep == 0)

func plainkv.Dict.Scan(d, c) (k, v, ok)
 props C04 C08 C09 C10 C11
 requires dP(h, d) && dTight(h, d) && curP(h, d.hashMap, c)
 modifies mem alloc c_hashItem c_HashItemInfo c
 ensures state: dP(h, d) && curP(h, d.hashMap, c) && dTight(h, d)
 ensures @C04 ok: ok == (todo(h0, d.hashMap, c0).len() > 0)
 ensures @C04 item: ok ==> z_seq_mem(h, k) == todo(h0, d.hashMap, c0)[0].k && z_seq_mem(h, v) == todo(h0, d.hashMap, c0)[0].v
 ensures @C04 rest: todo(h, d.hashMap, c) == (if ok { todo(h0, d.hashMap, c0).subrange(1, todo(h0, d.hashMap, c0).len() as int) } else { Seq::empty() })
 ensures @C04 same: hslots(h, d.hashMap) == hslots(h0, d.hashMap)
 ensures @C11 copies: k.ep == 0 && v.ep == 0

func plainkv.Dict.Stats(d) (s)
 props C10
 requires dP(h, d)
 ensures @C10 exact: s.NumberOfHashItems == nitems(hslots(h, d.hashMap), d.hashMap.slotCount) && s.PayloadSize == npay(hslots(h, d.hashMap), d.hashMap.slotCount) && s.NumberOfHashSlots == hslots(h, d.hashMap).len() && s.NumberOfHashSlotDirs == d.hashMap.slotDirCount

func plainkv.Dict.Close(d) (err)
 props C05 C08 C09 C10
 requires dP(h, d) && dTight(h, d)
 modifies mem alloc fs prim d
 ensures @C05 @C09 stored: err == 0 ==> dFile(h, d0.hashMap)
 ensures @C05 same: err == 0 ==> hslots(h, d0.hashMap) == hslots(h0, d0.hashMap) && forall|k: Seq<u8>| #[trigger] hget(h, d0.hashMap, k) == hget(h0, d0.hashMap, k)
 at call Store before { let ha = h; assert(outf(ha, ho(ha, d.hashMap), ha, ho(ha, d.hashMap))); }
 at call Store after { let hb = h; split; assert forall|a: int| #[trigger] hb.sp.contains(a) implies hoA(hb, d0.hashMap, hashMapInfoAddr)(a) by { if !hoA(hb, d0.hashMap, hashMapInfoAddr)(a) { assert(h0.sp.contains(a) && !ho(h0, d0.hashMap)(a)); } } split; }
 at exit { if err == 0 { lem_ro(hb, h, d0.hashMap); } if err == 0 { assert forall|x: int| #[trigger] ho(h, d0.hashMap)(x) == ho(hb, d0.hashMap)(x) by { } } }

func plainkv.OpenDict(name, create) (d, err)
 props C01 C05 C08 C09 C10
 requires dNoFile(h) || exists|m: T_HashMap| #[trigger] dFile(h, m)
 modifies mem alloc fs prim
 ensures @C08 @C10 state: err == 0 ==> dP(h, d)
 ensures @C09 tight: err == 0 ==> dTight(h, d)
 ensures @C05 new: err == 0 && dNoFile(h0) ==> forall|k: Seq<u8>| (#[trigger] hget(h, d.hashMap, k)) is None
 ensures @C05 loaded: err == 0 && !dNoFile(h0) ==> dFile(h0, d.hashMap) && hslots(h, d.hashMap) == hslots(h0, d.hashMap) && forall|k: Seq<u8>| #[trigger] hget(h, d.hashMap, k) == hget(h0, d.hashMap, k)
 at entry { let fresh = dNoFile(h); let m = choose|m: T_HashMap| #[trigger] dFile(h, m); }
 at call Load before { assert(!fresh); let hb = h; lem_ro(h0, hb, m); assert forall|x: int| #[trigger] ho(hb, m)(x) == ho(h0, m)(x) by { } assert(own(hb, m, -1, h0.prim) == ho(hb, m)(h0.prim)); assert(hmStored(hb, hb.prim, m)); split; }
 at call Load after { assert(d.hashMap == m); split; assert forall|x: int| #[trigger] h.sp.contains(x) implies own(h, m, -1, x) by { if !own(h, m, -1, x) { assert(!ho(h, m)(x)); assert(h0.sp.contains(x)); assert(hoA(h0, m, h0.prim)(x)); assert(ho(h0, m)(x) == ho(hb, m)(x)); assert(hoA(hb, m, h0.prim)(x)); } } split; }
