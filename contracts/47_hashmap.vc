func hashmap.HashMap.postAddItem(hm)
 props C01 C05 C08 C09 C10 C13
 requires sumP(h, hm)
 modifies mem alloc fs c_hashItem c_HashItemInfo hm
 ensures @C01 @C08 @C13 state: sumP(h, hm)
 ensures @C01 @C05 same: forall|k: Seq<u8>| #[trigger] hget(h, hm, k) == hget(h0, hm0, k)
 ensures @C10 counts: nitems(hslots(h, hm), hm.slotCount) == nitems(hslots(h0, hm0), hm0.slotCount) && npay(hslots(h, hm), hm.slotCount) == npay(hslots(h0, hm0), hm0.slotCount)
 ensures @C10 fields: hm.itemCount == hm0.itemCount + 1 && hm.payloadSize == hm0.payloadSize && hm.fileStorage == hm0.fileStorage
 ensures @C13 load: ldHi(hm) && (ldLo(hm0) ==> ldLo(hm))
 ensures @C09 frame: outf(h0, ho(h0, hm0), h, ho(h, hm))
 at call maybeExpand before { let hm2 = hm; lem_same_lay(h, hm0, hm2); split; assert forall|x: int| #[trigger] ho(h, hm0)(x) == ho(h, hm2)(x) by { assert(own(h, hm2, -1, x) == own(h, hm0, -1, x)); } 
   assert(outf(h0, ho(h0, hm0), h, ho(h, hm2))); assert forall|k: Seq<u8>| #[trigger] hget(h, hm2, k) == hget(h0, hm0, k) by { } split; }
 at exit { lem_outf_trans(h0, ho(h0, hm0), h0, ho(h0, hm2), h, ho(h, hm)); }

func hashmap.HashMap.postDeleteItem(hm)
 props C01 C05 C08 C09 C10 C13
 requires sumP(h, hm)
 modifies mem alloc fs c_hashItem c_HashItemInfo hm
 ensures @C01 @C08 @C13 state: sumP(h, hm)
 ensures @C01 @C05 same: forall|k: Seq<u8>| #[trigger] hget(h, hm, k) == hget(h0, hm0, k)
 ensures @C10 counts: nitems(hslots(h, hm), hm.slotCount) == nitems(hslots(h0, hm0), hm0.slotCount) && npay(hslots(h, hm), hm.slotCount) == npay(hslots(h0, hm0), hm0.slotCount)
 ensures @C10 fields: hm.itemCount == hm0.itemCount - 1 && hm.payloadSize == hm0.payloadSize && hm.fileStorage == hm0.fileStorage
 ensures @C13 load: ldLo(hm) && (ldHi(hm0) ==> ldHi(hm))
 ensures @C09 frame: outf(h0, ho(h0, hm0), h, ho(h, hm))
 at call maybeShrink before { let hm2 = hm; lem_same_lay(h, hm0, hm2); split; assert forall|x: int| #[trigger] ho(h, hm0)(x) == ho(h, hm2)(x) by { assert(own(h, hm2, -1, x) == own(h, hm0, -1, x)); } 
   assert(outf(h0, ho(h0, hm0), h, ho(h, hm2))); assert forall|k: Seq<u8>| #[trigger] hget(h, hm2, k) == hget(h0, hm0, k) by { } split; }
 at exit { lem_outf_trans(h0, ho(h0, hm0), h0, ho(h0, hm2), h, ho(h, hm)); }

func hashmap.HashMap.getValue(hm, t, i, doIt) (v)
 props C01 C04 C11
 requires its_ok(h, t.Value) && 0 <= i < t.Value.len
 modifies mem alloc
 ensures @C01 @C04 value: doIt ==> z_seq_mem(h, v) == itms(h0, t.Value)[i].v
 ensures none: !doIt ==> v == z_nil()
 ensures @C11 fresh: v == z_nil() || (v.blk == h0.nxt && v.ep == 0)
 ensures mem_kept(h0, h)
 at entry { assert(it1_ok(h, it_at(h, t.Value, i))); }

func hashmap.HashMap.appendItem(hm, t, e)
 props C01 C04 C05 C08 C09 C10 C13
 requires hmP(h, hm) && it1_ok(h, e) && e.KeySum == fnv64a(z_seq_mem(h, e.Key)) && locd(h, hm, t, z_seq_mem(h, e.Key)) && !hasKey(itms(h, t.Value), z_seq_mem(h, e.Key))
 modifies mem alloc fs c_hashItem c_HashItemInfo hm t e
 ensures @C08 @C10 @C13 state: hmP(h, hm)
 ensures @C01 @C04 @C05 map: forall|k: Seq<u8>| #[trigger] hget(h, hm, k) == (if k == z_seq_mem(h0, e0.Key) { Some(z_seq_mem(h0, e0.Value)) } else { hget(h0, hm0, k) })
 ensures @C10 fields: hm.itemCount == hm0.itemCount + 1 && hm.payloadSize == hm0.payloadSize + e0.Key.len + e0.Value.len && hm.fileStorage == hm0.fileStorage
 ensures @C13 load: ldHi(hm)
 ensures @C09 frame: outf(h0, ho(h0, hm0), h, ho(h, hm))
 at entry { let K = z_seq_mem(h, e.Key); let V = z_seq_mem(h, e.Value); let X = hslots(h, hm); let sh = hm.minSlotCountShift; let s = sidx(fnv64a(K), hm.slotCount, sh); let x = X[s];
   lem_fnv(K); lem_sidx(fnv64a(K), hm.slotCount, sh); lem_put(X, sh, K, V); split; }
 at call flushItems before { let hm1 = hm; let ha = h; lem_same_lay(h0, hm0, hm1); split; assert(mem_kept(h0, ha)); assert forall|a: int| #[trigger] own(h0, hm1, -1, a) implies keeps(h0, h, a) by { lem_own_sp(h0, hm1, -1, a); } lem_lay_keep(h0, h, hm1, -1); split; assert(itms(h, t.Value) =~= x.push(mkItm(K, V))); assert forall|j: int| 0 <= j < t.Value.len implies it1_ok(h, #[trigger] it_at(h, t.Value, j)) by { if j < x.len() { assert(it1_ok(h0, it_at(h0, t0.Value, j))); } } assert(isref(h, hm, t.SlotAddrRef, s)); split; }
 at call flushItems after { let h1 = h; assert(hslots(h, hm) == X.update(s, x.push(mkItm(K, V)))); split; }
 at call postAddItem before { let hm2 = hm; lem_same_lay(h, hm1, hm2); split; assert forall|x: int| #[trigger] ho(ha, hm1)(x) == ho(h0, hm0)(x) by { assert(own(ha, hm1, -1, x) == own(h0, hm1, -1, x)); assert(own(h0, hm1, -1, x) == own(h0, hm0, -1, x)); } split; assert(outf(h0, ho(h0, hm0), h1, ho(h1, hm1))); split; }
 at exit { lem_outf_trans(h0, ho(h0, hm0), h1, ho(h1, hm1), h, ho(h, hm)); }

func hashmap.HashMap.replaceValue(hm, t, i, nv, want) (v)
 props C01 C04 C05 C08 C09 C10 C11
 requires hmP(h, hm) && 0 <= i < t.Value.len && locd(h, hm, t, itms(h, t.Value)[i].k) && sl_ok(h, nv)
 modifies mem alloc fs c_hashItem c_HashItemInfo hm t
 ensures @C08 @C10 @C13 state: hmP(h, hm)
 ensures @C01 @C04 @C05 map: { let K = itms(h0, t0.Value)[i].k; hget(h0, hm0, K) == Some(itms(h0, t0.Value)[i].v) && forall|k: Seq<u8>| #[trigger] hget(h, hm, k) == (if k == K { Some(z_seq_mem(h0, nv)) } else { hget(h0, hm0, k) }) }
 ensures @C10 fields: hm == (T_HashMap { payloadSize: hm0.payloadSize + nv.len - itms(h0, t0.Value)[i].v.len(), ..hm0 })
 ensures @C01 replaced: want ==> z_seq_mem(h, v) == itms(h0, t0.Value)[i].v
 ensures none: !want ==> v == z_nil()
 ensures @C11 fresh: v == z_nil() || (v.blk >= h0.nxt && v.ep == 0)
 ensures @C09 frame: outf(h0, ho(h0, hm0), h, ho(h, hm))
 at entry { let x = itms(h, t.Value); let K = x[i].k; let V = z_seq_mem(h, nv); let X = hslots(h, hm); let sh = hm.minSlotCountShift; let s = sidx(fnv64a(K), hm.slotCount, sh);
   lem_fnv(K); lem_sidx(fnv64a(K), hm.slotCount, sh); lem_upd(X, sh, i, V, K); assert(it1_ok(h, it_at(h, t.Value, i))); assert(x[i] == itm(h, it_at(h, t.Value, i))); split; }
 at call flushItems before { let hm1 = hm; let ha = h; let w = value; lem_same_lay(h0, hm0, hm1); split; assert(mem_kept(h0, ha)); assert(want ==> z_seq_mem(h, w) == x[i].v); assert forall|a: int| #[trigger] own(h0, hm1, -1, a) implies keeps(h0, h, a) by { lem_own_sp(h0, hm1, -1, a); } lem_lay_keep(h0, h, hm1, -1); split;
   assert forall|j: int| 0 <= j < t.Value.len implies it1_ok(h, #[trigger] it_at(h, t.Value, j)) && itm(h, it_at(h, t.Value, j)) == (if j == i { Itm { v: V, ..x[i] } } else { x[j] }) by {
     let a = it_at(h, t.Value, j); let b = it_at(h0, t.Value, j); assert(it1_ok(h0, b)); assert(x[j] == itm(h0, b)); assert(a == (if j == i { T_hashItem { Value: nv0, ..b } } else { b })); assert(z_seq_mem(h, a.Key) =~= z_seq_mem(h0, a.Key)); assert(z_seq_mem(h, a.Value) =~= z_seq_mem(h0, a.Value)); }
   assert(itms(h, t.Value) =~= x.update(i, Itm { v: V, ..x[i] })); split; assert(isref(h, hm, t.SlotAddrRef, s)); split; }
 at call flushItems after { let h1 = h; assert(hslots(h, hm) == X.update(s, x.update(i, Itm { v: V, ..x[i] }))); assert forall|x: int| #[trigger] ho(ha, hm1)(x) == ho(h0, hm0)(x) by { assert(own(ha, hm1, -1, x) == own(h0, hm1, -1, x)); assert(own(h0, hm1, -1, x) == own(h0, hm0, -1, x)); } split; assert(outf(h0, ho(h0, hm0), h1, ho(h1, hm1))); split; }

func hashmap.HashMap.removeItem(hm, t, i, want) (v)
 props C01 C04 C05 C08 C09 C10 C11 C13
 requires hmP(h, hm) && 0 <= i < t.Value.len && locd(h, hm, t, itms(h, t.Value)[i].k)
 modifies mem alloc fs c_hashItem c_HashItemInfo hm t
 ensures @C08 @C10 @C13 state: hmP(h, hm)
 ensures @C01 @C04 @C05 map: { let K = itms(h0, t0.Value)[i].k; hget(h0, hm0, K) == Some(itms(h0, t0.Value)[i].v) && forall|k: Seq<u8>| #[trigger] hget(h, hm, k) == (if k == K { None } else { hget(h0, hm0, k) }) }
 ensures @C10 fields: hm.itemCount == hm0.itemCount - 1 && hm.payloadSize == hm0.payloadSize - itms(h0, t0.Value)[i].k.len() - itms(h0, t0.Value)[i].v.len() && hm.fileStorage == hm0.fileStorage
 ensures @C01 removed: want ==> z_seq_mem(h, v) == itms(h0, t0.Value)[i].v
 ensures none: !want ==> v == z_nil()
 ensures @C11 fresh: v == z_nil() || (v.blk >= h0.nxt && v.ep == 0)
 ensures @C13 load: ldLo(hm)
 ensures @C09 frame: outf(h0, ho(h0, hm0), h, ho(h, hm))
 at entry { let x = itms(h, t.Value); let K = x[i].k; let X = hslots(h, hm); let sh = hm.minSlotCountShift; let s = sidx(fnv64a(K), hm.slotCount, sh);
   lem_fnv(K); lem_sidx(fnv64a(K), hm.slotCount, sh); lem_del(X, sh, i, K); assert(it1_ok(h, it_at(h, t.Value, i))); assert(x[i] == itm(h, it_at(h, t.Value, i))); split; }
 loop 1
  invariant i + 1 <= j <= t0.Value.len && t == t0 && n == t0.Value.len && h.c_hashItem[t0.Value.blk].len() == h0.c_hashItem[t0.Value.blk].len()
  invariant forall|a: int| 0 <= a < t0.Value.len ==> #[trigger] it_at(h, t0.Value, a) == (if i <= a < j - 1 { it_at(h0, t0.Value, a + 1) } else { it_at(h0, t0.Value, a) })
 at loop 1 before { split; let hb = h; let w = value; assert(mem_kept(h0, h)); assert(want ==> z_seq_mem(h, w) == x[i].v); split; }
 at loop 1 begin { let gh = h; }
 at loop 1 end { assert forall|a: int| 0 <= a < t0.Value.len implies #[trigger] it_at(h, t0.Value, a) == (if i <= a < j - 1 { it_at(h0, t0.Value, a + 1) } else { it_at(h0, t0.Value, a) }) by { assert(it_at(h, t0.Value, a) == (if a == j - 2 { it_at(gh, t0.Value, a + 1) } else { it_at(gh, t0.Value, a) })); } split; }
 at call flushItems before { let hm1 = hm; let ha = h; lem_same_lay(h0, hm0, hm1); split; assert(mem_kept(h0, ha)); assert forall|a: int| #[trigger] own(h0, hm1, -1, a) implies keeps(h0, h, a) by { lem_own_sp(h0, hm1, -1, a); } lem_lay_keep(h0, h, hm1, -1); split;
   assert forall|j: int| 0 <= j < t.Value.len implies it1_ok(h, #[trigger] it_at(h, t.Value, j)) && itm(h, it_at(h, t.Value, j)) == x.remove(i)[j] by {
     let c = if j < i { j } else { j + 1 }; let a = it_at(h, t.Value, j); let b = it_at(h0, t0.Value, c); assert(a == it_at(h, t0.Value, j)); assert(it1_ok(h0, b)); assert(x[c] == itm(h0, b)); assert(a == b); assert(z_seq_mem(h, a.Key) =~= z_seq_mem(h0, a.Key)); assert(z_seq_mem(h, a.Value) =~= z_seq_mem(h0, a.Value)); }
   assert(itms(h, t.Value) =~= x.remove(i)); split; assert(isref(h, hm, t.SlotAddrRef, s)); split; }
 at call flushItems after { let h1 = h; assert(hslots(h, hm) == X.update(s, x.remove(i))); assert forall|x: int| #[trigger] ho(ha, hm1)(x) == ho(h0, hm0)(x) by { assert(own(ha, hm1, -1, x) == own(h0, hm1, -1, x)); assert(own(h0, hm1, -1, x) == own(h0, hm0, -1, x)); } split; assert(outf(h0, ho(h0, hm0), h1, ho(h1, hm1))); split; }
 at exit { lem_outf_trans(h0, ho(h0, hm0), h1, ho(h1, hm1), h, ho(h, hm)); }

# ---- the operations of the map ----------------------------------------------------------

func hashmap.HashMap.AddItem(hm, key, value, want) (v, ok)
 props C01 C04 C05 C08 C09 C10 C11 C13
 requires hmP(h, hm) && sl_ok(h, key) && sl_ok(h, value)
 modifies mem alloc fs c_hashItem c_HashItemInfo hm
 ensures @C08 @C10 @C13 state: hmP(h, hm)
 ensures @C01 @C04 @C05 map: forall|k: Seq<u8>| #[trigger] hget(h, hm, k) == (if k == z_seq_mem(h0, key) && hget(h0, hm0, z_seq_mem(h0, key)) is None { Some(z_seq_mem(h0, value)) } else { hget(h0, hm0, k) })
 ensures @C01 ok: ok == (hget(h0, hm0, z_seq_mem(h0, key)) is None)
 ensures @C01 value: if want && !ok { Some(z_seq_mem(h, v)) == hget(h0, hm0, z_seq_mem(h0, key)) } else { v == z_nil() }
 ensures @C11 fresh: v == z_nil() || (v.blk >= h0.nxt && v.ep == 0)
 ensures @C10 fields: hm.fileStorage == hm0.fileStorage && hm.itemCount == hm0.itemCount + (if ok { 1int } else { 0 })
 ensures @C13 load: !ok || ldHi(hm)
 ensures @C09 frame: outf(h0, ho(h0, hm0), h, ho(h, hm))
 at entry { let K = z_seq_mem(h, key); let V = z_seq_mem(h, value); let s = sidx(fnv64a(K), hm.slotCount, hm.minSlotCountShift); lem_fnv(K); lem_sidx(fnv64a(K), hm.slotCount, hm.minSlotCountShift); assert(distinct(hslots(h, hm)[s])); }
 at call locateItem after { let hl = h; let li = i; let x = itms(h, items.Value); assert(x == hslots(h0, hm)[s]); split;
   assert(mem_kept(h0, hl)); assert forall|a: int| #[trigger] own(h0, hm, -1, a) implies keeps(h0, h, a) by { lem_own_sp(h0, hm, -1, a); } lem_lay_keep(h0, h, hm, -1); split;
   assert(outf(h0, ho(h0, hm), h, ho(h, hm))) by { assert forall|x: int| #[trigger] ho(h, hm)(x) == ho(h0, hm)(x) by { assert(own(h, hm, -1, x) == own(h0, hm, -1, x)); } }
   assert(hmP(h, hm)); assert forall|k: Seq<u8>| #[trigger] hget(h, hm, k) == hget(h0, hm, k) by { }
   split; if li >= 0 { lem_slk_at(x, li); assert(hget(h0, hm, K) == Some(x[li].v)); lem_isref_sA(h0, h, hm, items.SlotAddrRef, s); assert(locd(h, hm, items, K)); } else { assert(hget(h0, hm, K) is None); lem_isref_sA(h0, h, hm, items.SlotAddrRef, s); assert(locd(h, hm, items, K)); } split; }
 at call getValue result { let hg = h; assert(mem_kept(hl, hg)); lem_ro(hl, hg, hm); split; }
 at exit { lem_outf_trans(h0, ho(h0, hm0), hl, ho(hl, hm0), h, ho(h, hm)); }

func hashmap.HashMap.UpdateItem(hm, key, value, want) (v, ok)
 props C01 C04 C05 C08 C09 C10 C11 C13
 requires hmP(h, hm) && sl_ok(h, key) && sl_ok(h, value)
 modifies mem alloc fs c_hashItem c_HashItemInfo hm
 ensures @C08 @C10 @C13 state: hmP(h, hm)
 ensures @C01 @C04 @C05 map: forall|k: Seq<u8>| #[trigger] hget(h, hm, k) == (if k == z_seq_mem(h0, key) && hget(h0, hm0, z_seq_mem(h0, key)) is Some { Some(z_seq_mem(h0, value)) } else { hget(h0, hm0, k) })
 ensures @C01 ok: ok == (hget(h0, hm0, z_seq_mem(h0, key)) is Some)
 ensures @C01 value: if want && ok { Some(z_seq_mem(h, v)) == hget(h0, hm0, z_seq_mem(h0, key)) } else { v == z_nil() }
 ensures @C11 fresh: v == z_nil() || (v.blk >= h0.nxt && v.ep == 0)
 ensures @C10 fields: hm.fileStorage == hm0.fileStorage && hm.itemCount == hm0.itemCount
 ensures @C13 load: hm.slotCount == hm0.slotCount && hm.itemCount == hm0.itemCount
 ensures @C09 frame: outf(h0, ho(h0, hm0), h, ho(h, hm))
 at entry { let K = z_seq_mem(h, key); let V = z_seq_mem(h, value); let s = sidx(fnv64a(K), hm.slotCount, hm.minSlotCountShift); lem_fnv(K); lem_sidx(fnv64a(K), hm.slotCount, hm.minSlotCountShift); assert(distinct(hslots(h, hm)[s])); }
 at call locateItem after { let hl = h; let li = i; let x = itms(h, items.Value); assert(x == hslots(h0, hm)[s]); split;
   assert(mem_kept(h0, hl)); assert forall|a: int| #[trigger] own(h0, hm, -1, a) implies keeps(h0, h, a) by { lem_own_sp(h0, hm, -1, a); } lem_lay_keep(h0, h, hm, -1); split;
   assert(outf(h0, ho(h0, hm), h, ho(h, hm))) by { assert forall|x: int| #[trigger] ho(h, hm)(x) == ho(h0, hm)(x) by { assert(own(h, hm, -1, x) == own(h0, hm, -1, x)); } }
   assert(hmP(h, hm)); assert forall|k: Seq<u8>| #[trigger] hget(h, hm, k) == hget(h0, hm, k) by { }
   split; if li >= 0 { lem_slk_at(x, li); assert(hget(h0, hm, K) == Some(x[li].v)); lem_isref_sA(h0, h, hm, items.SlotAddrRef, s); assert(locd(h, hm, items, K)); } else { assert(hget(h0, hm, K) is None); lem_isref_sA(h0, h, hm, items.SlotAddrRef, s); assert(locd(h, hm, items, K)); } split; }
 at exit { lem_outf_trans(h0, ho(h0, hm0), hl, ho(hl, hm0), h, ho(h, hm)); }

func hashmap.HashMap.AddOrUpdateItem(hm, key, value, want) (v, ok)
 props C01 C04 C05 C08 C09 C10 C11 C13
 requires hmP(h, hm) && sl_ok(h, key) && sl_ok(h, value)
 modifies mem alloc fs c_hashItem c_HashItemInfo hm
 ensures @C08 @C10 @C13 state: hmP(h, hm)
 ensures @C01 @C04 @C05 map: forall|k: Seq<u8>| #[trigger] hget(h, hm, k) == (if k == z_seq_mem(h0, key) { Some(z_seq_mem(h0, value)) } else { hget(h0, hm0, k) })
 ensures @C01 ok: ok == (hget(h0, hm0, z_seq_mem(h0, key)) is None)
 ensures @C01 value: if want && !ok { Some(z_seq_mem(h, v)) == hget(h0, hm0, z_seq_mem(h0, key)) } else { v == z_nil() }
 ensures @C11 fresh: v == z_nil() || (v.blk >= h0.nxt && v.ep == 0)
 ensures @C10 fields: hm.fileStorage == hm0.fileStorage && hm.itemCount == hm0.itemCount + (if ok { 1int } else { 0 })
 ensures @C13 load: if ok { ldHi(hm) } else { hm.slotCount == hm0.slotCount }
 ensures @C09 frame: outf(h0, ho(h0, hm0), h, ho(h, hm))
 at entry { let K = z_seq_mem(h, key); let V = z_seq_mem(h, value); let s = sidx(fnv64a(K), hm.slotCount, hm.minSlotCountShift); lem_fnv(K); lem_sidx(fnv64a(K), hm.slotCount, hm.minSlotCountShift); assert(distinct(hslots(h, hm)[s])); }
 at call locateItem after { let hl = h; let li = i; let x = itms(h, items.Value); assert(x == hslots(h0, hm)[s]); split;
   assert(mem_kept(h0, hl)); assert forall|a: int| #[trigger] own(h0, hm, -1, a) implies keeps(h0, h, a) by { lem_own_sp(h0, hm, -1, a); } lem_lay_keep(h0, h, hm, -1); split;
   assert(outf(h0, ho(h0, hm), h, ho(h, hm))) by { assert forall|x: int| #[trigger] ho(h, hm)(x) == ho(h0, hm)(x) by { assert(own(h, hm, -1, x) == own(h0, hm, -1, x)); } }
   assert(hmP(h, hm)); assert forall|k: Seq<u8>| #[trigger] hget(h, hm, k) == hget(h0, hm, k) by { }
   split; if li >= 0 { lem_slk_at(x, li); assert(hget(h0, hm, K) == Some(x[li].v)); lem_isref_sA(h0, h, hm, items.SlotAddrRef, s); assert(locd(h, hm, items, K)); } else { assert(hget(h0, hm, K) is None); lem_isref_sA(h0, h, hm, items.SlotAddrRef, s); assert(locd(h, hm, items, K)); } split; }
 at exit { lem_outf_trans(h0, ho(h0, hm0), hl, ho(hl, hm0), h, ho(h, hm)); }

func hashmap.HashMap.DeleteItem(hm, key, want) (v, ok)
 props C01 C04 C05 C08 C09 C10 C11 C13
 requires hmP(h, hm) && sl_ok(h, key)
 modifies mem alloc fs c_hashItem c_HashItemInfo hm
 ensures @C08 @C10 @C13 state: hmP(h, hm)
 ensures @C01 @C04 @C05 map: forall|k: Seq<u8>| #[trigger] hget(h, hm, k) == (if k == z_seq_mem(h0, key) { None } else { hget(h0, hm0, k) })
 ensures @C01 ok: ok == (hget(h0, hm0, z_seq_mem(h0, key)) is Some)
 ensures @C01 value: if want && ok { Some(z_seq_mem(h, v)) == hget(h0, hm0, z_seq_mem(h0, key)) } else { v == z_nil() }
 ensures @C11 fresh: v == z_nil() || (v.blk >= h0.nxt && v.ep == 0)
 ensures @C10 fields: hm.fileStorage == hm0.fileStorage && hm.itemCount == hm0.itemCount - (if ok { 1int } else { 0 })
 ensures @C13 load: !ok || ldLo(hm)
 ensures @C09 frame: outf(h0, ho(h0, hm0), h, ho(h, hm))
 at entry { let K = z_seq_mem(h, key); let V = K; let s = sidx(fnv64a(K), hm.slotCount, hm.minSlotCountShift); lem_fnv(K); lem_sidx(fnv64a(K), hm.slotCount, hm.minSlotCountShift); assert(distinct(hslots(h, hm)[s])); }
 at call locateItem after { let hl = h; let li = i; let x = itms(h, items.Value); assert(x == hslots(h0, hm)[s]); split;
   assert(mem_kept(h0, hl)); assert forall|a: int| #[trigger] own(h0, hm, -1, a) implies keeps(h0, h, a) by { lem_own_sp(h0, hm, -1, a); } lem_lay_keep(h0, h, hm, -1); split;
   assert(outf(h0, ho(h0, hm), h, ho(h, hm))) by { assert forall|x: int| #[trigger] ho(h, hm)(x) == ho(h0, hm)(x) by { assert(own(h, hm, -1, x) == own(h0, hm, -1, x)); } }
   assert(hmP(h, hm)); assert forall|k: Seq<u8>| #[trigger] hget(h, hm, k) == hget(h0, hm, k) by { }
   split; if li >= 0 { lem_slk_at(x, li); assert(hget(h0, hm, K) == Some(x[li].v)); lem_isref_sA(h0, h, hm, items.SlotAddrRef, s); assert(locd(h, hm, items, K)); } else { assert(hget(h0, hm, K) is None); lem_isref_sA(h0, h, hm, items.SlotAddrRef, s); assert(locd(h, hm, items, K)); } split; }
 at exit { lem_outf_trans(h0, ho(h0, hm0), hl, ho(hl, hm0), h, ho(h, hm)); }

func hashmap.HashMap.HasItem(hm, key, want) (v, ok)
 props C01 C04 C05 C08 C09 C10 C11 C13
 requires hmP(h, hm) && sl_ok(h, key)
 modifies mem alloc c_hashItem c_HashItemInfo
 ensures @C08 @C10 @C13 state: hmP(h, hm)
 ensures @C01 @C04 @C05 map: forall|k: Seq<u8>| #[trigger] hget(h, hm, k) == (hget(h0, hm0, k))
 ensures @C01 ok: ok == (hget(h0, hm0, z_seq_mem(h0, key)) is Some)
 ensures @C01 value: if want && ok { Some(z_seq_mem(h, v)) == hget(h0, hm0, z_seq_mem(h0, key)) } else { v == z_nil() }
 ensures @C11 fresh: v == z_nil() || (v.blk >= h0.nxt && v.ep == 0)
 ensures @C10 fields: hm == hm0
 ensures @C13 load: hm == hm0
 ensures @C09 frame: outf(h0, ho(h0, hm0), h, ho(h, hm))
 at entry { let K = z_seq_mem(h, key); let V = K; let s = sidx(fnv64a(K), hm.slotCount, hm.minSlotCountShift); lem_fnv(K); lem_sidx(fnv64a(K), hm.slotCount, hm.minSlotCountShift); assert(distinct(hslots(h, hm)[s])); }
 at call locateItem after { let hl = h; let li = i; let x = itms(h, items.Value); assert(x == hslots(h0, hm)[s]); split;
   assert(mem_kept(h0, hl)); assert forall|a: int| #[trigger] own(h0, hm, -1, a) implies keeps(h0, h, a) by { lem_own_sp(h0, hm, -1, a); } lem_lay_keep(h0, h, hm, -1); split;
   assert(outf(h0, ho(h0, hm), h, ho(h, hm))) by { assert forall|x: int| #[trigger] ho(h, hm)(x) == ho(h0, hm)(x) by { assert(own(h, hm, -1, x) == own(h0, hm, -1, x)); } }
   assert(hmP(h, hm)); assert forall|k: Seq<u8>| #[trigger] hget(h, hm, k) == hget(h0, hm, k) by { }
   split; if li >= 0 { lem_slk_at(x, li); assert(hget(h0, hm, K) == Some(x[li].v)); lem_isref_sA(h0, h, hm, items.SlotAddrRef, s); assert(locd(h, hm, items, K)); } else { assert(hget(h0, hm, K) is None); lem_isref_sA(h0, h, hm, items.SlotAddrRef, s); assert(locd(h, hm, items, K)); } split; }
 at call getValue result { let hg = h; assert(mem_kept(hl, hg)); lem_ro(hl, hg, hm); split; }
 at exit { lem_outf_trans(h0, ho(h0, hm), hl, ho(hl, hm), h, ho(h, hm)); }
