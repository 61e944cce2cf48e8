func plainkv.OrderedDict.Set(d, key, value, want) (v)
 props C02 C03 C05 C06 C07 C08 C09 C10 C11 C13
 requires odP(h, d) && odTight(h, d) && sl_ok(h, key) && sl_ok(h, value) && key.ep == 0 && value.ep == 0 && !isMin(key) && !isMax(key)
 modifies mem alloc fs c_record c_nonLeafChild c_recordPathComponent d
 ensures @C08 @C10 @C13 state: odP(h, d)
 ensures @C09 tight: odTight(h, d)
 ensures @C02 @C06 content: (added(odC(h0, d0), odC(h, d), z_seq_mem(h0, key), z_seq_mem(h0, value)) && v == z_nil()) || (replaced(odC(h0, d0), odC(h, d), z_seq_mem(h0, key), z_seq_mem(h0, value)) && if want { maps(odC(h0, d0), z_seq_mem(h0, key), z_seq_mem(h, v)) && z_wf_mem(h, v) && v.blk >= h0.nxt && v.ep == 0 } else { v == z_nil() })
 ensures @C11 frame: goF(h0, h)
 hide tP tR isOv isMin isMax

func plainkv.OrderedDict.SetIfExists(d, key, value, want) (v, ok)
 props C02 C03 C05 C06 C07 C08 C09 C10 C11 C13
 requires odP(h, d) && odTight(h, d) && sl_ok(h, key) && sl_ok(h, value) && key.ep == 0 && value.ep == 0 && !isMin(key) && !isMax(key)
 modifies mem alloc fs c_record c_nonLeafChild c_recordPathComponent d
 ensures @C08 @C10 @C13 state: odP(h, d)
 ensures @C09 tight: odTight(h, d)
 ensures @C02 @C06 content: if ok { replaced(odC(h0, d0), odC(h, d), z_seq_mem(h0, key), z_seq_mem(h0, value)) && if want { maps(odC(h0, d0), z_seq_mem(h0, key), z_seq_mem(h, v)) && z_wf_mem(h, v) && v.blk >= h0.nxt && v.ep == 0 } else { v == z_nil() } } else { odC(h, d) == odC(h0, d0) && v == z_nil() && exists|o: int| inAt(odC(h0, d0), o, z_seq_mem(h0, key)) }
 ensures @C11 frame: goF(h0, h)
 hide tP tR isOv isMin isMax inAt maps replaced
 at exit { if ok { assert(replaced(odC(h0, d0), odC(h, d), z_seq_mem(h0, key), z_seq_mem(h0, value))); if want { assert(maps(odC(h0, d0), z_seq_mem(h0, key), z_seq_mem(h, v))); assert(z_wf_mem(h, v)); assert(v.blk >= h0.nxt); assert(v.ep == 0); } else { assert(v == z_nil()); } } else { assert(odC(h, d) == odC(h0, d0)); assert(v == z_nil()); assert(exists|o: int| inAt(odC(h0, d0), o, z_seq_mem(h0, key))); } }

func plainkv.OrderedDict.SetIfNotExists(d, key, value, want) (v, ok)
 props C02 C03 C05 C06 C07 C08 C09 C10 C11 C13
 requires odP(h, d) && odTight(h, d) && sl_ok(h, key) && sl_ok(h, value) && key.ep == 0 && value.ep == 0 && !isMin(key) && !isMax(key)
 modifies mem alloc fs c_record c_nonLeafChild c_recordPathComponent d
 ensures @C08 @C10 @C13 state: odP(h, d)
 ensures @C09 tight: odTight(h, d)
 ensures @C02 @C06 content: if ok { added(odC(h0, d0), odC(h, d), z_seq_mem(h0, key), z_seq_mem(h0, value)) && v == z_nil() } else { odC(h, d) == odC(h0, d0) && hasK(odC(h0, d0), z_seq_mem(h0, key)) && if want { maps(odC(h0, d0), z_seq_mem(h0, key), z_seq_mem(h, v)) && z_wf_mem(h, v) && v.blk >= h0.nxt && v.ep == 0 } else { v == z_nil() } }
 ensures @C11 frame: goF(h0, h)
 hide tP tR isOv isMin isMax

func plainkv.OrderedDict.Clear(d, key, want) (v, ok)
 props C02 C03 C05 C06 C07 C08 C09 C10 C11 C13
 requires odP(h, d) && odTight(h, d) && sl_ok(h, key) && !isMin(key) && !isMax(key)
 modifies mem alloc fs c_record c_nonLeafChild c_recordPathComponent d
 ensures @C08 @C10 @C13 state: odP(h, d)
 ensures @C09 tight: odTight(h, d)
 ensures @C02 @C06 content: if ok { removed(odC(h0, d0), odC(h, d), z_seq_mem(h0, key)) && if want { maps(odC(h0, d0), z_seq_mem(h0, key), z_seq_mem(h, v)) && z_wf_mem(h, v) && v.blk >= h0.nxt && v.ep == 0 } else { v == z_nil() } } else { odC(h, d) == odC(h0, d0) && v == z_nil() && exists|o: int| inAt(odC(h0, d0), o, z_seq_mem(h0, key)) }
 ensures @C11 frame: goF(h0, h)
 hide tP tR isOv isMin isMax tC removed maps inAt

func plainkv.OrderedDict.Test(d, key, want) (v, ok)
 props C02 C05 C06 C08 C09 C11
 requires odP(h, d) && odTight(h, d) && sl_ok(h, key) && !isMin(key) && !isMax(key)
 modifies mem alloc c_recordPathComponent
 ensures state: odP(h, d)
 ensures @C09 tight: odTight(h, d)
 ensures @C02 @C06 content: odC(h, d) == odC(h0, d) && if ok { hasK(odC(h0, d), z_seq_mem(h0, key)) && if want { maps(odC(h0, d), z_seq_mem(h0, key), z_seq_mem(h, v)) && z_wf_mem(h, v) && v.blk >= h0.nxt && v.ep == 0 } else { v == z_nil() } } else { v == z_nil() && exists|o: int| inAt(odC(h0, d), o, z_seq_mem(h0, key)) }
 ensures @C11 frame: goF(h0, h)
 hide tP tR isOv isMin isMax

func plainkv.OrderedDict.RangeAsc(d, minKey, maxKey) (it)
 props C03 C06 C07 C08
 requires odP(h, d) && odTight(h, d) && sl_ok(h, minKey) && sl_ok(h, maxKey)
 modifies mem alloc c_recordPathComponent
 ensures state: odP(h, d) && odC(h, d) == odC(h0, d) && mem_kept(h0, h)
 ensures @C09 tight: odTight(h, d)
 ensures @C03 range: it is P_forwardIterator && itRun(h, d.bpTree, it->P_forwardIterator_0.iterator, loI(odC(h0, d), minKey, z_seq_mem(h0, minKey)), hiI(odC(h0, d), maxKey, z_seq_mem(h0, maxKey)), true)
 hide tP tR isOv itRun loI hiI
 at exit { lem_tP_keep(h0, h, d.bpTree); }

func plainkv.OrderedDict.RangeDesc(d, minKey, maxKey) (it)
 props C03 C06 C07 C08
 requires odP(h, d) && odTight(h, d) && sl_ok(h, minKey) && sl_ok(h, maxKey)
 modifies mem alloc c_recordPathComponent
 ensures state: odP(h, d) && odC(h, d) == odC(h0, d) && mem_kept(h0, h)
 ensures @C09 tight: odTight(h, d)
 ensures @C03 range: it is P_backwardIterator && itRun(h, d.bpTree, it->P_backwardIterator_0.iterator, loI(odC(h0, d), minKey, z_seq_mem(h0, minKey)), hiI(odC(h0, d), maxKey, z_seq_mem(h0, maxKey)), false)
 hide tP tR isOv itRun loI hiI
 at exit { lem_tP_keep(h0, h, d.bpTree); }

func plainkv.OrderedDict.Stats(d) (s)
 props C10
 requires odP(h, d)
 ensures @C10 exact: s.NumberOfBPTreeRecords == odC(h, d).len() && s.PayloadSize == psz(odC(h, d)) && s.BPTreeHeight == tL(h, d.bpTree).len() && s.NumberOfBPTreeLeafs == tE(h, d.bpTree).len() && s.NumberOfBPTreeNonLeafs == cnt(tL(h, d.bpTree), s.BPTreeHeight - 1)

func plainkv.OrderedDict.Close(d) (err)
 props C05 C08 C09 C10
 requires odP(h, d) && odTight(h, d)
 modifies mem alloc fs prim d
 ensures @C05 @C09 stored: err == 0 ==> odFile(h, d0.bpTree)
 ensures @C05 same: err == 0 ==> tC(h, d0.bpTree) == odC(h0, d0)
 hide isOv tR
 at call Store after { let hb = h; split; }
 at exit { if err == 0 { lem_isOv_sp(hb, tR(hb, d0.bpTree)); lem_tP_sp(hb, h, d0.bpTree); } }

func plainkv.OpenOrderedDict(name, create) (d, err)
 props C02 C05 C08 C09 C10
 requires dNoFile(h) || exists|t: T_BPTree| #[trigger] odFile(h, t)
 modifies mem alloc fs prim
 ensures @C08 @C10 state: err == 0 ==> odP(h, d)
 ensures @C09 tight: err == 0 ==> odTight(h, d)
 ensures @C05 new: err == 0 && dNoFile(h0) ==> odC(h, d).len() == 0
 ensures @C05 loaded: err == 0 && !dNoFile(h0) ==> odFile(h0, d.bpTree) && odC(h, d) == odC(h0, d)
 hide isOv tR
 at entry { let fresh = dNoFile(h); let m = choose|t: T_BPTree| #[trigger] odFile(h, t); }
 at call Load before { assert(!fresh); let hb = h; lem_isOv_sp(h0, tR(h0, m)); lem_tP_sp(h0, hb, m); assert(btStored(hb, hb.prim, m)); split; }
 at call Load after { assert(od.bpTree == m); split; lem_isOv_sp(hb, tR(hb, m)); split; }
