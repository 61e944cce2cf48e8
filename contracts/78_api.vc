func bptree.BPTree.AddRecord(bpt, key, value, want) (v, ok)
 props C02 C03 C06 C07 C08 C09 C10 C11 C13
 requires tP(h, bpt) && sl_ok(h, key) && sl_ok(h, value) && key.ep == 0 && value.ep == 0 && !isMin(key) && !isMax(key)
 modifies mem alloc fs bpt c_record c_nonLeafChild c_recordPathComponent
 ensures tree: tP(h, bpt) && bpt.fileStorage == bpt0.fileStorage
 ensures @C02 @C06 content: if ok { added(tC(h0, bpt0), tC(h, bpt), z_seq_mem(h0, key), z_seq_mem(h0, value)) && v == z_nil() } else { tC(h, bpt) == tC(h0, bpt0) && hasK(tC(h0, bpt0), z_seq_mem(h0, key)) && if want { maps(tC(h0, bpt0), z_seq_mem(h0, key), z_seq_mem(h, v)) && z_wf_mem(h, v) } else { v == z_nil() } }
 ensures @C09 space: spD(h0, h, tR(h0, bpt0), tR(h, bpt)) && (!ok ==> bpt == bpt0 && h.al == h0.al && h.sp == h0.sp)
 ensures @C11 fresh: !ok && want ==> v.blk >= h0.nxt && v.blk < h.nxt && v.ep == 0
 ensures @C11 frame: goF(h0, h)
 hide ixT lfT fpost pathOK tR isOv spD newOv lfF kvOK asc ovD inAt
 at call findRecord after { let h1 = h; let P = pth(h, recordPath); let o = fAt(h, bpt, P); lem_tP_same(h0, h, bpt); lem_tI_same(h0, h, bpt); split; if ok { lem_hit(h, bpt, P, key); } split; }
 at call getValue result { assert(kAt(tC(h0, bpt0), o, z_seq_mem(h0, key))); lem_tP_keep(h1, h, bpt); lem_sp_same(h0, h1, h, bpt0, bpt); split; }
 at call createRecord result { let h2 = h; let t2 = bpt; let r = recOf(h, ret_createRecord); lem_add1(h1, h, bpt0, bpt, P, key, r); assert(pth(h, recordPath) == P); assert(z_wf_c_recordPathComponent(h, recordPath)); assert(fpath(h, bpt, recordPath)); assert(insP(h, bpt, pth(h, recordPath))); assert(tOkS(h, bpt)); assert(recSl(h, ret_createRecord)); split; }
 at call insertRecord after { split; lem_add2(h2, h, t2, bpt, o, r); assert(tC(h, bpt) == tC(h0, bpt0).insert(o, (z_seq_mem(h0, key), z_seq_mem(h0, value)))); split; lem_add_sp(h1, h2, h, tR(h1, bpt0), tR(h, bpt), r); lem_sp_same(h0, h1, h, bpt0, bpt); split; }

func bptree.BPTree.HasRecord(bpt, key, want) (v, ok)
 props C02 C06 C08 C09 C11
 requires tP(h, bpt) && sl_ok(h, key) && !isMin(key) && !isMax(key)
 modifies mem alloc c_recordPathComponent
 ensures tree: tP(h, bpt) && tC(h, bpt) == tC(h0, bpt) && tR(h, bpt) == tR(h0, bpt)
 ensures @C02 @C06 content: if ok { hasK(tC(h0, bpt), z_seq_mem(h0, key)) && if want { maps(tC(h0, bpt), z_seq_mem(h0, key), z_seq_mem(h, v)) && z_wf_mem(h, v) } else { v == z_nil() } } else { v == z_nil() && exists|o: int| inAt(tC(h0, bpt), o, z_seq_mem(h0, key)) }
 ensures @C11 fresh: ok && want ==> v.blk >= h0.nxt && v.blk < h.nxt && v.ep == 0
 ensures @C11 frame: goF(h0, h)
 hide ixT lfT fpost pathOK tR isOv spD newOv lfF kvOK asc ovD inAt
 at call findRecord after { let h1 = h; let P = pth(h, recordPath); let o = fAt(h, bpt, P); lem_tP_same(h0, h, bpt); lem_tI_same(h0, h, bpt); split; if ok { lem_hit(h, bpt, P, key); } else { lem_miss(h, bpt, P, key); assert(inAt(tC(h0, bpt), o, z_seq_mem(h0, key))); } split; }
 at call getValue result { assert(kAt(tC(h0, bpt), o, z_seq_mem(h0, key))); lem_tP_keep(h1, h, bpt); split; }

func bptree.BPTree.UpdateRecord(bpt, key, value, want) (v, ok)
 props C02 C03 C06 C07 C08 C09 C10 C11 C13
 requires tP(h, bpt) && sl_ok(h, key) && sl_ok(h, value) && key.ep == 0 && value.ep == 0 && !isMin(key) && !isMax(key)
 modifies mem alloc fs bpt c_record c_nonLeafChild c_recordPathComponent
 ensures tree: tP(h, bpt) && bpt.fileStorage == bpt0.fileStorage
 ensures @C02 @C06 content: if ok { replaced(tC(h0, bpt0), tC(h, bpt), z_seq_mem(h0, key), z_seq_mem(h0, value)) && if want { maps(tC(h0, bpt0), z_seq_mem(h0, key), z_seq_mem(h, v)) && z_wf_mem(h, v) } else { v == z_nil() } } else { tC(h, bpt) == tC(h0, bpt0) && v == z_nil() && exists|o: int| inAt(tC(h0, bpt0), o, z_seq_mem(h0, key)) }
 ensures @C09 space: spD(h0, h, tR(h0, bpt0), tR(h, bpt)) && (!ok ==> bpt == bpt0 && h.al == h0.al && h.sp == h0.sp)
 ensures @C11 fresh: ok && want ==> v.blk >= h0.nxt && v.blk < h.nxt && v.ep == 0
 ensures @C11 frame: goF(h0, h)
 hide ixT lfT fpost pathOK tR isOv spD newOv lfF kvOK asc ovD inAt
 at call findRecord after { let h1 = h; let P = pth(h, recordPath); let o = fAt(h, bpt, P); lem_tP_same(h0, h, bpt); lem_tI_same(h0, h, bpt); lem_tP_keep(h, h, bpt); lem_sp_same(h0, h1, h, bpt0, bpt); split; if ok { lem_hit(h, bpt, P, key); } else { lem_miss(h, bpt, P, key); assert(inAt(tC(h0, bpt0), o, z_seq_mem(h0, key))); } split; }
 at call replaceValue result { assert(kAt(tC(h0, bpt0), o, z_seq_mem(h0, key))); let W = tR(h, bpt)[o].v; split; lem_updR(h1, h, bpt0, bpt, o, W); lem_sp_same(h0, h1, h, bpt0, bpt); split; }

func bptree.BPTree.AddOrUpdateRecord(bpt, key, value, want) (v, ok)
 props C02 C03 C06 C07 C08 C09 C10 C11 C13
 requires tP(h, bpt) && sl_ok(h, key) && sl_ok(h, value) && key.ep == 0 && value.ep == 0 && !isMin(key) && !isMax(key)
 modifies mem alloc fs bpt c_record c_nonLeafChild c_recordPathComponent
 ensures tree: tP(h, bpt) && bpt.fileStorage == bpt0.fileStorage
 ensures @C02 @C06 content: if ok { added(tC(h0, bpt0), tC(h, bpt), z_seq_mem(h0, key), z_seq_mem(h0, value)) && v == z_nil() } else { replaced(tC(h0, bpt0), tC(h, bpt), z_seq_mem(h0, key), z_seq_mem(h0, value)) && if want { maps(tC(h0, bpt0), z_seq_mem(h0, key), z_seq_mem(h, v)) && z_wf_mem(h, v) } else { v == z_nil() } }
 ensures @C09 space: spD(h0, h, tR(h0, bpt0), tR(h, bpt))
 ensures @C11 fresh: !ok && want ==> v.blk >= h0.nxt && v.blk < h.nxt && v.ep == 0
 ensures @C11 frame: goF(h0, h)
 hide ixT lfT fpost pathOK tR isOv spD newOv lfF kvOK asc ovD inAt
 at call findRecord after { let h1 = h; let P = pth(h, recordPath); let o = fAt(h, bpt, P); lem_tP_same(h0, h, bpt); lem_tI_same(h0, h, bpt); split; if ok { lem_hit(h, bpt, P, key); } split; }
 at call replaceValue result { assert(kAt(tC(h0, bpt0), o, z_seq_mem(h0, key))); let W = tR(h, bpt)[o].v; split; lem_updR(h1, h, bpt0, bpt, o, W); lem_sp_same(h0, h1, h, bpt0, bpt); split; }
 at call createRecord result { let h2 = h; let t2 = bpt; let r = recOf(h, ret_createRecord); lem_add1(h1, h, bpt0, bpt, P, key, r); assert(pth(h, recordPath) == P); assert(z_wf_c_recordPathComponent(h, recordPath)); assert(fpath(h, bpt, recordPath)); assert(inAt(tC(h0, bpt0), o, z_seq_mem(h0, key))); assert(raw1(h.mem, r) == (z_seq_mem(h0, key), z_seq_mem(h0, value))); split; }
 at call insertRecord after { split; lem_add2(h2, h, t2, bpt, o, r); assert(tC(h, bpt) == tC(h0, bpt0).insert(o, (z_seq_mem(h0, key), z_seq_mem(h0, value)))); split; lem_add_sp(h1, h2, h, tR(h1, bpt0), tR(h, bpt), r); lem_sp_same(h0, h1, h, bpt0, bpt); split; }

func bptree.BPTree.DeleteRecord(bpt, key, want) (v, ok)
 props C02 C03 C06 C07 C08 C09 C10 C11 C13
 requires tP(h, bpt) && sl_ok(h, key) && !isMin(key) && !isMax(key)
 modifies mem alloc fs bpt c_record c_nonLeafChild c_recordPathComponent
 ensures tree: tP(h, bpt) && bpt.fileStorage == bpt0.fileStorage
 ensures @C02 @C06 content: if ok { removed(tC(h0, bpt0), tC(h, bpt), z_seq_mem(h0, key)) && if want { maps(tC(h0, bpt0), z_seq_mem(h0, key), z_seq_mem(h, v)) && z_wf_mem(h, v) } else { v == z_nil() } } else { tC(h, bpt) == tC(h0, bpt0) && v == z_nil() && exists|o: int| inAt(tC(h0, bpt0), o, z_seq_mem(h0, key)) }
 ensures @C09 space: spD(h0, h, tR(h0, bpt0), tR(h, bpt)) && (!ok ==> bpt == bpt0 && h.al == h0.al && h.sp == h0.sp)
 ensures @C11 fresh: ok && want ==> v.blk >= h0.nxt && v.blk < h.nxt && v.ep == 0
 ensures @C11 frame: goF(h0, h)
 hide ixT lfT fpost pathOK tR isOv spD delOv lfF kvOK asc ovD inAt
 at call findRecord after { let h1 = h; let P = pth(h, recordPath); let o = fAt(h, bpt, P); lem_tP_same(h0, h, bpt); lem_tI_same(h0, h, bpt); lem_tP_keep(h, h, bpt); lem_sp_same(h0, h1, h, bpt0, bpt); split; if ok { lem_hit(h, bpt, P, key); } else { lem_miss(h, bpt, P, key); assert(inAt(tC(h0, bpt0), o, z_seq_mem(h0, key))); } split; }
 at call removeRecord result { let h2 = h; let t2 = bpt; assert(kAt(tC(h0, bpt0), o, z_seq_mem(h0, key))); split; lem_del1(h1, h, bpt0, P); split; }
 at call destroyRecord result { split; lem_del2(h1, h2, h, bpt0, t2, bpt, o); lem_sp_same(h0, h1, h, bpt0, bpt); split; }
