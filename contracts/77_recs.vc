func bptree.BPTree.getValue(bpt, rp, want) (v)
 props C02 C06 C08 C11
 requires tOkS(h, bpt) && fpath(h, bpt, rp) && 0 <= pIx(pth(h, rp), bpt) < ln(bp(h.mem, plast(h, bpt, rp))) && valOK(h, lrecs(bp(h.mem, plast(h, bpt, rp)))[pIx(pth(h, rp), bpt)].v)
 modifies mem alloc
 ensures value: want ==> z_seq_mem(h, v) == rawV(h0.mem, lrecs(bp(h0.mem, plast(h0, bpt, rp)))[pIx(pth(h0, rp), bpt)].v) && z_wf_mem(h, v)
 ensures none: !want ==> v == z_nil() && h == h0
 ensures @C11 fresh: want ==> v.blk >= h0.nxt && v.blk < h.nxt && v.ep == 0
 ensures frame: mem_kept(h0, h)
 hide ixT lfT
 at entry { let P = pth(h, rp); lem_rm_at(h, bpt, P); }

func bptree.BPTree.createRecord(bpt, key, value) (rec)
 props C02 C06 C08 C09 C10 C11
 requires sl_ok(h, key) && sl_ok(h, value) && key.ep == 0 && value.ep == 0
 modifies mem alloc fs bpt
 ensures record: recSl(h, rec) && rec1OK(h, recOf(h, rec)) && raw1(h.mem, recOf(h, rec)) == (z_seq_mem(h0, key), z_seq_mem(h0, value))
 ensures @C09 space: newOv(h0, h, recOf(h, rec))
 ensures @C10 size: bpt == T_BPTree { payloadSize: bpt0.payloadSize + key.len + value.len, ..bpt0 }
 at call CreateValue before { let h1 = h; }

func bptree.BPTree.destroyRecord(bpt, rec, want) (v)
 props C02 C06 C08 C09 C10 C11
 requires recSl(h, rec) && rec1OK(h, recOf(h, rec))
 modifies mem alloc fs bpt
 ensures value: if want { z_seq_mem(h, v) == rawV(h0.mem, recOf(h0, rec).v) && z_wf_mem(h, v) } else { v == z_nil() }
 ensures @C11 fresh: want ==> v.blk >= h0.nxt && v.blk < h.nxt && v.ep == 0
 ensures @C09 space: delOv(h0, h, recOf(h0, rec))
 ensures @C10 size: bpt == T_BPTree { payloadSize: bpt0.payloadSize - (raw1(h0.mem, recOf(h0, rec)).0.len() + raw1(h0.mem, recOf(h0, rec)).1.len()), ..bpt0 }

func bptree.BPTree.replaceValue(bpt, rp, nv, want) (v)
 props C02 C06 C07 C08 C09 C10 C11 C13
 requires tOkS(h, bpt) && fpath(h, bpt, rp) && 0 <= pIx(pth(h, rp), bpt) < ln(bp(h.mem, plast(h, bpt, rp))) && valOK(h, lrecs(bp(h.mem, plast(h, bpt, rp)))[pIx(pth(h, rp), bpt)].v)
 requires sl_ok(h, nv) && nv.ep == 0
 modifies mem alloc fs bpt c_record c_nonLeafChild c_recordPathComponent
 ensures tree: tOkS(h, bpt)
 ensures records: { let o = fAt(h0, bpt0, pth(h0, rp)); let R0 = tR(h0, bpt0); let V = tR(h, bpt)[o].v; 0 <= o < R0.len() && R0[o] == lrecs(bp(h0.mem, plast(h0, bpt0, rp)))[pIx(pth(h0, rp), bpt0)] && tR(h, bpt) == R0.update(o, Rec { k: R0[o].k, v: V }) && valOK(h, V) && V.len() <= 129 && rawV(h.mem, V) == z_seq_mem(h0, nv) }
 ensures @C09 space: repOv(h0, h, tR(h0, bpt0)[fAt(h0, bpt0, pth(h0, rp))], tR(h, bpt)[fAt(h0, bpt0, pth(h0, rp))].v)
 ensures @C10 size: tG(T_BPTree { payloadSize: bpt0.payloadSize + nv.len - rawV(h0.mem, tR(h0, bpt0)[fAt(h0, bpt0, pth(h0, rp))].v).len(), ..bpt0 }, bpt)
 ensures value: if want { z_seq_mem(h, v) == rawV(h0.mem, tR(h0, bpt0)[fAt(h0, bpt0, pth(h0, rp))].v) && z_wf_mem(h, v) } else { v == z_nil() }
 ensures @C11 fresh: want ==> v.blk >= h0.nxt && v.blk < h.nxt && v.ep == 0
 hide ixT lfT
 at entry { let P = pth(h, rp); let ga = plast(h, bpt, rp); let gi = pIx(P, bpt); let gr = lrecs(bp(h.mem, ga))[gi]; lem_rm_at(h, bpt, P); lem_rv_at(h, bpt, P, gi); split; }
 at call DestroyValue before { let gold = rawV(h0.mem, gr.v); assert(oldValueSize == gold.len()); assert(returnOldValue ==> z_seq_mem(h, oldValue) == gold && z_wf_mem(h, oldValue) && oldValue.ep == 0 && oldValue.blk >= h0.nxt); split; }
 at call CreateValue after { let h1 = h; let gV = z_seq_mem(h, value); assert(returnOldValue ==> z_seq_mem(h, oldValue) == gold && z_wf_mem(h, oldValue)); assert(alS(h0, h)); lem_alS(h0, h, bpt, bpt, noix(), noix()); assert(pathOK(h.mem, bpt.rootAddr, P, bpt.height)); assert(fAt(h, bpt, P) == fAt(h0, bpt0, P) && bp(h.mem, ga) == bp(h0.mem, ga) && tR(h, bpt) == tR(h0, bpt0)); assert(repOv(h0, h, gr, gV)); lem_rv_at(h, bpt, P, gi); lem_rm_at(h, bpt, P); split; }
 at call SetValue after { let h2 = h; lem_setv(h1, h, bpt, P, gV); lem_rep_lfF(h0, h1, h, gr, gV); assert(gr == tR(h0, bpt0)[fAt(h0, bpt0, P)]); assert(returnOldValue ==> z_seq_mem(h, oldValue) == gold && z_wf_mem(h, oldValue)); split; }
 at call ensureNotUnderloadLeaf after { let h3 = h; let t3 = bpt; split; if lload(bp(h2.mem, ga)) <= K_leafOverloadThreshold() { lem_lpre_weak2(h, bpt, plast(h, bpt, recordPath)); } split; }
 at call ensureNotOverloadLeaf after { let t4 = bpt; if lload(bp(h2.mem, ga)) <= K_leafOverloadThreshold() { lem_lmid(h2, h3, h, bpt0, t3, bpt); } split; assert(lmid(h2, h, bpt0, bpt)); assert(returnOldValue ==> z_seq_mem(h, oldValue) == gold && z_wf_mem(h, oldValue)); split; lem_rep_lfF(h0, h2, h, gr, gV); lem_ts(h, bpt, T_BPTree { payloadSize: bpt.payloadSize + newValue.len - oldValueSize, ..bpt }); assert(tR(h, bpt)[fAt(h0, bpt0, P)].v == gV); split; }
