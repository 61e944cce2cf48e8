func bptree.BPTree.insertRecord(bpt, rp, rec)
 props C02 C03 C07 C08 C09 C10 C13
 requires tOkS(h, bpt) && fpath(h, bpt, rp) && recSl(h, rec) && recOK(recOf(h, rec)) && insP(h, bpt, pth(h, rp))
 modifies mem alloc fs bpt c_record c_nonLeafChild c_recordPathComponent
 ensures tree: tOkS(h, bpt)
 ensures records: tR(h, bpt) == tR(h0, bpt0).insert(fAt(h0, bpt0, pth(h0, rp)), recOf(h0, rec)) && 0 <= fAt(h0, bpt0, pth(h0, rp)) <= tR(h0, bpt0).len()
 ensures frame: lfF(h0, h) && tG(T_BPTree { recordCount: bpt0.recordCount + 1, ..bpt0 }, bpt)
 hide ixT lfT
 at entry { let P = pth(h, rp); let ga = P[bpt.height - 1].NodeAddr; let gr = recOf(h0, rec); lem_ins_at(h, bpt, P, gr); let gR = tR(h, bpt); split; }
 at call InsertRecords prior { lem_rs_one(h, record1); let h8 = h; }
 at call InsertRecords after { let h1 = h; assert(h.mem =~= h0.mem.insert(-1 - ga, bp(h.mem, ga))); lem_insert(h0, h, bpt, P, gr); split; lem_lpre_weak(h, bpt, ga, lstale(h, bpt, rp)); split; }
 at call syncKey after { let h2 = h; let t2 = bpt; lem_lf_count(h, bpt, ga, noix()); if lload(bp(h.mem, ga)) <= K_leafOverloadThreshold() { lem_lf_clear(h, bpt, ga); } split; }
 at call ensureNotOverloadLeaf after { lem_lmid(h1, h2, h, bpt0, t2, bpt); lem_lfF_trans(h0, h1, h); lem_ts(h, bpt, T_BPTree { recordCount: bpt.recordCount + 1, ..bpt }); split; }

func bptree.BPTree.removeRecord(bpt, rp) (rec)
 props C02 C03 C07 C08 C09 C10 C13
 requires tOkS(h, bpt) && fpath(h, bpt, rp) && 0 <= pIx(pth(h, rp), bpt) < ln(bp(h.mem, plast(h, bpt, rp)))
 modifies mem alloc fs bpt c_record c_nonLeafChild c_recordPathComponent
 ensures tree: tOkS(h, bpt)
 ensures records: 0 <= fAt(h0, bpt0, pth(h0, rp)) < tR(h0, bpt0).len() && tR(h, bpt) == tR(h0, bpt0).remove(fAt(h0, bpt0, pth(h0, rp)))
 ensures result: recSl(h, rec) && recOf(h, rec) == tR(h0, bpt0)[fAt(h0, bpt0, pth(h0, rp))] && rec.Key.blk >= h0.nxt && rec.Value.blk >= h0.nxt
 ensures frame: lfF(h0, h) && tG(T_BPTree { recordCount: bpt0.recordCount - 1, ..bpt0 }, bpt)
 hide ixT lfT
 at entry { let P = pth(h, rp); let ga = P[bpt.height - 1].NodeAddr; lem_rm_at(h, bpt, P); let gR = tR(h, bpt); split; }
 at assign record after { let h1 = h; let grec = record; lem_rs_first(h); assert(mem_kept1(h0, h, -1 - ga)); assert(recSl(h, record)); assert(recOf(h, record) == lrecs(bp(h0.mem, ga))[pIx(P, bpt)]); lem_remove(h0, h, bpt, P); split; }
 at call syncKey after { let h2 = h; let t2 = bpt; split; }
 at call ensureNotUnderloadLeaf after { lem_lmid(h1, h2, h, bpt0, t2, bpt); lem_lfF_trans(h0, h1, h); lem_recOf_lfF(h1, h, grec); lem_ts(h, bpt, T_BPTree { recordCount: bpt.recordCount - 1, ..bpt }); split; }
