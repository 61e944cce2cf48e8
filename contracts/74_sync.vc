func bptree.BPTree.syncKey(bpt, rp)
 props C02 C03 C07 C08 C09 C10 C13
 requires lpreK(h, bpt, rp, plast(h, bpt, rp), lstale(h, bpt, rp))
 modifies mem alloc fs bpt rp c_nonLeafChild c_recordPathComponent
 ensures tree: lpre(h, bpt, rp, plast(h0, bpt0, rp0)) && lmid(h0, h, bpt0, bpt)
 ensures leaf: bp(h.mem, plast(h0, bpt0, rp0)) == bp(h0.mem, plast(h0, bpt0, rp0)) && bpt.leafCount == bpt0.leafCount
 ensures path: plast(h, bpt, rp) == plast(h0, bpt0, rp0) && pth(h, rp)[bpt.height - 1] == pth(h0, rp0)[bpt0.height - 1]
 hide ixT lfT
 at entry { let P = pth(h, rp); let ga = plast(h, bpt, rp); 
   if bpt.height == 1 || P[bpt.height - 1].RecordOrNonLeafChildIndex >= 1 || zeroIx(P, 0, bpt.height - 1) { lem_sync_ex(h, bpt, rp); }
   if bpt.height >= 2 { lem_sync_at(h, bpt, rp, bpt.height - 2); } lem_sync_wk(h, bpt, rp, ga); split; }
 loop 1
  invariant h == h0 && bpt == bpt0 && recordPath == rp0
  invariant -1 <= i < n - 1 && zeroIx(P, i + 1, n - 1)
 at loop 1 begin { lem_sync_at(h, bpt, rp0, i); }
 at call SetKey after { let gk = lrecs(bp(h0.mem, ga))[0].k; assert(sy_pre(h0, h, bpt, P, i, gk)); split; lem_sync(h0, h, bpt, P, i, gk); lem_sync_lf(h0, h, bpt, P, i, gk, ga); let h1 = h; let t1 = bpt; lem_sync_own(h0, h, bpt, P, i, gk, ga, lstale(h0, bpt, rp0)); assert(bp(h.mem, ga) == bp(h0.mem, ga)); split; assert(ixT(h, bpt, P[i].NodeAddr, noix()) && pathOK(h.mem, bpt.rootAddr, P, bpt.height) && lfT(h, bpt, ga, noix()) && lmid(h0, h, bpt0, bpt)); split; }
 at call ensureNotOverloadOrUnderloadNonLeaf after { lem_sync_own2(h1, h, t1, P, P[i].NodeAddr, ga); assert(bp(h.mem, ga) == bp(h0.mem, ga)); split; lem_lf_keep(h1, h, t1, bpt, ga, noix()); lem_lmid(h0, h1, h, bpt0, t1, bpt); split; }
