func bptree.BPTree.ensureNotUnderloadLeaf(bpt, rp)
 props C02 C03 C07 C08 C09 C10 C13
 requires lpre(h, bpt, rp, plast(h, bpt, rp))
 modifies mem alloc fs bpt rp c_record c_nonLeafChild c_recordPathComponent
 ensures tree: lload(bp(h0.mem, plast(h0, bpt0, rp0))) <= K_leafOverloadThreshold() ==> lpre(h, bpt, rp, noix()) && lmid(h0, h, bpt0, bpt)
 ensures same: lload(bp(h0.mem, plast(h0, bpt0, rp0))) > K_leafOverloadThreshold() ==> h == h0 && bpt == bpt0 && rp == rp0
 hide ixA ixOK lfs ring linkRem
 at entry { let P1 = pth(h, rp); let ga = P1[bpt.height - 1].NodeAddr; let L0 = tL(h, bpt); let gE = tE(h, bpt); lem_levs(h.mem, bpt.rootAddr, bpt.height); lem_lonpath(h, bpt, P1, noix(), noix(), ga, noix()); lem_leaf_K(); lem_nonleaf_K(); lem_lf0(h, bpt, ga); lem_nH1(L0, h.mem, bpt.rootAddr);
   if lload(bp(h.mem, ga)) <= K_leafOverloadThreshold() && (bpt.height == 1 || lload(bp(h.mem, ga)) >= K_leafUnderloadThreshold()) { lem_lf_clear(h, bpt, ga); } split; }
 at assign leafParentAddr before { let gpa = P1[i - 1].NodeAddr; let jl = P1[i - 1].RecordOrNonLeafChildIndex; lem_onpath(h, bpt, P1, i - 1, noix(), noix()); lem_nlP(h, gpa); split; }
 at assign leafIndex after { lem_onpath_ne(h, bpt, P1, i, i - 1, noix(), noix()); let gcp = cchs(bp(h.mem, gpa)); lem_lchild(h, bpt, P1, jl, noix(), noix(), ga, noix()); lem_chload(bp(h.mem, gpa)); lem_nlP(h, gpa);
   if jl + 1 < gcp.len() { lem_lchild(h, bpt, P1, jl + 1, noix(), noix(), ga, noix()); lem_child_ne(h, bpt, P1, i, jl, jl + 1, noix(), noix()); }
   if jl >= 1 { lem_lchild(h, bpt, P1, jl - 1, noix(), noix(), ga, noix()); lem_child_ne(h, bpt, P1, i, jl, jl - 1, noix(), noix()); }
   assert(gcp[jl].a == ga); assert(cload(bp(h.mem, gpa)) <= K_nonLeafOverloadThreshold()); assert(gcp.len() >= 2); split; }
 at call UnshiftFromRight prior { split; }
 at call UnshiftFromRight after { lem_lmvL(h0.mem, h.mem, gpa, jl, numberOfRecords); split; }
 at call ensureNotOverloadOrUnderloadNonLeaf#1 before { let gQ = pth(h, recordPath); assert(lQ(h0.mem, P1, gQ, bpt.height, jl, ga)); lem_lstep_mv(h0, h, bpt, P1, gQ, jl, jl, noix(), noix(), ga); let hq = h; split; }
 at call ensureNotOverloadOrUnderloadNonLeaf#1 after { lem_lf_keep(hq, h, bpt0, bpt, noix(), noix()); lem_lmid(h0, hq, h, bpt0, bpt0, bpt); assert(lpre(h, bpt, recordPath, noix())); split; }
 at call UnshiftFromLeft prior { split; }
 at call UnshiftFromLeft after { lem_lmvR(h0.mem, h.mem, gpa, jl - 1, numberOfRecords); split; }
 at call ensureNotOverloadOrUnderloadNonLeaf#2 before { let gQ = pth(h, recordPath); assert(lQ(h0.mem, P1, gQ, bpt.height, jl, ga)); lem_lstep_mv(h0, h, bpt, P1, gQ, jl - 1, jl, noix(), noix(), ga); let hq = h; split; }
 at call ensureNotOverloadOrUnderloadNonLeaf#2 after { lem_lf_keep(hq, h, bpt0, bpt, noix(), noix()); lem_lmid(h0, hq, h, bpt0, bpt0, bpt); assert(lpre(h, bpt, recordPath, noix())); split; }
 at call RemoveLeaf#1 before { let gq = lfq(h, bpt, P1, jl + 1); lem_unl_pre(h, bpt, gq, ga); split; }
 at call RemoveLeaf#1 after { let hu = h; let tu = bpt; lem_unl(h0, h, bpt0, bpt, P1, gq, ga); lem_lfq(h0, h, bpt0, bpt, P1, jl + 1); assert(gE[gq - 1].a == gcp[jl].a && gE[gq].a == gcp[jl + 1].a); lem_dataSame(bp(h0.mem, gE[gq].a), bp(h.mem, gE[gq].a)); lem_dataSame(bp(h0.mem, gE[gq - 1].a), bp(h.mem, gE[gq - 1].a)); split; }
 at call MergeFromRight prior { split; }
 at call destroyLeaf#1 after { assert(lmg(hu.mem, h.mem, gpa, jl)); split; assert(h.al =~= hu.al.remove(gcp[jl + 1].a)); assert(pth(h, recordPath) == P1); split; assert(lload(bp(hu.mem, gcp[jl].a)) + lload(bp(hu.mem, gcp[jl + 1].a)) <= K_leafOverloadThreshold()); assert(mem_kept3(hu, h, -1 - gpa, -1 - gcp[jl].a, -1 - gcp[jl + 1].a)); split; lem_lstep_M(hu, h, tu, bpt, P1, P1, jl, ga); lem_lmid(h0, hu, h, bpt0, tu, bpt); split; assert(ixT(h, bpt, gpa, noix()) && lfT(h, bpt, noix(), noix()) && lmid(h0, h, bpt0, bpt) && pathOK(h.mem, bpt.rootAddr, P1, bpt.height)); split; }
 at call RemoveLeaf#2 before { let gq = lfq(h, bpt, P1, jl); lem_unl_pre(h, bpt, gq, ga); split; }
 at call RemoveLeaf#2 after { let hu = h; let tu = bpt; lem_unl(h0, h, bpt0, bpt, P1, gq, ga); lem_lfq(h0, h, bpt0, bpt, P1, jl); assert(gE[gq - 1].a == gcp[jl - 1].a && gE[gq].a == gcp[jl].a); lem_dataSame(bp(h0.mem, gE[gq].a), bp(h.mem, gE[gq].a)); lem_dataSame(bp(h0.mem, gE[gq - 1].a), bp(h.mem, gE[gq - 1].a)); split; }
 at call MergeToLeft prior { split; }
 at call destroyLeaf#2 after { assert(lmg(hu.mem, h.mem, gpa, jl - 1)); split; assert(h.al =~= hu.al.remove(gcp[jl].a)); assert(pth(h, recordPath) == P1); let gQ = P1.update(i, T_recordPathComponent { NodeAddr: gcp[jl - 1].a, RecordOrNonLeafChildIndex: 0 }).update(i - 1, T_recordPathComponent { NodeAddr: gpa, RecordOrNonLeafChildIndex: jl - 1 }); split; assert(lload(bp(hu.mem, gcp[jl - 1].a)) + lload(bp(hu.mem, gcp[jl].a)) <= K_leafOverloadThreshold()); assert(mem_kept3(hu, h, -1 - gpa, -1 - gcp[jl - 1].a, -1 - gcp[jl].a)); split; lem_lstep_M(hu, h, tu, bpt, P1, gQ, jl - 1, ga); lem_lmid(h0, hu, h, bpt0, tu, bpt); split; assert(ixT(h, bpt, gpa, noix()) && lfT(h, bpt, noix(), noix()) && lmid(h0, h, bpt0, bpt) && pathOK(h.mem, bpt.rootAddr, gQ, bpt.height)); split; }
 at call ensureNotUnderloadNonLeaf before { let gR = pth(h, recordPath); let gS = if jl + 1 < gcp.len() { P1 } else { P1.update(i, T_recordPathComponent { NodeAddr: gcp[jl - 1].a, RecordOrNonLeafChildIndex: 0 }).update(i - 1, T_recordPathComponent { NodeAddr: gpa, RecordOrNonLeafChildIndex: jl - 1 }) };
   assert(pathOK(h.mem, bpt.rootAddr, gS, bpt.height)); assert(gR.len() == bpt.height && gR[i].NodeAddr == gS[i].NodeAddr && gR[i - 1] == gS[i - 1]); assert(forall|d: int| 0 <= d < i - 1 ==> #[trigger] gR[d] == gS[d]); split; lem_pathR(h.mem, bpt.rootAddr, gS, gR, bpt.height); split;
   assert(ixT(h, bpt, gpa, noix()) && lfT(h, bpt, noix(), noix()) && lmid(h0, h, bpt0, bpt) && z_heap_ok(h) && h0.nxt <= h.nxt); assert(rpre(h, bpt, recordPath, i - 1, noix())); assert(gR[i - 1].NodeAddr == gpa && cload(bp(h.mem, gpa)) <= K_nonLeafOverloadThreshold()); assert(lload(bp(h0.mem, plast(h0, bpt0, rp0))) <= K_leafOverloadThreshold()); let hq = h; let tq = bpt; cut; }
 at call ensureNotUnderloadNonLeaf after { assert(tF(tq, bpt) && tE(h, bpt) == tE(hq, tq) && ixF(hq, h, tE(hq, tq)) && hq.nxt <= h.nxt); split; lem_lf_keep(hq, h, tq, bpt, noix(), noix()); lem_lmid(h0, hq, h, bpt0, tq, bpt); assert(lpre(h, bpt, recordPath, noix())); split; }
