func bptree.BPTree.ensureNotOverloadLeaf(bpt, rp)
 props C02 C03 C07 C08 C09 C10 C13
 requires lpre(h, bpt, rp, plast(h, bpt, rp))
 requires @C07 @C13 load: lload(bp(h.mem, plast(h, bpt, rp))) <= K_leafOverloadThreshold() ==> lfT(h, bpt, noix(), noix())
 modifies mem alloc fs bpt rp c_record c_nonLeafChild c_recordPathComponent
 ensures tree: lpre(h, bpt, rp, noix()) && lmid(h0, h, bpt0, bpt)
 hide ixA ixOK lfs ring linkIns
 at entry { let gP = pth(h, rp); let ga = gP[bpt.height - 1].NodeAddr; let L0 = tL(h, bpt); let gE = tE(h, bpt); lem_levs(h.mem, bpt.rootAddr, bpt.height); lem_lonpath(h, bpt, gP, noix(), noix(), ga, noix()); lem_leaf_K(); lem_nonleaf_K(); lem_lf0(h, bpt, ga); lem_ix_weak(h, bpt, bpt.rootAddr, noix()); split; }
 at call increaseHeight after { let h9 = h; let gK = tL(h, bpt); assert(gK[1] == L0[0]); assert(tE(h, bpt) == gE); lem_lf_keep(h0, h, bpt0, bpt, ga, noix()); let gP2 = seq![T_recordPathComponent { NodeAddr: bpt.rootAddr, RecordOrNonLeafChildIndex: 0 }] + gP; lem_path_raise(h0, h, bpt0, bpt, gP, gP2, noix(), noix()); lem_lonpath(h, bpt, gP2, ga, bpt.rootAddr, ga, noix()); assert(lfT(h, bpt, ga, noix()) && ixT(h, bpt, ga, bpt.rootAddr) && pathOK(h.mem, bpt.rootAddr, gP2, bpt.height) && lmid(h0, h, bpt0, bpt)); split; }
 at assign leafParentAddr before {  let h1 = h; let t1 = bpt; let rp1 = recordPath; let P1 = pth(h, recordPath); let gpa = P1[i - 1].NodeAddr; let jl = P1[i - 1].RecordOrNonLeafChildIndex; let gxa = if bpt0.height == 1 { ga } else { noix() }; let gxb = if bpt0.height == 1 { gpa } else { noix() };
   if bpt0.height == 1 { assert(P1 =~= seq![T_recordPathComponent { NodeAddr: bpt.rootAddr, RecordOrNonLeafChildIndex: 0 }] + gP); } 
   assert(ixT(h, bpt, gxa, gxb)); assert(lfT(h, bpt, ga, noix())); assert(lmid(h0, h, bpt0, bpt)); assert(pathOK(h.mem, bpt.rootAddr, P1, bpt.height)); split;
   assert(ixT(h, bpt, gxa, gxb) && lfT(h, bpt, ga, noix()) && lmid(h0, h, bpt0, bpt) && pathOK(h.mem, bpt.rootAddr, P1, bpt.height));
   assert(z_wf_c_recordPathComponent(h, recordPath) && recordPath.ep == 0 && recordPath.len == bpt.height && i == bpt.height - 1 && i >= 1 && bpt.height == P1.len() && P1[i].NodeAddr == ga && h0.nxt <= h.nxt && z_heap_ok(h));
   assert(lload(bp(h.mem, ga)) > K_leafOverloadThreshold() && leafController1 == z_access(h, ga) && tL(h, bpt).len() == bpt.height); assert(bpt0.height == 1 ==> cload(bp(h.mem, gpa)) <= K_nonLeafOverloadThreshold()); cut; lem_leaf_K(); lem_nonleaf_K(); lem_onpath(h, bpt, P1, i - 1, gxa, gxb); lem_nlP(h, gpa); split; }
 at assign leafIndex after { lem_onpath_ne(h, bpt, P1, i, i - 1, gxa, gxb); lem_lonpath(h, bpt, P1, gxa, gxb, ga, noix()); let gcp = cchs(bp(h.mem, gpa)); lem_lchild(h, bpt, P1, jl, gxa, gxb, ga, noix()); lem_chload(bp(h.mem, gpa)); lem_nlP(h, gpa); lem_lP_ne(bp(h.mem, ga));
   if jl + 1 < gcp.len() { lem_lchild(h, bpt, P1, jl + 1, gxa, gxb, ga, noix()); lem_child_ne(h, bpt, P1, i, jl, jl + 1, gxa, gxb); }
   if jl >= 1 { lem_lchild(h, bpt, P1, jl - 1, gxa, gxb, ga, noix()); lem_child_ne(h, bpt, P1, i, jl, jl - 1, gxa, gxb); }
   assert(gcp[jl].a == ga); assert(cload(bp(h.mem, gpa)) <= K_nonLeafOverloadThreshold()); split; }
 at call ShiftToRight prior { split; }
 at call ShiftToRight after { lem_lmvR(h1.mem, h.mem, gpa, jl, numberOfRecords); split; }
 at call ensureNotOverloadOrUnderloadNonLeaf#1 before { let gQ = pth(h, recordPath); let jq = if recordIndex >= m { jl + 1 } else { jl }; assert(lQ(h1.mem, P1, gQ, bpt.height, jq, gcp[jq].a)); lem_lstep_mv(h1, h, bpt, P1, gQ, jl, jq, gxa, gxb, ga); let hq = h; split; }
 at call ensureNotOverloadOrUnderloadNonLeaf#1 after { lem_lf_keep(hq, h, t1, bpt, noix(), noix()); lem_lmid(h0, h1, hq, bpt0, t1, t1); lem_lmid(h0, hq, h, bpt0, t1, bpt); assert(lpre(h, bpt, recordPath, noix())); split; }
 at call ShiftToLeft prior { split; }
 at call ShiftToLeft after { lem_lmvL(h1.mem, h.mem, gpa, jl - 1, numberOfRecords); split; }
 at call ensureNotOverloadOrUnderloadNonLeaf#2 before { let gQ = pth(h, recordPath); let jq = if recordIndex < numberOfRecords { jl - 1 } else { jl }; assert(lQ(h1.mem, P1, gQ, bpt.height, jq, gcp[jq].a)); lem_lstep_mv(h1, h, bpt, P1, gQ, jl - 1, jq, gxa, gxb, ga); let hq = h; split; }
 at call ensureNotOverloadOrUnderloadNonLeaf#2 after { lem_lf_keep(hq, h, t1, bpt, noix(), noix()); lem_lmid(h0, h1, hq, bpt0, t1, t1); lem_lmid(h0, hq, h, bpt0, t1, bpt); assert(lpre(h, bpt, recordPath, noix())); split; }
 at call createLeaf after { let h2 = h; let t2 = bpt; lem_rload(bp(h.mem, leafNSiblingAddr)); assert(!h1.al.contains(leafNSiblingAddr)); split; }
 at call Split prior { split; }
 at call Split after { let h3 = h; assert(lms(h1.mem, h.mem, gpa, jl, numberOfRecords, leafNSiblingAddr)); split; let jq = if recordIndex >= m { jl + 1 } else { jl }; let gX = if recordIndex >= m { leafNSiblingAddr } else { ga };
   let gQ = P1.update(i, T_recordPathComponent { NodeAddr: gX, RecordOrNonLeafChildIndex: 0 }).update(i - 1, T_recordPathComponent { NodeAddr: gpa, RecordOrNonLeafChildIndex: jq });
   lem_lstep_S(h1, h, t1, P1, gQ, jl, jq, numberOfRecords, leafNSiblingAddr, gxa, gxb); let gq = lfq(h1, t1, P1, jl); let E1 = tE(h1, t1); let gf = Chd { k: lrecs(bp(h.mem, leafNSiblingAddr))[0].k, a: leafNSiblingAddr }; split; }
 at call InsertLeafAfter prior { assert(t2.height == t1.height && t2.rootAddr == t1.rootAddr && t2.nonLeafCount == t1.nonLeafCount); assert(tL(h, t2) == tL(h, t1)); split; assert(ixT(h, t2, gpa, noix())); split; assert(pathOK(h.mem, t2.rootAddr, gQ, t2.height) && t2.height >= 2 && t2.height == i + 1); split; assert(tE(h, t2) == E1.insert(gq + 1, gf) && eDist(E1) && 0 <= gq < E1.len() && E1[gq].a == ga); split; assert(ends(E1, t2.leafList) && t2.leafCount == E1.len() + 1 && lfF(h1, h)); split; }
 at call InsertLeafAfter after { assert(linkIns(h3.mem, h.mem, ga, leafNSiblingAddr)); assert(mem_kept3(h3, h, -1 - leafNSiblingAddr, -1 - ga, -1 - nxq(bp(h3.mem, ga)))); split; lem_lstep_ins(h3, h, t2, bpt, gQ, E1, gq, gf, gpa); split; assert(lmid(h1, h, t1, bpt)); split;
   assert(ixT(h, bpt, gpa, noix()) && pathOK(h.mem, bpt.rootAddr, gQ, bpt.height) && lfT(h, bpt, noix(), noix()) && lmid(h1, h, t1, bpt) && lmid(h0, h1, bpt0, t1));
   assert(z_wf_c_recordPathComponent(h, recordPath) && recordPath.ep == 0 && pth(h, recordPath) == P1 && i == bpt.height - 1 && i >= 1 && bpt.height == P1.len() && P1[i].NodeAddr == ga);
   assert(cload(bp(h.mem, gpa)) <= K_nonLeafOverloadThreshold() ==> nB(h.mem, gpa, i - 1)); assert(jl == P1[i - 1].RecordOrNonLeafChildIndex && leafIndex == jl && h0.nxt <= h.nxt && z_heap_ok(h)); cut; }
 at call ensureNotOverloadNonLeaf before { let gR = pth(h, recordPath); assert(gR.len() == bpt.height && gR[i].NodeAddr == gX); assert(gR[i - 1] == gQ[i - 1]); assert(forall|d: int| 0 <= d < i - 1 ==> #[trigger] gR[d] == P1[d]); split; assert(pathOK(h.mem, bpt.rootAddr, gR, bpt.height)) by { lem_pathR(h.mem, bpt.rootAddr, gQ, gR, bpt.height); } split; let hq = h; let tq = bpt; assert(rpre(h, bpt, recordPath, i - 1, noix())); assert(lfT(hq, tq, noix(), noix()) && lmid(h1, hq, t1, tq)); split; }
 at call ensureNotOverloadNonLeaf after { assert(tF(tq, bpt) && tE(h, bpt) == tE(hq, tq) && ixF(hq, h, tE(hq, tq)) && hq.nxt <= h.nxt); split; lem_lf_keep(hq, h, tq, bpt, noix(), noix()); assert(lfT(h, bpt, noix(), noix()) && lmid(hq, h, tq, bpt)); split; lem_lmid(h0, h1, hq, bpt0, t1, tq); lem_lmid(h0, hq, h, bpt0, tq, bpt); assert(lpre(h, bpt, recordPath, noix())); split; }
