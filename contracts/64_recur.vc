func bptree.BPTree.ensureNotOverloadOrUnderloadNonLeaf(bpt, rp, i)
 props C02 C03 C07 C08 C09 C10 C13
 decreases 2 * i + 3
 requires rpre(h, bpt, rp, i, noix())
 modifies mem alloc fs bpt rp c_nonLeafChild c_recordPathComponent
 ensures tree: rpost(h0, h, bpt0, bpt, rp0, rp)
 at entry { let gP = pth(h, rp); let ga = gP[i].NodeAddr; lem_onpath(h, bpt, gP, i, ga, noix()); lem_nlP(h, ga); }

func bptree.BPTree.ensureNotOverloadNonLeaf(bpt, rp, i)
 props C02 C03 C07 C08 C09 C10 C13
 decreases if cload(bp(h.mem, pth(h, rp)[i].NodeAddr)) <= K_nonLeafOverloadThreshold() { 0 } else { 2 * i + 2 }
 requires rpre(h, bpt, rp, i, noix())
 requires @C07 @C13 load: { let a = pth(h, rp)[i].NodeAddr; cload(bp(h.mem, a)) <= K_nonLeafOverloadThreshold() ==> nB(h.mem, a, i) }
 modifies mem alloc fs bpt rp c_nonLeafChild c_recordPathComponent
 ensures tree: rpost(h0, h, bpt0, bpt, rp0, rp)
 at entry { let gP = pth(h, rp); let ga = gP[i].NodeAddr; let L0 = tL(h, bpt); lem_levs(h.mem, bpt.rootAddr, bpt.height); lem_onpath(h, bpt, gP, i, ga, noix()); lem_nlP(h, ga); lem_nonleaf_K(); lem_chload(bp(h.mem, ga));
   if cload(bp(h.mem, ga)) <= K_nonLeafOverloadThreshold() { lem_ix_clear(h, bpt, gP, i, noix()); } else { lem_cn2(cchs(bp(h.mem, ga))); } split; }
 at call increaseHeight after { let gK = tL(h, bpt); assert(gK[1] == L0[0]); assert(inL(gK, 1, 0)); assert(L0[0] == root1(bpt0.rootAddr)); assert(adr(gK, 1, 0) == ga); assert(h.al.contains(adr(gK, 1, 0))); split; }
 at assign nonLeafParentAddr before { if i0 == 0 { assert(pth(h, recordPath) =~= seq![T_recordPathComponent { NodeAddr: bpt.rootAddr, RecordOrNonLeafChildIndex: 0 }] + gP); lem_ovM(h0, h, bpt0, bpt, rp0, recordPath); } else { lem_ovM0(h, bpt, recordPath, i); } assert(ovM(h0, h, bpt0, bpt, rp0, recordPath, i0, i)); assert(i0 == 0 ==> cn(bp(h.mem, pth(h, recordPath)[0].NodeAddr)) == 1); split;
   let h1 = h; let bpt1 = bpt; let rp1 = recordPath; let P1 = pth(h, recordPath); let gpa = P1[i - 1].NodeAddr; let gxb = if i0 == 0 { gpa } else { noix() }; let gcp = cchs(bp(h.mem, gpa)); let jl = P1[i - 1].RecordOrNonLeafChildIndex;
   lem_onpath(h, bpt, P1, i, ga, gxb); lem_onpath(h, bpt, P1, i - 1, ga, gxb); lem_onpath_ne(h, bpt, P1, i, i - 1, ga, gxb); lem_nlP(h, ga); lem_nlP(h, gpa); lem_child(h, bpt, P1, i, jl, ga, gxb); lem_chload(bp(h.mem, gpa));
   if jl + 1 < gcp.len() { lem_child(h, bpt, P1, i, jl + 1, ga, gxb); lem_child_ne(h, bpt, P1, i, jl, jl + 1, ga, gxb); lem_nlP(h, gcp[jl + 1].a); }
   if jl >= 1 { lem_child(h, bpt, P1, i, jl - 1, ga, gxb); lem_child_ne(h, bpt, P1, i, jl, jl - 1, ga, gxb); lem_nlP(h, gcp[jl - 1].a); lem_chload(bp(h.mem, gcp[jl - 1].a)); lem_cn2(cchs(bp(h.mem, gcp[jl - 1].a))); }
   assert(gcp[jl].a == ga); split; }
 at call ShiftToRight after { let h2 = h; assert(mvR(h1.mem, h.mem, gpa, jl, numberOfChildren)); split; }
 at call ensureNotOverloadOrUnderloadNonLeaf#1 before { let gQ = pth(h, recordPath); if nonLeafChildIndex >= m { assert(gQ =~= P1.update(i, T_recordPathComponent { NodeAddr: gcp[jl + 1].a, RecordOrNonLeafChildIndex: nonLeafChildIndex - m }).update(i - 1, T_recordPathComponent { NodeAddr: gpa, RecordOrNonLeafChildIndex: jl + 1 })); } else { assert(gQ =~= P1); }
   assert(qR(h1.mem, P1, gQ, i, jl, numberOfChildren)); lem_step_R(h1, h, bpt, P1, gQ, i, jl, numberOfChildren, ga, gxb); let hq = h; split; }
 at call ensureNotOverloadOrUnderloadNonLeaf#1 after { lem_rmid(h0, h1, hq, bpt0, bpt1, bpt1, rp0, rp1, rp1); lem_rmid(h0, hq, h, bpt0, bpt1, bpt, rp0, rp1, recordPath); }
 at call ShiftToLeft after { let h2 = h; assert(mvL(h1.mem, h.mem, gpa, jl - 1, numberOfChildren)); split; }
 at call ensureNotOverloadOrUnderloadNonLeaf#2 before { let gQ = pth(h, recordPath); if nonLeafChildIndex < numberOfChildren { assert(gQ =~= P1.update(i, T_recordPathComponent { NodeAddr: gcp[jl - 1].a, RecordOrNonLeafChildIndex: m + nonLeafChildIndex }).update(i - 1, T_recordPathComponent { NodeAddr: gpa, RecordOrNonLeafChildIndex: jl - 1 })); } else { assert(gQ =~= P1.update(i, T_recordPathComponent { NodeAddr: ga, RecordOrNonLeafChildIndex: nonLeafChildIndex - numberOfChildren }).update(i - 1, T_recordPathComponent { NodeAddr: gpa, RecordOrNonLeafChildIndex: jl })); }
   assert(qL(h1.mem, P1, gQ, i, jl - 1, numberOfChildren)); lem_step_L(h1, h, bpt, P1, gQ, i, jl - 1, numberOfChildren, ga, gxb); let hq = h; split; }
 at call ensureNotOverloadOrUnderloadNonLeaf#2 after { lem_rmid(h0, h1, hq, bpt0, bpt1, bpt1, rp0, rp1, rp1); lem_rmid(h0, hq, h, bpt0, bpt1, bpt, rp0, rp1, recordPath); }
 at call createNonLeaf after { let h2 = h; }
 at call Split after { let h3 = h; assert(mvS(h1.mem, h.mem, gpa, jl, numberOfChildren, nonLeafNSiblingAddr)); split; }
 at call ensureNotOverloadNonLeaf before { let gQ = pth(h, recordPath); if nonLeafChildIndex >= m { assert(gQ =~= P1.update(i, T_recordPathComponent { NodeAddr: nonLeafNSiblingAddr, RecordOrNonLeafChildIndex: nonLeafChildIndex - m }).update(i - 1, T_recordPathComponent { NodeAddr: gpa, RecordOrNonLeafChildIndex: jl + 1 })); } else { assert(gQ =~= P1); }
   assert(qS(h1.mem, P1, gQ, i, jl, numberOfChildren, nonLeafNSiblingAddr)); lem_step_S(h1, h, bpt1, bpt, P1, gQ, i, numberOfChildren, nonLeafNSiblingAddr, gxb); assert(gQ[i - 1].NodeAddr == gpa); if i0 == 0 { lem_root_S(h1.mem, h.mem, gpa, jl, numberOfChildren, nonLeafNSiblingAddr); assert(cload(bp(h.mem, gpa)) <= K_nonLeafOverloadThreshold()); } let hq = h; let tq = bpt; split; }
 at call ensureNotOverloadNonLeaf after { lem_rmid(h0, h1, hq, bpt0, bpt1, tq, rp0, rp1, rp1); lem_rmid(h0, hq, h, bpt0, tq, bpt, rp0, rp1, recordPath); }

func bptree.BPTree.ensureNotUnderloadNonLeaf(bpt, rp, i)
 props C02 C03 C07 C08 C09 C10 C13
 decreases 2 * i + 2
 requires rpre(h, bpt, rp, i, noix())
 requires @C07 @C13 load: cload(bp(h.mem, pth(h, rp)[i].NodeAddr)) <= K_nonLeafOverloadThreshold()
 modifies mem alloc fs bpt rp c_nonLeafChild c_recordPathComponent
 ensures tree: rpost(h0, h, bpt0, bpt, rp0, rp)
 at entry { let P1 = pth(h, rp); let ga = P1[i].NodeAddr; let L0 = tL(h, bpt); lem_levs(h.mem, bpt.rootAddr, bpt.height); lem_onpath(h, bpt, P1, i, ga, noix()); lem_nlP(h, ga); lem_nonleaf_K(); lem_chload(bp(h.mem, ga));
   if i == 0 { if cn(bp(h.mem, ga)) != 1 { lem_ix_clear(h, bpt, P1, i, noix()); } }
   else if cload(bp(h.mem, ga)) >= K_nonLeafUnderloadThreshold() { lem_cn2(cchs(bp(h.mem, ga))); lem_ix_clear(h, bpt, P1, i, noix()); } split; }
 at call decreaseHeight before { assert(pstep(h.mem, P1, 0)); split; let ht = h; }
 at call decreaseHeight after { lem_path_lower(ht, h, bpt0, bpt, P1, P1.subrange(1, P1.len() as int), ga, noix()); assert(tE(h, bpt) == tE(ht, bpt0)); split; }
 at exit { if i0 == 0 { let gQ = pth(h, recordPath); if cn(bp(h0.mem, ga)) == 1 { assert(gQ =~= P1.subrange(1, P1.len() as int)); assert(gQ[bpt.height - 1] == P1[bpt0.height - 1]); } else { assert(gQ =~= P1); } } }
 at assign nonLeafParentAddr before { let rp1 = recordPath; let gpa = P1[i - 1].NodeAddr; let gxb = noix(); let gcp = cchs(bp(h.mem, gpa)); let jl = P1[i - 1].RecordOrNonLeafChildIndex;
   lem_onpath(h, bpt, P1, i - 1, ga, gxb); lem_onpath_ne(h, bpt, P1, i, i - 1, ga, gxb); lem_nlP(h, gpa); lem_child(h, bpt, P1, i, jl, ga, gxb); lem_chload(bp(h.mem, gpa));
   if jl + 1 < gcp.len() { lem_child(h, bpt, P1, i, jl + 1, ga, gxb); lem_child_ne(h, bpt, P1, i, jl, jl + 1, ga, gxb); lem_nlP(h, gcp[jl + 1].a); }
   if jl >= 1 { lem_child(h, bpt, P1, i, jl - 1, ga, gxb); lem_child_ne(h, bpt, P1, i, jl, jl - 1, ga, gxb); lem_nlP(h, gcp[jl - 1].a); lem_chload(bp(h.mem, gcp[jl - 1].a)); lem_cn2(cchs(bp(h.mem, gcp[jl - 1].a))); }
   assert(gcp[jl].a == ga); assert(gcp.len() >= 2); split; }
 at call UnshiftFromRight after { assert(mvL(h0.mem, h.mem, gpa, jl, numberOfChildren)); split; }
 at call ensureNotOverloadOrUnderloadNonLeaf#1 before { assert(pth(h, recordPath) =~= P1); assert(qL(h0.mem, P1, P1, i, jl, numberOfChildren)); lem_step_L(h0, h, bpt, P1, P1, i, jl, numberOfChildren, ga, gxb); let hq = h; split; }
 at call ensureNotOverloadOrUnderloadNonLeaf#1 after { lem_rmid(h0, hq, h, bpt0, bpt0, bpt, rp0, rp1, recordPath); }
 at call UnshiftFromLeft after { assert(mvR(h0.mem, h.mem, gpa, jl - 1, numberOfChildren)); split; }
 at call ensureNotOverloadOrUnderloadNonLeaf#2 before { let gQ = pth(h, recordPath); assert(gQ =~= P1.update(i, T_recordPathComponent { NodeAddr: ga, RecordOrNonLeafChildIndex: numberOfChildren + nonLeafChildIndex }).update(i - 1, T_recordPathComponent { NodeAddr: gpa, RecordOrNonLeafChildIndex: jl }));
   assert(qR(h0.mem, P1, gQ, i, jl - 1, numberOfChildren)); lem_step_R(h0, h, bpt, P1, gQ, i, jl - 1, numberOfChildren, ga, gxb); let hq = h; split; }
 at call ensureNotOverloadOrUnderloadNonLeaf#2 after { lem_rmid(h0, hq, h, bpt0, bpt0, bpt, rp0, rp1, recordPath); }
 at call MergeFromRight after { let h2 = h; }
 at call destroyNonLeaf#1 after { assert(mvM(h0.mem, h.mem, gpa, jl)); assert(h.al =~= h0.al.remove(gcp[jl + 1].a)); split; assert(pth(h, recordPath) =~= P1); assert(qM(h0.mem, P1, P1, i, jl)); lem_step_M(h0, h, bpt0, bpt, P1, P1, i, jl, ga, gxb); split; }
 at call MergeToLeft after { let h2 = h; }
 at call destroyNonLeaf#2 after { assert(mvM(h0.mem, h.mem, gpa, jl - 1)); assert(h.al =~= h0.al.remove(gcp[jl].a)); split; let gQ = P1.update(i, T_recordPathComponent { NodeAddr: gcp[jl - 1].a, RecordOrNonLeafChildIndex: m + nonLeafChildIndex }).update(i - 1, T_recordPathComponent { NodeAddr: gpa, RecordOrNonLeafChildIndex: jl - 1 }); assert(qM(h0.mem, P1, gQ, i, jl - 1)); lem_step_M(h0, h, bpt0, bpt, P1, gQ, i, jl - 1, ga, gxb); split; }
 at call ensureNotUnderloadNonLeaf before { let gR = pth(h, recordPath); if jl + 1 < gcp.len() { assert(gR =~= P1); } else { assert(gR =~= P1.update(i, T_recordPathComponent { NodeAddr: gcp[jl - 1].a, RecordOrNonLeafChildIndex: cn(bp(h0.mem, gcp[jl - 1].a)) + P1[i].RecordOrNonLeafChildIndex }).update(i - 1, T_recordPathComponent { NodeAddr: gpa, RecordOrNonLeafChildIndex: jl - 1 })); } let hq = h; let tq = bpt; split; }
 at call ensureNotUnderloadNonLeaf after { lem_rmid(h0, hq, h, bpt0, tq, bpt, rp0, rp1, recordPath); }
