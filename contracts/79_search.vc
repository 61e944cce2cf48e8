func bptree.BPTree.search(bpt, minKey, maxKey) (a1, i1, a2, i2, ok)
 props C03 C02 C06 C07 C08
 requires tP(h, bpt) && sl_ok(h, minKey) && sl_ok(h, maxKey)
 modifies mem alloc c_recordPathComponent
 ensures tree: tP(h, bpt) && tC(h, bpt) == tC(h0, bpt) && mem_kept(h0, h)
 ensures @C03 range: sOK(h, bpt, minKey, z_seq_mem(h0, minKey), maxKey, z_seq_mem(h0, maxKey), a1, i1, a2, i2, ok)
 hide ixT lfT fpost pathOK tR lfF kvOK asc ovD loI hiI atR fAt lok tI sortd psz
 at entry { let S = tC(h0, bpt); let G1 = z_seq_mem(h0, minKey); let G2 = z_seq_mem(h0, maxKey); lem_sortd(h, bpt); if S.len() > 0 { lem_range(S, minKey, G1, maxKey, G2); lem_range1(S, minKey, G1, maxKey, G2); } }
 at call findRecord#1 after { let P = pth(h, minRecordPath); lem_tP_same(h0, h, bpt); lem_tI_same(h0, h, bpt); lem_fnd(h, bpt, P, ok3, minKey); let lo = fAt(h, bpt, P); let h1 = h; split; }
 at call ReadKeyAll#1 after { lem_atU_keep(h1, h, bpt, minLeafAddr, minRecordIndex, lo); assert(z_seq_mem(h, minKey) == S[lo].0); assert(z_seq_mem(h, maxKey) == G2); split; }
 at call findRecord#2 before { let h2 = h; assert(atU(h, bpt, minLeafAddr, minRecordIndex, lo)); assert(z_seq_mem(h, minKey) == S[lo].0); assert(z_seq_mem(h, maxKey) == G2); assert(lo <= hiI(S, maxKey0, G2) || isMin(maxKey) || isMax(maxKey) || ok3); split; }
 at call findRecord#2 after { let P2 = pth(h, maxRecordPath); lem_tP_same(h2, h, bpt); lem_tI_same(h2, h, bpt); lem_atU_keep(h2, h, bpt, minLeafAddr, minRecordIndex, lo); lem_fnd(h, bpt, P2, ok4, maxKey); let h3 = h; let hi = hiI(S, maxKey, G2); split; }
 at call ReadKeyAll#2 after { lem_atU_keep(h3, h, bpt, minLeafAddr, minRecordIndex, lo); lem_atU_keep(h3, h, bpt, maxLeafAddr, maxRecordIndex, hi); assert(z_seq_mem(h, maxKey) == S[hi].0); assert(z_seq_mem(h, minKey) == S[lo].0); split; }
