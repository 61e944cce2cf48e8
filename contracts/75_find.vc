func bptree.BPTree.findRecord(bpt, key) (rp, ok)
 props C02 C03 C06 C07 C08
 requires tI(h, bpt) && bpt.recordCount == tR(h, bpt).len() && z_wf_mem(h, key) && z_valid(h, key)
 modifies alloc c_recordPathComponent
 ensures path: fpath(h, bpt, rp)
 ensures found: fpost(h, bpt, pth(h, rp), ok, key)
 hide tI dinv fpost pathOK tR
 at entry { let t = bpt; if tR(h, bpt).len() == 0 { lem_find0(h, bpt, key); } lem_findS(h, bpt, key); }
 loop 1
  invariant hEq(h0, h) && z_wf_c_recordPathComponent(h, recordPath) && recordPath.ep == 0 && recordPath.blk >= 0 && recordPath.blk >= h0.nxt
  invariant recordPath.len < bpt.height && tI(h, bpt) && tR(h, bpt).len() >= 1 && tR(h, bpt) == tR(h0, bpt)
  invariant dinv(h, bpt, snoc(pth(h, recordPath), nodeAddr, 0), recordPath.len, key)
  decreases bpt.height - recordPath.len
 at assign recordPath#1 after { lem_tI_same(h0, h, bpt); assert(snoc(pth(h, recordPath), bpt.rootAddr, 0) =~= snoc(Seq::empty(), bpt.rootAddr, 0)); }
 at loop 1 begin { let P = pth(h, recordPath); let ga = nodeAddr; let h1 = h; lem_tI_same(h0, h, bpt); if P.len() + 1 == bpt.height { lem_findL(h, bpt, P, ga, key); } else { lem_findC(h, bpt, P, ga, key); } }
 at call LocateRecord after { assert(lIx(h1, bp(h1.mem, ga), i, ok, key)); }
 at loop 1 end { assert(pth(h, recordPath) =~= snoc(P, ga, i)); lem_tI_same(h1, h, bpt); }
 at call GetChildAddr before { let G = z_seq_mem(h1, key); lem_lex_eq(G, G); assert(cIx(h1, bp(h1.mem, ga), i, key)); }
 at exit { lem_tI_same(h0, h, bpt); if bpt.recordCount == 0 { assert(pth(h, rp) =~= snoc(Seq::empty(), bpt.rootAddr, 0)); } }
 at assign recordPath#2 after { assert(pth(h, recordPath) =~= snoc(P, ga, i)); }
