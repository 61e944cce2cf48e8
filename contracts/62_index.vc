func bptree.BPTree.increaseHeight(bpt)
 props C02 C03 C07 C08 C09 C10
 requires ixT(h, bpt, bpt.rootAddr, noix())
 modifies mem alloc fs bpt c_nonLeafChild
 ensures @C02 @C03 levels: tL(h, bpt) == seq![root1(bpt.rootAddr)] + tL(h0, bpt0) && ixT(h, bpt, bpt0.rootAddr, bpt.rootAddr)
 ensures root: nOK(h.mem, bpt.rootAddr) && cchs(bp(h.mem, bpt.rootAddr)) == seq![Chd { k: ek(), a: bpt0.rootAddr }] && cload(bp(h.mem, bpt.rootAddr)) <= K_nonLeafOverloadThreshold() && cn(bp(h.mem, bpt.rootAddr)) == 1
 ensures fields: tF(bpt0, bpt) && bpt.height == bpt0.height + 1
 ensures @C08 @C09 frame: ixF(h0, h, tE(h0, bpt0)) && !h0.al.contains(bpt.rootAddr) && forall|b: int| b < h0.nxt && b != -1 - bpt.rootAddr ==> #[trigger] h.mem[b] == h0.mem[b]
 at call InsertChildren prior { let h1 = h; reveal_with_fuel(csz, 2); assert(z_seq_mem(h, z_nil()) =~= ek()); }
 at call InsertChildren after { let h2 = h; assert(cchs(bp(h.mem, rootAddr)) =~= seq![Chd { k: ek(), a: bpt.rootAddr }]); }
 at exit { lem_raise(h0, h, bpt0, bpt); let L = tL(h0, bpt0); assert forall|j: int| 0 <= j < tE(h0, bpt0).len() implies h.mem[-1 - (#[trigger] tE(h0, bpt0)[j]).a] == h0.mem[-1 - tE(h0, bpt0)[j].a] by { assert(h0.al.contains(adr(L, bpt0.height - 1, j))); } }

func bptree.BPTree.decreaseHeight(bpt)
 props C02 C03 C07 C08 C09 C10
 requires ixT(h, bpt, bpt.rootAddr, noix()) && bpt.height >= 2 && cn(bp(h.mem, bpt.rootAddr)) == 1
 modifies mem fs bpt
 ensures @C02 @C03 levels: tL(h, bpt) == tL(h0, bpt0).subrange(1, bpt0.height) && ixT(h, bpt, noix(), noix())
 ensures fields: tF(bpt0, bpt) && bpt.height == bpt0.height - 1
 ensures root: bpt.rootAddr == cchs(bp(h0.mem, bpt0.rootAddr))[0].a
 ensures @C08 @C09 frame: ixF(h0, h, tE(h0, bpt0)) && forall|b: int| b < h0.nxt && b != -1 - bpt0.rootAddr ==> #[trigger] h.mem[b] == h0.mem[b]
 at entry { let L = tL(h0, bpt0); lem_levs(h.mem, bpt.rootAddr, bpt.height); assert(inL(L, 0, 0)); assert(nodeP(h.mem, adr(L, 0, 0), 0, bpt.rootAddr, noix())); assert(h.al.contains(adr(L, 0, 0))); lem_nlP(h, bpt.rootAddr); }
 at exit { lem_lower(h0, h, bpt0, bpt); assert forall|j: int| 0 <= j < tE(h0, bpt0).len() implies h.mem[-1 - (#[trigger] tE(h0, bpt0)[j]).a] == h0.mem[-1 - tE(h0, bpt0)[j].a] by { assert(h0.al.contains(adr(L, bpt0.height - 1, j))); if tE(h0, bpt0)[j].a == bpt0.rootAddr { lem_dist(L, bpt0.height - 1, j, 0, 0); } } }
