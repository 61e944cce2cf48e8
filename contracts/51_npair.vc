func bptree.nonLeafController.ShiftToLeft(lc, m, parent, index, ls)
 props C02 C03 C07 C08
 requires nlP(h, lc) && nlP(h, ls) && nlP(h, parent) && lc.blk < 0 && ls.blk < 0 && parent.blk < 0 && lc.blk != ls.blk && lc.blk != parent.blk && ls.blk != parent.blk
 requires shape: 1 <= m < cn(pg(h, lc)) && 0 <= index < cn(pg(h, parent)) && cchs(pg(h, lc))[0].k.len() == 0
 requires @C07 roomp: cload(pg(h, parent)) + cchs(pg(h, lc))[m].k.len() - cchs(pg(h, parent))[index].k.len() <= 8188
 requires @C07 room: cload(pg(h, ls)) + clsz(cchs(pg(h, lc)), 0, m) + cchs(pg(h, parent))[index].k.len() <= 8188
 modifies mem alloc c_nonLeafChild
 ensures mem_kept3(h0, h, lc.blk, ls.blk, parent.blk) && nlP(h, lc) && nlP(h, ls) && nlP(h, parent)
 ensures moved: { let o = cchs(pg(h0, lc)); let n = o.len() as int; cchs(pg(h, lc)) == rk(o.subrange(m, n), ek()) && cchs(pg(h, ls)) == cchs(pg(h0, ls)) + rk(o.subrange(0, m), cchs(pg(h0, parent))[index].k) }
 ensures parent: { let c = cchs(pg(h0, parent)); cchs(pg(h, parent)) == c.update(index, Chd { k: cchs(pg(h0, lc))[m].k, a: c[index].a }) }
 at entry { let o = cchs(pg(h0, lc)); let n = o.len() as int; let l = cchs(pg(h0, leftSibling)); let gp = cchs(pg(h0, parent)); lem_chload(pg(h0, lc)); lem_chload(pg(h0, leftSibling)); lem_chload(pg(h0, parent)); lem_chload_sub(o, 0, m); lem_chload_sub(o, m, n); lem_cload(pg(h0, parent), cn(pg(h0, parent))); assert(o[0].k =~= ek()); }
 at call RemoveChildren after { let h1 = h; let R = cs(h, children); assert(cchs(pg(h, lc)) =~= o.subrange(m, n)); assert(R.len() == m); lem_chload(pg(h, lc)); split; }
 at call SetKey#1 before { let h2 = h; lem_cs_rk(h1, h, children, cs_at(h, children, 0).Key); let R2 = rk(R, gp[index].k); assert(cs(h, children) =~= R2); split; }
 at call SetKey#1 after { assert(pg(h, lc) == pg(h1, lc)); lem_cload(pg(h, lc), cn(pg(h, lc))); split; }
 at call SetKey#2 after { assert(z_seq_mem(h2, z_nil()) =~= ek()); assert(z_seq_mem(h, z_nil()) =~= ek()); assert(cchs(pg(h, lc))[0].k =~= ek()); assert(cchs(pg(h, lc)) =~= rk(o.subrange(m, n), ek())); lem_cs_ok(h2, h, children, leftSibling.blk); lem_chload_upd(o.subrange(0, m), 0, Chd { k: gp[index].k, a: o[0].a }); lem_cload(pg(h, leftSibling), cn(pg(h, leftSibling))); assert(R2 =~= o.subrange(0, m).update(0, Chd { k: gp[index].k, a: o[0].a })); split; }
 at exit { assert(cchs(pg(h, leftSibling)) =~= l + R2); }

func bptree.nonLeafController.ShiftToRight(lc, m, parent, index, rsib)
 props C02 C03 C07 C08
 requires nlP(h, lc) && nlP(h, rsib) && nlP(h, parent) && lc.blk < 0 && rsib.blk < 0 && parent.blk < 0 && lc.blk != rsib.blk && lc.blk != parent.blk && rsib.blk != parent.blk
 requires shape: 1 <= m < cn(pg(h, lc)) && 0 <= index + 1 < cn(pg(h, parent)) && cn(pg(h, rsib)) >= 1 && cchs(pg(h, rsib))[0].k.len() == 0
 requires @C07 roomp: { let o = cchs(pg(h, lc)); cload(pg(h, parent)) + o[o.len() - m].k.len() - cchs(pg(h, parent))[index + 1].k.len() <= 8188 }
 requires @C07 room: { let o = cchs(pg(h, lc)); let n = o.len() as int; cload(pg(h, rsib)) + clsz(o, n - m, n) - o[n - m].k.len() + cchs(pg(h, parent))[index + 1].k.len() <= 8188 }
 modifies mem alloc c_nonLeafChild
 ensures mem_kept3(h0, h, lc.blk, rsib.blk, parent.blk) && nlP(h, lc) && nlP(h, rsib) && nlP(h, parent)
 ensures moved: { let o = cchs(pg(h0, lc)); let n = o.len() as int; cchs(pg(h, lc)) == o.subrange(0, n - m) && cchs(pg(h, rsib)) == rk(o.subrange(n - m, n), ek()) + rk(cchs(pg(h0, rsib)), cchs(pg(h0, parent))[index + 1].k) }
 ensures parent: { let o = cchs(pg(h0, lc)); let c = cchs(pg(h0, parent)); cchs(pg(h, parent)) == c.update(index + 1, Chd { k: o[o.len() - m].k, a: c[index + 1].a }) }
 at entry { let o = cchs(pg(h0, lc)); let n = o.len() as int; let l = cchs(pg(h0, rightSibling)); let gp = cchs(pg(h0, parent)); lem_chload(pg(h0, lc)); lem_chload(pg(h0, rightSibling)); lem_chload(pg(h0, parent)); lem_chload_sub(o, 0, n - m); lem_chload_sub(o, n - m, n); lem_cload(pg(h0, parent), cn(pg(h0, parent))); lem_cload(pg(h0, rightSibling), cn(pg(h0, rightSibling))); let gk = gp[index + 1].k; }
 at call RemoveChildren after { let h1 = h; let R = cs(h, children); assert(cchs(pg(h, lc)) =~= o.subrange(0, n - m)); assert(R =~= o.subrange(n - m, n)); let gt = cs_at(h, children, 0); assert(R[0] == cs1(h, children, 0)); lem_chload_sub(o, n - m + 1, n); lem_chload_sub(o, n - m, n - m + 1); split; }
 at call SetKey#1 after { let h2 = h; lem_cs_ok(h1, h, children, parent.blk); assert(cs(h, children)[0] == cs1(h, children, 0)); assert(cchs(pg(h, rightSibling)) =~= rk(l, gk)); lem_chload(pg(h, rightSibling)); lem_chload_upd(l, 0, Chd { k: gk, a: l[0].a }); split; }
 at call SetKey#2 after { let h3 = h; lem_cs_ok(h2, h, children, parent.blk); assert(cs(h, children)[0] == cs1(h, children, 0)); split; }
 at call InsertChildren before { lem_cs_rk(h3, h, children, z_nil()); assert(z_seq_mem(h, z_nil()) =~= ek()); let R2 = rk(R, ek()); assert(cs(h, children) =~= R2); lem_cs_ok(h, h, children, rightSibling.blk); lem_chload_upd(R, 0, Chd { k: ek(), a: R[0].a }); lem_cload(pg(h, rightSibling), cn(pg(h, rightSibling))); split; }
 at exit { assert(cchs(pg(h, rightSibling)) =~= R2 + rk(l, gk)); }

func bptree.nonLeafController.MergeFromRight(lc, parent, index, rsib)
 props C02 C03 C07 C08
 requires nlP(h, lc) && nlP(h, rsib) && nlP(h, parent) && lc.blk < 0 && rsib.blk < 0 && parent.blk < 0 && lc.blk != rsib.blk && lc.blk != parent.blk && rsib.blk != parent.blk
 requires shape: 1 <= cn(pg(h, rsib)) && 0 <= index && index + 1 < cn(pg(h, parent)) && cchs(pg(h, rsib))[0].k.len() == 0
 requires @C07 room: cload(pg(h, rsib)) + cload(pg(h, lc)) + cchs(pg(h, parent))[index + 1].k.len() <= 8188
 modifies mem alloc c_nonLeafChild
 ensures mem_kept3(h0, h, lc.blk, rsib.blk, parent.blk) && nlP(h, lc) && nlP(h, rsib) && nlP(h, parent)
 ensures moved: cchs(pg(h, lc)) == cchs(pg(h0, lc)) + rk(cchs(pg(h0, rsib)), cchs(pg(h0, parent))[index + 1].k)
 ensures parent: cchs(pg(h, parent)) == cchs(pg(h0, parent)).remove(index + 1)
 at entry { let o = cchs(pg(h0, lc)); let l = cchs(pg(h0, rightSibling)); let gp = cchs(pg(h0, parent)); let gk = gp[index + 1].k; lem_chload(pg(h0, lc)); lem_chload(pg(h0, rightSibling)); }
 at call RemoveChildren#1 after { assert(cchs(pg(h, parent)) =~= gp.remove(index + 1)); let hk = h; let gt = cs_at(h, ret_RemoveChildren, 0); assert(cs(h, ret_RemoveChildren)[0] == cs1(h, ret_RemoveChildren, 0)); assert(z_seq_mem(h, key) =~= gk); split; }
 at call RemoveChildren#2 after { let h1 = h; let R = cs(h, children); assert(R =~= l); assert(cchs(pg(h, lc)) == o); assert(z_seq_mem(h, key) =~= gk); split; }
 at call InsertChildren before { lem_cs_rk(h1, h, children, key); let R2 = rk(l, gk); assert(cs(h, children) =~= R2); lem_cs_ok(h, h, children, lc.blk); lem_chload_upd(l, 0, Chd { k: gk, a: l[0].a }); lem_cload(pg(h, lc), cn(pg(h, lc))); split; }
 at exit { assert(cchs(pg(h, lc)) =~= o + R2); }

func bptree.nonLeafController.MergeToLeft(lc, parent, index, ls)
 props C02 C03 C07 C08
 requires nlP(h, lc) && nlP(h, ls) && nlP(h, parent) && lc.blk < 0 && ls.blk < 0 && parent.blk < 0 && lc.blk != ls.blk && lc.blk != parent.blk && ls.blk != parent.blk
 requires shape: 1 <= cn(pg(h, lc)) && 1 <= index < cn(pg(h, parent)) && cchs(pg(h, lc))[0].k.len() == 0
 requires @C07 room: cload(pg(h, ls)) + cload(pg(h, lc)) + cchs(pg(h, parent))[index].k.len() <= 8188
 modifies mem alloc c_nonLeafChild
 ensures mem_kept3(h0, h, lc.blk, ls.blk, parent.blk) && nlP(h, lc) && nlP(h, ls) && nlP(h, parent)
 ensures moved: cchs(pg(h, ls)) == cchs(pg(h0, ls)) + rk(cchs(pg(h0, lc)), cchs(pg(h0, parent))[index].k)
 ensures parent: cchs(pg(h, parent)) == cchs(pg(h0, parent)).remove(index)

func bptree.nonLeafController.Split(lc, m, parent, index, ns, nsa)
 props C02 C03 C07 C08
 requires nlP(h, lc) && nlP(h, ns) && nlP(h, parent) && lc.blk < 0 && ns.blk < 0 && parent.blk < 0 && lc.blk != ns.blk && lc.blk != parent.blk && ns.blk != parent.blk
 requires shape: 1 <= m < cn(pg(h, lc)) && cn(pg(h, ns)) == 0 && 0 <= index < cn(pg(h, parent)) && z_i64ok(nsa)
 requires @C07 roomp: { let o = cchs(pg(h, lc)); cload(pg(h, parent)) + 12 + o[o.len() - m].k.len() <= 8188 }
 modifies mem alloc c_nonLeafChild
 ensures mem_kept3(h0, h, lc.blk, ns.blk, parent.blk) && nlP(h, lc) && nlP(h, ns) && nlP(h, parent)
 ensures moved: { let o = cchs(pg(h0, lc)); let n = o.len() as int; cchs(pg(h, lc)) == o.subrange(0, n - m) && cchs(pg(h, ns)) == rk(o.subrange(n - m, n), ek()) }
 ensures parent: { let o = cchs(pg(h0, lc)); let c = cchs(pg(h0, parent)); cchs(pg(h, parent)) == c.insert(index + 1, Chd { k: o[o.len() - m].k, a: nsa }) }
 at entry { let o = cchs(pg(h0, lc)); let n = o.len() as int; let gk = o[n - m].k; lem_chload(pg(h0, lc)); lem_chload(pg(h0, newSibling)); lem_chload_sub(o, 0, n - m); lem_chload_sub(o, n - m, n); lem_cload(pg(h0, parent), cn(pg(h0, parent))); assert(cchs(pg(h0, newSibling)) =~= Seq::<Chd>::empty()); }
 at call RemoveChildren after { let h1 = h; let R = cs(h, children); assert(cchs(pg(h, lc)) =~= o.subrange(0, n - m)); assert(R =~= o.subrange(n - m, n)); let gt = cs_at(h, children, 0); assert(R[0] == cs1(h, children, 0)); split; }
 at call InsertChildren#1 before { lem_cs_rk(h1, h, children, z_nil()); assert(z_seq_mem(h, z_nil()) =~= ek()); let R2 = rk(R, ek()); assert(cs(h, children) =~= R2); lem_cs_ok(h, h, children, newSibling.blk); lem_chload_upd(R, 0, Chd { k: ek(), a: R[0].a }); assert(z_seq_mem(h, key) =~= gk); split; }
 at call InsertChildren#1 after { assert(cchs(pg(h, newSibling)) =~= R2); assert(z_seq_mem(h, key) =~= gk); split; }
 at call InsertChildren#2 prior { reveal_with_fuel(csz, 2); }
 at exit { let gc = cchs(pg(h0, parent)); assert(cchs(pg(h, parent)) =~= gc.insert(index + 1, Chd { k: gk, a: nsa })); }

func bptree.nonLeafController.UnshiftFromLeft(lc, m, parent, index, ls)
 props C02 C03 C07 C08
 requires nlP(h, lc) && nlP(h, ls) && nlP(h, parent) && lc.blk < 0 && ls.blk < 0 && parent.blk < 0 && lc.blk != ls.blk && lc.blk != parent.blk && ls.blk != parent.blk
 requires shape: 1 <= m < cn(pg(h, ls)) && 1 <= index < cn(pg(h, parent)) && cn(pg(h, lc)) >= 1 && cchs(pg(h, lc))[0].k.len() == 0
 requires @C07 roomp: { let o = cchs(pg(h, ls)); cload(pg(h, parent)) + o[o.len() - m].k.len() - cchs(pg(h, parent))[index].k.len() <= 8188 }
 requires @C07 room: { let o = cchs(pg(h, ls)); let n = o.len() as int; cload(pg(h, lc)) + clsz(o, n - m, n) - o[n - m].k.len() + cchs(pg(h, parent))[index].k.len() <= 8188 }
 modifies mem alloc c_nonLeafChild
 ensures mem_kept3(h0, h, lc.blk, ls.blk, parent.blk) && nlP(h, lc) && nlP(h, ls) && nlP(h, parent)
 ensures moved: { let o = cchs(pg(h0, ls)); let n = o.len() as int; cchs(pg(h, ls)) == o.subrange(0, n - m) && cchs(pg(h, lc)) == rk(o.subrange(n - m, n), ek()) + rk(cchs(pg(h0, lc)), cchs(pg(h0, parent))[index].k) }
 ensures parent: { let o = cchs(pg(h0, ls)); let c = cchs(pg(h0, parent)); cchs(pg(h, parent)) == c.update(index, Chd { k: o[o.len() - m].k, a: c[index].a }) }

func bptree.nonLeafController.UnshiftFromRight(lc, m, parent, index, rsib)
 props C02 C03 C07 C08
 requires nlP(h, lc) && nlP(h, rsib) && nlP(h, parent) && lc.blk < 0 && rsib.blk < 0 && parent.blk < 0 && lc.blk != rsib.blk && lc.blk != parent.blk && rsib.blk != parent.blk
 requires shape: 1 <= m < cn(pg(h, rsib)) && 0 <= index && index + 1 < cn(pg(h, parent)) && cchs(pg(h, rsib))[0].k.len() == 0
 requires @C07 roomp: cload(pg(h, parent)) + cchs(pg(h, rsib))[m].k.len() - cchs(pg(h, parent))[index + 1].k.len() <= 8188
 requires @C07 room: cload(pg(h, lc)) + clsz(cchs(pg(h, rsib)), 0, m) + cchs(pg(h, parent))[index + 1].k.len() <= 8188
 modifies mem alloc c_nonLeafChild
 ensures mem_kept3(h0, h, lc.blk, rsib.blk, parent.blk) && nlP(h, lc) && nlP(h, rsib) && nlP(h, parent)
 ensures moved: { let o = cchs(pg(h0, rsib)); let n = o.len() as int; cchs(pg(h, rsib)) == rk(o.subrange(m, n), ek()) && cchs(pg(h, lc)) == cchs(pg(h0, lc)) + rk(o.subrange(0, m), cchs(pg(h0, parent))[index + 1].k) }
 ensures parent: { let c = cchs(pg(h0, parent)); cchs(pg(h, parent)) == c.update(index + 1, Chd { k: cchs(pg(h0, rsib))[m].k, a: c[index + 1].a }) }
