func bptree.leafController.ShiftToLeft(lc, m, parent, index, ls)
 props C02 C03 C07 C08
 requires leafP(h, lc) && leafP(h, ls) && nlP(h, parent) && lc.blk < 0 && ls.blk < 0 && parent.blk < 0 && lc.blk != ls.blk && lc.blk != parent.blk && ls.blk != parent.blk
 requires shape: 1 <= m < ln(pg(h, lc)) && 0 <= index < cn(pg(h, parent))
 requires @C07 roomp: cload(pg(h, parent)) + lrecs(pg(h, lc))[m].k.len() - cchs(pg(h, parent))[index].k.len() <= 8188
 requires @C07 room: lload(pg(h, ls)) + lsz(lrecs(pg(h, lc)), 0, m) <= 8172
 modifies mem alloc c_record
 ensures mem_kept3(h0, h, lc.blk, ls.blk, parent.blk) && leafP(h, lc) && leafP(h, ls) && nlP(h, parent)
 ensures links: lnk(pg(h, lc), pg(h0, lc)) && lnk(pg(h, ls), pg(h0, ls))
 ensures moved: { let o = lrecs(pg(h0, lc)); let n = o.len() as int; lrecs(pg(h, lc)) == o.subrange(m, n) && lrecs(pg(h, ls)) == lrecs(pg(h0, ls)) + o.subrange(0, m) }
 ensures parent: { let c = cchs(pg(h0, parent)); cchs(pg(h, parent)) == c.update(index, Chd { k: lrecs(pg(h0, lc))[m].k, a: c[index].a }) }
 at entry { let o = lrecs(pg(h0, lc)); let l = lrecs(pg(h0, leftSibling)); lem_rload(pg(h0, lc)); lem_rload(pg(h0, leftSibling)); lem_rload_sub(o, 0, m); lem_rload_sub(o, m, o.len() as int); lem_cload(pg(h0, parent), cn(pg(h0, parent))); }
 at call RemoveRecords after { let h1 = h; let R = rs(h, records); assert(lrecs(pg(h, lc)) =~= o.subrange(m, o.len() as int)); assert(R.len() == m); lem_rload(pg(h, lc)); split; }
 at call SetKey after { lem_rs_ok(h1, h, records, leftSibling.blk); split; }
 at exit { assert(lrecs(pg(h, leftSibling)) =~= l + o.subrange(0, m)); }

func bptree.leafController.ShiftToRight(lc, m, parent, index, rsib)
 props C02 C03 C07 C08
 requires leafP(h, lc) && leafP(h, rsib) && nlP(h, parent) && lc.blk < 0 && rsib.blk < 0 && parent.blk < 0 && lc.blk != rsib.blk && lc.blk != parent.blk && rsib.blk != parent.blk
 requires shape: 1 <= m < ln(pg(h, lc)) && 0 <= index + 1 < cn(pg(h, parent))
 requires @C07 roomp: cload(pg(h, parent)) + lrecs(pg(h, lc))[ln(pg(h, lc)) - m].k.len() - cchs(pg(h, parent))[index + 1].k.len() <= 8188
 requires @C07 room: lload(pg(h, rsib)) + lsz(lrecs(pg(h, lc)), ln(pg(h, lc)) - m, ln(pg(h, lc))) <= 8172
 modifies mem alloc c_record
 ensures mem_kept3(h0, h, lc.blk, rsib.blk, parent.blk) && leafP(h, lc) && leafP(h, rsib) && nlP(h, parent)
 ensures links: lnk(pg(h, lc), pg(h0, lc)) && lnk(pg(h, rsib), pg(h0, rsib))
 ensures moved: { let o = lrecs(pg(h0, lc)); let n = o.len() as int; lrecs(pg(h, lc)) == o.subrange(0, n - m) && lrecs(pg(h, rsib)) == o.subrange(n - m, n) + lrecs(pg(h0, rsib)) }
 ensures parent: { let o = lrecs(pg(h0, lc)); let c = cchs(pg(h0, parent)); cchs(pg(h, parent)) == c.update(index + 1, Chd { k: o[o.len() - m].k, a: c[index + 1].a }) }
 at entry { let o = lrecs(pg(h0, lc)); let n = o.len() as int; let l = lrecs(pg(h0, rightSibling)); lem_rload(pg(h0, lc)); lem_rload(pg(h0, rightSibling)); lem_rload_sub(o, 0, n - m); lem_rload_sub(o, n - m, n); lem_cload(pg(h0, parent), cn(pg(h0, parent))); }
 at call RemoveRecords after { let h1 = h; let R = rs(h, records); assert(lrecs(pg(h, lc)) =~= o.subrange(0, n - m)); assert(R.len() == m); lem_rload(pg(h, lc)); assert(rs1(h, records, 0) == R[0]); let gt = rs_at(h, records, 0); split; }
 at call SetKey after { lem_rs_ok(h1, h, records, rightSibling.blk); split; }
 at exit { assert(lrecs(pg(h, rightSibling)) =~= o.subrange(n - m, n) + l); }

func bptree.leafController.MergeFromRight(lc, parent, index, rsib)
 props C02 C03 C07 C08
 requires leafP(h, lc) && leafP(h, rsib) && nlP(h, parent) && lc.blk < 0 && rsib.blk < 0 && parent.blk < 0 && lc.blk != rsib.blk && lc.blk != parent.blk && rsib.blk != parent.blk
 requires shape: 1 <= ln(pg(h, rsib)) && 0 <= index && index + 1 < cn(pg(h, parent))
 requires @C07 room: lload(pg(h, rsib)) + lload(pg(h, lc)) <= 8172
 modifies mem alloc c_record c_nonLeafChild
 ensures mem_kept3(h0, h, lc.blk, rsib.blk, parent.blk) && leafP(h, lc) && leafP(h, rsib) && nlP(h, parent)
 ensures links: lnk(pg(h, lc), pg(h0, lc))
 ensures moved: lrecs(pg(h, lc)) == lrecs(pg(h0, lc)) + lrecs(pg(h0, rsib))
 ensures parent: cchs(pg(h, parent)) == cchs(pg(h0, parent)).remove(index + 1)
 at entry { let o = lrecs(pg(h0, lc)); let l = lrecs(pg(h0, rightSibling)); lem_rload(pg(h0, lc)); lem_rload(pg(h0, rightSibling)); }
 at call RemoveChildren after { assert(cchs(pg(h, parent)) =~= cchs(pg(h0, parent)).remove(index + 1)); split; }
 at call RemoveRecords after { let h1 = h; let R = rs(h, records); assert(R =~= l); split; }
 at call InsertRecords before { assert(cchs(pg(h, parent)) == cchs(pg(h0, parent)).remove(index + 1)); assert(lrecs(pg(h, lc)) == o); lem_rs_ok(h1, h, records, lc.blk); split; }
 at exit { assert(lrecs(pg(h, lc)) =~= o + l); }

func bptree.leafController.MergeToLeft(lc, parent, index, ls)
 props C02 C03 C07 C08
 requires leafP(h, lc) && leafP(h, ls) && nlP(h, parent) && lc.blk < 0 && ls.blk < 0 && parent.blk < 0 && lc.blk != ls.blk && lc.blk != parent.blk && ls.blk != parent.blk
 requires shape: 1 <= ln(pg(h, lc)) && 1 <= index < cn(pg(h, parent))
 requires @C07 room: lload(pg(h, ls)) + lload(pg(h, lc)) <= 8172
 modifies mem alloc c_record c_nonLeafChild
 ensures mem_kept3(h0, h, lc.blk, ls.blk, parent.blk) && leafP(h, lc) && leafP(h, ls) && nlP(h, parent)
 ensures links: lnk(pg(h, ls), pg(h0, ls))
 ensures moved: lrecs(pg(h, ls)) == lrecs(pg(h0, ls)) + lrecs(pg(h0, lc))
 ensures parent: cchs(pg(h, parent)) == cchs(pg(h0, parent)).remove(index)

func bptree.leafController.Split(lc, m, parent, index, ns, nsa)
 props C02 C03 C07 C08
 requires leafP(h, lc) && leafP(h, ns) && nlP(h, parent) && lc.blk < 0 && ns.blk < 0 && parent.blk < 0 && lc.blk != ns.blk && lc.blk != parent.blk && ns.blk != parent.blk
 requires shape: 1 <= m < ln(pg(h, lc)) && ln(pg(h, ns)) == 0 && 0 <= index < cn(pg(h, parent)) && z_i64ok(nsa)
 requires @C07 roomp: cload(pg(h, parent)) + 12 + lrecs(pg(h, lc))[ln(pg(h, lc)) - m].k.len() <= 8188
 modifies mem alloc c_record c_nonLeafChild
 ensures mem_kept3(h0, h, lc.blk, ns.blk, parent.blk) && leafP(h, lc) && leafP(h, ns) && nlP(h, parent)
 ensures links: lnk(pg(h, lc), pg(h0, lc))
 ensures moved: { let o = lrecs(pg(h0, lc)); let n = o.len() as int; lrecs(pg(h, lc)) == o.subrange(0, n - m) && lrecs(pg(h, ns)) == o.subrange(n - m, n) }
 ensures parent: { let o = lrecs(pg(h0, lc)); let c = cchs(pg(h0, parent)); cchs(pg(h, parent)) == c.insert(index + 1, Chd { k: o[o.len() - m].k, a: nsa }) }
 at entry { let o = lrecs(pg(h0, lc)); let n = o.len() as int; lem_rload(pg(h0, lc)); lem_rload(pg(h0, newSibling)); lem_rload_sub(o, 0, n - m); lem_rload_sub(o, n - m, n); lem_cload(pg(h0, parent), cn(pg(h0, parent))); assert(lrecs(pg(h0, newSibling)) =~= Seq::<Rec>::empty()); }
 at call RemoveRecords after { let h1 = h; let R = rs(h, records); assert(lrecs(pg(h, lc)) =~= o.subrange(0, n - m)); assert(R.len() == m); lem_rs_ok(h1, h, records, newSibling.blk); assert(R =~= o.subrange(n - m, n)); split; }
 at call InsertRecords after { assert(lrecs(pg(h, newSibling)) =~= o.subrange(n - m, n)); assert(rs1(h, records, 0) == R[0]) by { let gt = rs_at(h1, records, 0); assert(rs1(h1, records, 0) == R[0]); } split; }
 at call InsertChildren prior { reveal_with_fuel(csz, 2); assert(lrecs(pg(h0, lc))[n - m] == R[0]); }
 at exit { let gc = cchs(pg(h0, parent)); assert(cchs(pg(h, parent)) =~= gc.insert(index + 1, Chd { k: o[n - m].k, a: nsa })); }

func bptree.leafController.UnshiftFromLeft(lc, m, parent, index, ls)
 props C02 C03 C07 C08
 requires leafP(h, lc) && leafP(h, ls) && nlP(h, parent) && lc.blk < 0 && ls.blk < 0 && parent.blk < 0 && lc.blk != ls.blk && lc.blk != parent.blk && ls.blk != parent.blk
 requires shape: 1 <= m < ln(pg(h, ls)) && 1 <= index < cn(pg(h, parent))
 requires @C07 roomp: cload(pg(h, parent)) + lrecs(pg(h, ls))[ln(pg(h, ls)) - m].k.len() - cchs(pg(h, parent))[index].k.len() <= 8188
 requires @C07 room: lload(pg(h, lc)) + lsz(lrecs(pg(h, ls)), ln(pg(h, ls)) - m, ln(pg(h, ls))) <= 8172
 modifies mem alloc c_record
 ensures mem_kept3(h0, h, lc.blk, ls.blk, parent.blk) && leafP(h, lc) && leafP(h, ls) && nlP(h, parent)
 ensures links: lnk(pg(h, lc), pg(h0, lc)) && lnk(pg(h, ls), pg(h0, ls))
 ensures moved: { let o = lrecs(pg(h0, ls)); let n = o.len() as int; lrecs(pg(h, ls)) == o.subrange(0, n - m) && lrecs(pg(h, lc)) == o.subrange(n - m, n) + lrecs(pg(h0, lc)) }
 ensures parent: { let o = lrecs(pg(h0, ls)); let c = cchs(pg(h0, parent)); cchs(pg(h, parent)) == c.update(index, Chd { k: o[o.len() - m].k, a: c[index].a }) }

func bptree.leafController.UnshiftFromRight(lc, m, parent, index, rsib)
 props C02 C03 C07 C08
 requires leafP(h, lc) && leafP(h, rsib) && nlP(h, parent) && lc.blk < 0 && rsib.blk < 0 && parent.blk < 0 && lc.blk != rsib.blk && lc.blk != parent.blk && rsib.blk != parent.blk
 requires shape: 1 <= m < ln(pg(h, rsib)) && 0 <= index && index + 1 < cn(pg(h, parent))
 requires @C07 roomp: cload(pg(h, parent)) + lrecs(pg(h, rsib))[m].k.len() - cchs(pg(h, parent))[index + 1].k.len() <= 8188
 requires @C07 room: lload(pg(h, lc)) + lsz(lrecs(pg(h, rsib)), 0, m) <= 8172
 modifies mem alloc c_record
 ensures mem_kept3(h0, h, lc.blk, rsib.blk, parent.blk) && leafP(h, lc) && leafP(h, rsib) && nlP(h, parent)
 ensures links: lnk(pg(h, lc), pg(h0, lc)) && lnk(pg(h, rsib), pg(h0, rsib))
 ensures moved: { let o = lrecs(pg(h0, rsib)); let n = o.len() as int; lrecs(pg(h, rsib)) == o.subrange(m, n) && lrecs(pg(h, lc)) == lrecs(pg(h0, lc)) + o.subrange(0, m) }
 ensures parent: { let c = cchs(pg(h0, parent)); cchs(pg(h, parent)) == c.update(index + 1, Chd { k: lrecs(pg(h0, rsib))[m].k, a: c[index + 1].a }) }
