func bptree.iterator.IsAtEnd(i) (r0)
 props C03
 ensures @C03 r0 == i.isAtEnd

func bptree.iterator.GetKeySize(i) (n, err)
 props C03 C12 C06 C08
 requires bitOK(h, i)
 ensures @C03 @C12 end: i.isAtEnd ==> n == 0 && err != 0
 ensures @C03 @C06 @C12 size: !i.isAtEnd ==> err == 0 && forall|t: T_BPTree, o: int, e: int| #[trigger] itS(h, t, i, o, e) ==> n == tC(h, t)[o].0.len()
 hide itS tP atR
 at entry { if !i.isAtEnd { lem_it(h, i); } }

func bptree.iterator.GetValueSize(i) (n, err)
 props C03 C12 C06 C08
 requires bitOK(h, i)
 ensures @C03 @C12 end: i.isAtEnd ==> n == 0 && err != 0
 ensures @C03 @C06 @C12 size: !i.isAtEnd ==> err == 0 && forall|t: T_BPTree, o: int, e: int| #[trigger] itS(h, t, i, o, e) ==> n == tC(h, t)[o].1.len()
 hide itS tP atR
 at entry { if !i.isAtEnd { lem_it(h, i); } }

func bptree.iterator.ReadKey(i, off, buf) (n, err)
 props C03 C12 C06 C08 C11
 requires bitOK(h, i) && off >= 0 && buf.ep == 0 && buf.blk >= 0 && sl_ok(h, buf)
 modifies mem
 ensures @C03 @C12 end: i.isAtEnd ==> n == 0 && err != 0 && h == h0
 ensures @C03 @C06 @C12 bytes: !i.isAtEnd ==> err == 0 && forall|t: T_BPTree, o: int, e: int| #[trigger] itS(h0, t, i, o, e) ==> n == rd_len(tC(h0, t)[o].0.len() as int, off, buf.len) && (h.mem == h0.mem.insert(buf.blk, splice(h0.mem[buf.blk], buf.off, tC(h0, t)[o].0.subrange(off, off + n))) || (n == 0 && h == h0))
 hide itS tP atR
 at entry { if !i.isAtEnd { lem_it(h, i); } }

func bptree.iterator.ReadValue(i, off, buf) (n, err)
 props C03 C12 C06 C08 C11
 requires bitOK(h, i) && off >= 0 && buf.ep == 0 && buf.blk >= 0 && sl_ok(h, buf)
 modifies mem
 ensures @C03 @C12 end: i.isAtEnd ==> n == 0 && err != 0 && h == h0
 ensures @C03 @C06 @C12 bytes: !i.isAtEnd ==> err == 0 && forall|t: T_BPTree, o: int, e: int| #[trigger] itS(h0, t, i, o, e) ==> n == rd_len(tC(h0, t)[o].1.len() as int, off, buf.len) && (h.mem == h0.mem.insert(buf.blk, splice(h0.mem[buf.blk], buf.off, tC(h0, t)[o].1.subrange(off, off + n))) || (n == 0 && h == h0))
 hide itS tP atR
 at entry { if !i.isAtEnd { lem_it(h, i); } }

func bptree.iterator.ReadKeyAll(i) (k, err)
 props C03 C12 C06 C08 C11
 requires bitOK(h, i)
 modifies mem alloc
 ensures @C03 @C12 end: i.isAtEnd ==> k == z_nil() && err != 0 && h == h0
 ensures @C11 fresh: mem_kept(h0, h) && (!i.isAtEnd ==> k.blk >= h0.nxt && k.blk < h.nxt && k.ep == 0 && sl_ok(h, k))
 ensures @C03 @C06 exact: !i.isAtEnd ==> err == 0 && forall|t: T_BPTree, o: int, e: int| #[trigger] itS(h0, t, i, o, e) ==> z_seq_mem(h, k) == tC(h0, t)[o].0
 hide itS tP atR
 at entry { if !i.isAtEnd { lem_it(h, i); } }

func bptree.iterator.ReadValueAll(i) (v, err)
 props C03 C12 C06 C08 C11
 requires bitOK(h, i)
 modifies mem alloc
 ensures @C03 @C12 end: i.isAtEnd ==> v == z_nil() && err != 0 && h == h0
 ensures @C11 fresh: mem_kept(h0, h) && (!i.isAtEnd ==> v.blk >= h0.nxt && v.blk < h.nxt && v.ep == 0 && sl_ok(h, v))
 ensures @C03 @C06 exact: !i.isAtEnd ==> err == 0 && forall|t: T_BPTree, o: int, e: int| #[trigger] itS(h0, t, i, o, e) ==> z_seq_mem(h, v) == tC(h0, t)[o].1
 hide itS tP atR
 at entry { if !i.isAtEnd { lem_it(h, i); } }

func bptree.iterator.ReadRecordAll(i) (k, v, err)
 props C03 C12 C06 C08 C11
 requires bitOK(h, i)
 modifies mem alloc
 ensures @C03 @C12 end: i.isAtEnd ==> k == z_nil() && v == z_nil() && err != 0 && h == h0
 ensures @C11 fresh: mem_kept(h0, h) && (!i.isAtEnd ==> k.blk >= h0.nxt && k.blk < h.nxt && k.ep == 0 && sl_ok(h, k) && v.blk >= h0.nxt && v.blk < h.nxt && v.ep == 0 && sl_ok(h, v))
 ensures @C03 @C06 exact: !i.isAtEnd ==> err == 0 && forall|t: T_BPTree, o: int, e: int| #[trigger] itS(h0, t, i, o, e) ==> z_seq_mem(h, k) == tC(h0, t)[o].0 && z_seq_mem(h, v) == tC(h0, t)[o].1
 hide itS tP atR
 at entry { if !i.isAtEnd { lem_it(h, i); } }

func bptree.forwardIterator.Advance(fi) (it)
 props C03 C08
 requires fitOK(h, fi.iterator)
 modifies fi
 ensures @C03 self: it == Iface::P_forwardIterator(fi)
 ensures @C03 end: fi0.iterator.isAtEnd ==> fi.iterator.isAtEnd
 ensures @C03 next: forall|t: T_BPTree, o: int, e: int| #[trigger] itS(h, t, fi0.iterator, o, e) && o <= e ==> if o == e { fi.iterator.isAtEnd } else { itS(h, t, fi.iterator, o + 1, e) }
 hide tP atR
 at entry { if !fi.iterator.isAtEnd { lem_it_step(h, fi.iterator); } }

func bptree.backwardIterator.Advance(bi) (it)
 props C03 C08
 requires bitB(h, bi.iterator)
 modifies bi
 ensures @C03 self: it == Iface::P_backwardIterator(bi)
 ensures @C03 end: bi0.iterator.isAtEnd ==> bi.iterator.isAtEnd
 ensures @C03 next: forall|t: T_BPTree, o: int, e: int| #[trigger] itS(h, t, bi0.iterator, o, e) && e <= o ==> if o == e { bi.iterator.isAtEnd } else { itS(h, t, bi.iterator, o - 1, e) }
 hide tP atR
 at entry { if !bi.iterator.isAtEnd { lem_it_step(h, bi.iterator); } }

func bptree.BPTree.SearchForward(bpt, minKey, maxKey) (it)
 props C03 C02 C06 C07 C08
 requires tP(h, bpt) && sl_ok(h, minKey) && sl_ok(h, maxKey)
 modifies mem alloc c_recordPathComponent
 ensures tree: tP(h, bpt) && tC(h, bpt) == tC(h0, bpt) && mem_kept(h0, h)
 ensures @C03 range: it is P_forwardIterator && itRun(h, bpt, it->P_forwardIterator_0.iterator, loI(tC(h0, bpt), minKey, z_seq_mem(h0, minKey)), hiI(tC(h0, bpt), maxKey, z_seq_mem(h0, maxKey)), true)
 hide tP atR loI hiI

func bptree.BPTree.SearchBackward(bpt, minKey, maxKey) (it)
 props C03 C02 C06 C07 C08
 requires tP(h, bpt) && sl_ok(h, minKey) && sl_ok(h, maxKey)
 modifies mem alloc c_recordPathComponent
 ensures tree: tP(h, bpt) && tC(h, bpt) == tC(h0, bpt) && mem_kept(h0, h)
 ensures @C03 range: it is P_backwardIterator && itRun(h, bpt, it->P_backwardIterator_0.iterator, loI(tC(h0, bpt), minKey, z_seq_mem(h0, minKey)), hiI(tC(h0, bpt), maxKey, z_seq_mem(h0, maxKey)), false)
 hide tP atR loI hiI
