func bptree.leafController.doInsertRecords(lc, rho, rheX, rhs, koX, keo, ksz, records)
 props C07 C08
 requires pageOK(h, lc) && rs_ok(h, records, lc.blk)
 requires shape: { let n = (rheX - 20) / 8; let a = (rho - 20) / 8; let q = pg(h, lc);
    lokn(q, n) && rheX == 20 + 8 * n && rho == 20 + 8 * a && 0 <= a <= n && rhs == 8 * records.len
    && koX == lke(q, n, 0) && keo == lke(q, n, a) && ksz == rsz(rs(h, records), records.len)
    && 20 + 8 * (n + records.len) + ksz <= koX }
 modifies mem
 ensures h.mem == h0.mem.insert(lc.blk, pg(h, lc)) && pg(h, lc).len() == 8192
 ensures links: forall|p: int| 0 <= p < 20 ==> pg(h, lc)[p] == pg(h0, lc)[p]
 ensures format: lokn(pg(h, lc), (rheX - 20) / 8 + records.len)
 ensures records: { let n = (rheX - 20) / 8; let a = (rho - 20) / 8; let o = lrecsn(pg(h0, lc), n);
    lrecsn(pg(h, lc), n + records.len) == o.subrange(0, a) + rs(h0, records) + o.subrange(a, n) }
 at entry { let gn = (recordHeadersEndOffsetX - 20) / 8; let ga = (recordHeadersOffset - 20) / 8; let q0 = pg(h0, lc0); let R = rs(h0, records0); let m = records0.len; lem_rsz_mono(R, 0, m); assert(0 <= ksz && keo <= 8192 && m >= 0); }
 loop 1
  invariant pageOK(h, lc) && h.mem == h_1.mem.insert(lc.blk, pg(h, lc))
  invariant 20 <= i <= recordHeadersOffset && (i - 20) % 8 == 0
  invariant forall|p: int| (0 <= p < 20 || i <= p < 8192) ==> #[trigger] pg(h, lc)[p] == pg(h_1, lc)[p]
  invariant forall|j: int| 0 <= j && 20 + 8 * j < i ==> #[trigger] lko(pg(h, lc), j) == lko(q0, j) - kvsSize && lvo(pg(h, lc), j) == lvo(q0, j) - kvsSize
 at loop 1 before {
   let q1 = pg(h, lc);
   assert forall|j: int| 0 <= j < ga implies #[trigger] lko(q1, j) == lko(q0, j) && lvo(q1, j) == lvo(q0, j) by { }
   assert forall|j: int| ga + m <= j < gn + m implies #[trigger] lko(q1, j) == lko(q0, j - m) && lvo(q1, j) == lvo(q0, j - m) by { }
   assert forall|p: int| koX - ksz <= p < keo - ksz implies #[trigger] q1[p] == q0[p + ksz] by { }
   assert forall|p: int| keo <= p < 8192 implies q1[p] == #[trigger] q0[p] by { }
 }
 at loop 1 begin {
   let gk = (i - 20) / 8; let qi = pg(h, lc); assert(i == 20 + 8 * gk);
   lem_be32_bytes(pg(h, lc), q1, i, i); lem_be32_bytes(pg(h, lc), q1, i + 4, i + 4);
   assert(lko(q1, gk) == lko(q0, gk)); assert(lko(pg(h, lc), gk) == lko(q0, gk) && lvo(pg(h, lc), gk) == lvo(q0, gk));
 }
 at loop 1 end {
   assert(0 <= lko(q0, gk) - ksz && lvo(q0, gk) <= 8192 && lko(q0, gk) <= lvo(q0, gk));
   assert(lko(pg(h, lc), gk) == lko(q0, gk) - ksz);
   assert(lvo(pg(h, lc), gk) == lvo(q0, gk) - ksz);
   let qe = pg(h, lc);
   assert forall|j: int| 0 <= j && 20 + 8 * j < i implies #[trigger] lko(qe, j) == lko(q0, j) - kvsSize && lvo(qe, j) == lvo(q0, j) - kvsSize by { if j < gk { assert(lko(qe, j) == lko(qi, j)); assert(lvo(qe, j) == lvo(qi, j)); } else { assert(j == gk); } }
   split;
 }
 loop 2
  invariant pageOK(h, lc) && h.mem == h_2.mem.insert(lc.blk, pg(h, lc)) && h.c_record == h0.c_record && rng2 == records
  invariant recordHeadersOffset == 20 + 8 * (ga + it2) && kvsOffset == base + rsz(R, it2)
  invariant forall|p: int| (0 <= p < 20 + 8 * ga || 20 + 8 * (ga + m) <= p < base || keo <= p < 8192) ==> #[trigger] pg(h, lc)[p] == pg(h_2, lc)[p]
  invariant forall|j: int| 0 <= j < it2 ==> #[trigger] recAt(pg(h, lc), R, base, ga, j)
 at loop 2 before {
   let base = keo - ksz; let q2 = pg(h, lc);
   assert(lke(q0, gn, 0) <= keo && 20 + 8 * ga <= koX - ksz && i == 20 + 8 * ga);
   assert forall|p: int| 20 + 8 * ga <= p < 8192 implies #[trigger] q2[p] == q1[p] by { }
 }
 at loop 2 begin {
   let qi = pg(h, lc);
   assert(rs_at(h0, records0, it2) == h.c_record[rng2.blk][rng2.off + it2]);
   assert(R[it2] == rs1(h0, records0, it2));
   lem_rsz_mono(R, 0, it2); lem_rsz_mono(R, it2 + 1, m);
   assert(rsz(R, it2 + 1) == rsz(R, it2) + rsz1(R[it2]));
 }
 at loop 2 end {
   let qj = pg(h, lc); let g = it2 - 1;
   assert(qj.subrange(keyOffset, valueOffset) =~= R[g].k);
   assert(qj.subrange(valueOffset, kvsOffset) =~= R[g].v);
   assert(recAt(qj, R, base, ga, g));
   assert forall|j: int| 0 <= j < g implies #[trigger] recAt(qj, R, base, ga, j) by { assert(recAt(qi, R, base, ga, j)); lem_rsz_mono(R, 0, j); lem_rsz_mono(R, j + 1, g); lem_recAt_frame(qi, qj, R, base, ga, j); }
   split;
 }
 at loop 2 after {
   let q = pg(h, lc);
   assert forall|j: int| 0 <= j < ga implies #[trigger] lko(q, j) == lko(q0, j) - ksz && lvo(q, j) == lvo(q0, j) - ksz by {
     assert(lko(q2, j) == lko(q0, j) - ksz); lem_be32_bytes(q, q2, 20 + 8 * j, 20 + 8 * j); lem_be32_bytes(q, q2, 24 + 8 * j, 24 + 8 * j); }
   assert forall|j: int| ga + m <= j < gn + m implies #[trigger] lko(q, j) == lko(q0, j - m) && lvo(q, j) == lvo(q0, j - m) by {
     assert(lko(q1, j) == lko(q0, j - m) && lvo(q1, j) == lvo(q0, j - m));
     lem_be32_bytes(q, q1, 20 + 8 * j, 20 + 8 * j); lem_be32_bytes(q, q1, 24 + 8 * j, 24 + 8 * j); }
   split;
   assert(base == lke(q0, gn, ga) - rsz(R, m) && m == R.len());
   assert forall|j: int| ga <= j < ga + m implies #[trigger] lko(q, j) == nko(q0, gn, ga, R, j) && lvo(q, j) == nvo(q0, gn, ga, R, j) by { assert(recAt(q, R, base, ga, j - ga)); }
   split;
   assert forall|j: int| 0 <= j < gn + m implies #[trigger] lko(q, j) == nko(q0, gn, ga, R, j) by { if j < ga { } else if j < ga + m { } else { } }
   assert forall|j: int| 0 <= j < gn + m implies #[trigger] lvo(q, j) == nvo(q0, gn, ga, R, j) by { assert(lko(q, j) == nko(q0, gn, ga, R, j)); if j < ga { } else if j < ga + m { } else { } }
   split;
   assert forall|p: int| koX - ksz <= p < keo - ksz implies #[trigger] q[p] == q0[p + ksz] by { assert(q[p] == q2[p]); assert(q2[p] == q1[p]); }
   assert forall|p: int| keo <= p < 8192 implies #[trigger] q[p] == q0[p] by { assert(q[p] == q2[p]); assert(q2[p] == q1[p]); }
   split;
   lem_leaf_insert(q0, q, gn, ga, R, m);
 }

func bptree.leafController.InsertRecords(lc, first, records)
 props C07 C08
 requires leafP(h, lc) && rs_ok(h, records, lc.blk)
 requires room: { let q = pg(h, lc); let n = ln(q); 0 <= first <= n && 20 + 8 * (n + records.len) + rsz(rs(h, records), records.len) <= lke(q, n, 0) }
 modifies mem
 ensures h.mem == h0.mem.insert(lc.blk, pg(h, lc)) && leafP(h, lc)
 ensures links: forall|p: int| 0 <= p < 16 ==> pg(h, lc)[p] == pg(h0, lc)[p]
 ensures records: { let o = lrecs(pg(h0, lc)); lrecs(pg(h, lc)) == o.subrange(0, first) + rs(h0, records) + o.subrange(first, o.len() as int) }
 at entry { let q0 = pg(h0, lc0); let gn = ln(q0); let R = rs(h0, records0); lem_rsz_mono(R, 0, records0.len); assert(lke(q0, gn, 0) <= 8192); }
 loop 1
  invariant h == h0 && rng1 == records && kvsSize == rsz(R, it1)
 at loop 1 begin { assert(rs_at(h0, records0, it1) == h.c_record[rng1.blk][rng1.off + it1]); assert(R[it1] == rs1(h0, records0, it1)); assert(rsz(R, it1 + 1) == rsz(R, it1) + rsz1(R[it1])); }
 at call doInsertRecords after { let q1 = pg(h, lc); assert(lokn(q1, gn + records.len)); assert(gn + records.len < 1024); }
 at exit { let q2 = pg(h, lc); assert(ln(q2) == gn + records0.len); assert(sameFrom(q1, q2, 20)); lem_page_from(q1, q2, gn + records0.len); }

func bptree.leafController.NumberOfRecords(lc) (n)
 props C07 C08
 requires pageOK(h, lc) && ln(pg(h, lc)) < 0x8000_0000
 ensures n == ln(pg(h, lc))

func bptree.leafController.GetLoadSize(lc) (s)
 props C07 C08
 requires leafP(h, lc)
 ensures @C07 size: s == lload(pg(h, lc)) && s == 8 * ln(pg(h, lc)) + rsz(lrecs(pg(h, lc)), ln(pg(h, lc)))
 at entry { lem_lload(pg(h, lc), ln(pg(h, lc))); lem_ln_bound(pg(h, lc), ln(pg(h, lc))); }

func bptree.leafController.GetKey(lc, i) (k)
 props C07 C08 C11
 requires leafP(h, lc) && 0 <= i < ln(pg(h, lc))
 ensures k.blk == lc.blk && k.ep == lc.ep && z_wf_mem(h, k) && z_valid(h, k) && k.off == lko(pg(h, lc), i) && k.len == lrecs(pg(h, lc))[i].k.len()
 ensures z_seq_mem(h, k) == lrecs(pg(h, lc))[i].k
 at entry { lem_ln_bound(pg(h, lc), ln(pg(h, lc))); assert(lko(pg(h, lc), i) <= lvo(pg(h, lc), i) <= lke(pg(h, lc), ln(pg(h, lc)), i + 1)); }
 at exit { assert(z_seq_mem(h, k) =~= lkey(pg(h, lc), i)); }

func bptree.leafController.GetValue(lc, i) (v)
 props C07 C08 C11
 requires leafP(h, lc) && 0 <= i < ln(pg(h, lc))
 ensures v.blk == lc.blk && v.ep == lc.ep && z_wf_mem(h, v) && z_valid(h, v) && v.off == lvo(pg(h, lc), i) && v.len == lrecs(pg(h, lc))[i].v.len()
 ensures z_seq_mem(h, v) == lrecs(pg(h, lc))[i].v
 at entry { lem_ln_bound(pg(h, lc), ln(pg(h, lc))); assert(lko(pg(h, lc), i) <= lvo(pg(h, lc), i) <= lke(pg(h, lc), ln(pg(h, lc)), i + 1)); }
 at exit { assert(z_seq_mem(h, v) =~= lval(pg(h, lc), ln(pg(h, lc)), i)); }

func bptree.leafFactory.CreateLeaf(lf) (a, lc)
 props C07 C08 C09
 modifies mem fs
 ensures fresh: !h0.sp.contains(a) && !h0.al.contains(a) && a > 0 && z_i64ok(a) && h.al == h0.al.insert(a) && h.sp == h0.sp && h.ep > h0.ep
 ensures h.mem == h0.mem.insert(-1 - a, h.mem[-1 - a]) && lc == z_access(h, a)
 ensures leafP(h, lc) && lrecs(pg(h, lc)) == Seq::<Rec>::empty()
 loop 1
  invariant 0 <= i <= 20 && leafAccessor == z_access(h, leafAddr) && h.mem[-1 - leafAddr].len() == 8192 && h.mem == h_1.mem.insert(-1 - leafAddr, h.mem[-1 - leafAddr])
  invariant forall|p: int| 0 <= p < i ==> #[trigger] pg(h, leafAccessor)[p] == 0
 at exit { lem_be32_zero(pg(h, lc), 16); assert(ln(pg(h, lc)) == 0); assert(lrecs(pg(h, lc)) =~= Seq::<Rec>::empty()); }

func bptree.leafFactory.DestroyLeaf(lf, a)
 props C08 C09
 requires @C08 @C09 h.al.contains(a)
 modifies mem fs
 ensures h.al == h0.al.remove(a) && h.sp == h0.sp && h.ep > h0.ep && h.mem == h0.mem.insert(-1 - a, h.mem[-1 - a])

func bptree.leafFactory.GetLeafController(lf, a) (lc)
 props C08
 requires @C08 h.al.contains(a)
 ensures lc == z_access(h, a)

func bptree.leafController.doRemoveRecords(lc, m, rhe, rheX, rhs, koX, ko, ksz) (records)
 props C07 C08
 requires pageOK(h, lc)
 requires shape: { let n = (rheX - 20) / 8; let a = (rhe - 20) / 8 - m; let q = pg(h, lc);
    lokn(q, n) && rheX == 20 + 8 * n && rhe == 20 + 8 * (a + m) && rhs == 8 * m && 0 <= a && 1 <= m && a + m <= n
    && koX == lke(q, n, 0) && ko == lke(q, n, a) && ksz == lke(q, n, a + m) - ko }
 modifies mem alloc c_record
 ensures mem_kept1(h0, h, lc.blk) && pg(h, lc).len() == 8192
 ensures links: forall|p: int| 0 <= p < 20 ==> pg(h, lc)[p] == pg(h0, lc)[p]
 ensures fresh: rs_fresh(h, records, h0.nxt) && records.len == m
 ensures result: { let n = (rheX - 20) / 8; let a = (rhe - 20) / 8 - m; rs(h, records) == lrecsn(pg(h0, lc), n).subrange(a, a + m) }
 ensures format: lokn(pg(h, lc), (rheX - 20) / 8 - m)
 ensures records: { let n = (rheX - 20) / 8; let a = (rhe - 20) / 8 - m; let o = lrecsn(pg(h0, lc), n);
    lrecsn(pg(h, lc), n - m) == o.subrange(0, a) + o.subrange(a + m, n) }
 at entry { let gn = (recordHeadersEndOffsetX - 20) / 8; let ga = (recordHeadersEndOffset - 20) / 8 - numberOfRecords; let q0 = pg(h0, lc0); let gm = numberOfRecords; let kb = h0.nxt;
   lem_lke_mono(q0, gn, 0, ga); lem_lke_mono(q0, gn, ga, ga + gm); lem_lke_mono(q0, gn, ga + gm, gn); }
 loop 1
  invariant pageOK(h, lc) && pg(h, lc) == q0 && mem_kept(h0, h) && h.nxt == kb + 2 && h.mem[kb].len() == kvsSize
  invariant i == 20 + 8 * (ga + records.len) && 0 <= records.len <= gm
  invariant records == Sl { blk: kb + 1, off: 0, len: records.len, cap: gm, ep: 0 } && h.c_record[kb + 1].len() == gm
  invariant kvs == Sl { blk: kb, off: lke(q0, gn, ga + records.len) - kvsOffset, len: lke(q0, gn, ga + gm) - lke(q0, gn, ga + records.len), cap: lke(q0, gn, ga + gm) - lke(q0, gn, ga + records.len), ep: 0 }
  invariant forall|p: int| 0 <= p < kvs.off ==> #[trigger] h.mem[kb][p] == q0[kvsOffset + p]
  invariant rm_recs(q0, gn, ga, gm, kb, h.c_record[kb + 1], records.len)
 at loop 1 begin { let gj = records.len; lem_lke_mono(q0, gn, 0, ga + gj); lem_lke_mono(q0, gn, ga + gj, ga + gj + 1); lem_lke_mono(q0, gn, ga + gj + 1, ga + gm); lem_lke_mono(q0, gn, ga, ga + gj); }
 loop 2
  invariant pageOK(h, lc) && h.mem == h_2.mem.insert(lc.blk, pg(h, lc)) && h.nxt == kb + 2 && records == records_2
  invariant 20 <= i <= recordHeadersOffset && (i - 20) % 8 == 0
  invariant forall|p: int| (0 <= p < 20 || i <= p < 8192) ==> #[trigger] pg(h, lc)[p] == pg(h_2, lc)[p]
  invariant forall|j: int| 0 <= j && 20 + 8 * j < i ==> #[trigger] lko(pg(h, lc), j) == lko(q0, j) + kvsSize && lvo(pg(h, lc), j) == lvo(q0, j) + kvsSize
 at loop 2 before {
   let q1 = pg(h, lc); let records_2 = records; 
   assert(recordHeadersOffset == 20 + 8 * ga);
   assert forall|j: int| 0 <= j < ga implies #[trigger] lko(q1, j) == lko(q0, j) && lvo(q1, j) == lvo(q0, j) by { }
   assert forall|j: int| ga <= j < gn - gm implies #[trigger] lko(q1, j) == lko(q0, j + gm) && lvo(q1, j) == lvo(q0, j + gm) by { }
   assert forall|p: int| koX + kvsSize <= p < kvsOffset + kvsSize implies #[trigger] q1[p] == q0[p - kvsSize] by { }
   assert forall|p: int| kvsOffset + kvsSize <= p < 8192 implies q1[p] == #[trigger] q0[p] by { }
   let hk = h; split;
 }
 at loop 2 begin {
   let gk = (i - 20) / 8; let qi = pg(h, lc); assert(i == 20 + 8 * gk);
   lem_be32_bytes(pg(h, lc), q1, i, i); lem_be32_bytes(pg(h, lc), q1, i + 4, i + 4);
   assert(lko(q1, gk) == lko(q0, gk)); assert(lko(pg(h, lc), gk) == lko(q0, gk) && lvo(pg(h, lc), gk) == lvo(q0, gk));
   lem_lke_mono(q0, gn, gk, gk + 1); lem_lke_mono(q0, gn, gk + 1, ga);
 }
 at loop 2 end {
   assert(lko(pg(h, lc), gk) == lko(q0, gk) + kvsSize);
   assert(lvo(pg(h, lc), gk) == lvo(q0, gk) + kvsSize);
   let qe = pg(h, lc);
   assert forall|j: int| 0 <= j && 20 + 8 * j < i implies #[trigger] lko(qe, j) == lko(q0, j) + kvsSize && lvo(qe, j) == lvo(q0, j) + kvsSize by { if j < gk { assert(lko(qe, j) == lko(qi, j)); assert(lvo(qe, j) == lvo(qi, j)); } else { assert(j == gk); } }
   split;
 }
 at loop 2 after {
   let q = pg(h, lc);
   assert(i == recordHeadersOffset);
   assert forall|j: int| ga <= j < gn - gm implies #[trigger] lko(q, j) == lko(q0, j + gm) && lvo(q, j) == lvo(q0, j + gm) by {
     assert(lko(q1, j) == lko(q0, j + gm) && lvo(q1, j) == lvo(q0, j + gm));
     lem_be32_bytes(q, q1, 20 + 8 * j, 20 + 8 * j); lem_be32_bytes(q, q1, 24 + 8 * j, 24 + 8 * j); }
   split;
   assert forall|j: int| 0 <= j < gn - gm implies #[trigger] lko(q, j) == dko(q0, gn, ga, gm, j) by { if j < ga { } else { } }
   assert forall|j: int| 0 <= j < gn - gm implies #[trigger] lvo(q, j) == dvo(q0, gn, ga, gm, j) by { assert(lko(q, j) == dko(q0, gn, ga, gm, j)); if j < ga { } else { } }
   assert forall|p: int| koX + kvsSize <= p < kvsOffset + kvsSize implies #[trigger] q[p] == q0[p - kvsSize] by { assert(q[p] == q1[p]); }
   assert forall|p: int| kvsOffset + kvsSize <= p < 8192 implies #[trigger] q[p] == q0[p] by { assert(q[p] == q1[p]); }
   split;
   lem_leaf_remove(q0, q, gn, ga, gm, kvsSize);
   assert(h.mem[kb] == hk.mem[kb]);
   lem_rm_result(h, q0, gn, ga, gm, kb, records);
   split;
 }

func bptree.leafController.RemoveRecords(lc, first, m) (records)
 props C07 C08
 requires leafP(h, lc) && 0 <= first && 1 <= m && first + m <= ln(pg(h, lc))
 modifies mem alloc c_record
 ensures mem_kept1(h0, h, lc.blk) && leafP(h, lc)
 ensures links: forall|p: int| 0 <= p < 16 ==> pg(h, lc)[p] == pg(h0, lc)[p]
 ensures fresh: rs_fresh(h, records, h0.nxt) && records.len == m
 ensures result: rs(h, records) == lrecs(pg(h0, lc)).subrange(first, first + m)
 ensures records: { let o = lrecs(pg(h0, lc)); lrecs(pg(h, lc)) == o.subrange(0, first) + o.subrange(first + m, o.len() as int) }
 at entry { let q0 = pg(h0, lc0); let gn = ln(q0); lem_ln_bound(q0, gn); lem_lke_mono(q0, gn, 0, firstRecordIndex); lem_lke_mono(q0, gn, firstRecordIndex, firstRecordIndex + numberOfRecords); }
 at call doRemoveRecords after { let q1 = pg(h, lc); assert(lokn(q1, gn - numberOfRecords)); let h1 = h; }
 at exit { let q2 = pg(h, lc); assert(ln(q2) == gn - m0); assert(sameFrom(q1, q2, 20)); lem_page_from(q1, q2, gn - m0);
   assert forall|j: int| 0 <= j < records.len implies #[trigger] rs1(h, records, j) == rs1(h1, records, j) by { assert(rs_at(h, records, j) == rs_at(h1, records, j)); }
   assert(rs(h, records) =~= rs(h1, records));
   assert forall|j: int| 0 <= j < records.len implies ({ let r = #[trigger] rs_at(h, records, j); z_wf_mem(h, r.Key) && z_wf_mem(h, r.Value) && r.Key.ep == 0 && r.Value.ep == 0 && r.Key.blk >= h0.nxt && r.Value.blk >= h0.nxt }) by { assert(rs_at(h, records, j) == rs_at(h1, records, j)); }
 }

func bptree.leafController.doSetValue(lc, koX, vo, delta, v, rho)
 props C07 C08
 requires leafP(h, lc) && z_wf_mem(h, v) && z_valid(h, v) && v.blk != lc.blk
 requires shape: { let q = pg(h, lc); let n = ln(q); let a = (rho - 20) / 8;
   rho == 20 + 8 * a && 0 <= a < n && koX == lke(q, n, 0) && vo == lvo(q, a) && delta == v.len - (lke(q, n, a + 1) - vo) && 20 + 8 * n + delta <= koX }
 modifies mem
 ensures h.mem == h0.mem.insert(lc.blk, pg(h, lc)) && leafP(h, lc)
 ensures links: forall|p: int| 0 <= p < 20 ==> pg(h, lc)[p] == pg(h0, lc)[p]
 ensures records: { let a = (rho - 20) / 8; let o = lrecs(pg(h0, lc)); lrecs(pg(h, lc)) == o.update(a, Rec { k: o[a].k, v: z_seq_mem(h0, v) }) }
 at entry { let ga = (recordHeaderOffset - 20) / 8; let q0 = pg(h0, lc0); let gn = ln(q0); let V = z_seq_mem(h0, value); let gd = valueSizeDelta; let gve = lke(q0, gn, ga + 1);
   lem_lke_mono(q0, gn, 0, ga); lem_lke_mono(q0, gn, ga, ga + 1); lem_lke_mono(q0, gn, ga + 1, gn); }
 loop 1
  invariant pageOK(h, lc) && h.mem == h_1.mem.insert(lc.blk, pg(h, lc))
  invariant 20 <= i <= recordHeaderOffset + 8 && (i - 20) % 8 == 0
  invariant forall|p: int| (0 <= p < 20 || i <= p < 8192) ==> #[trigger] pg(h, lc)[p] == pg(h_1, lc)[p]
  invariant forall|j: int| 0 <= j && 20 + 8 * j < i ==> #[trigger] lko(pg(h, lc), j) == lko(q0, j) - gd && lvo(pg(h, lc), j) == lvo(q0, j) - gd
 at loop 1 before {
   let q1 = pg(h, lc);
   assert forall|j: int| 0 <= j < gn implies #[trigger] lko(q1, j) == lko(q0, j) && lvo(q1, j) == lvo(q0, j) by { }
   assert forall|p: int| koX - gd <= p < vo - gd implies #[trigger] q1[p] == q0[p + gd] by { }
   assert forall|p: int| gve <= p < 8192 implies q1[p] == #[trigger] q0[p] by { }
   assert(q1.subrange(vo - gd, gve) =~= V);
   split;
 }
 at loop 1 begin {
   let gk = (i - 20) / 8; let qi = pg(h, lc); assert(i == 20 + 8 * gk);
   lem_be32_bytes(pg(h, lc), q1, i, i); lem_be32_bytes(pg(h, lc), q1, i + 4, i + 4);
   assert(lko(q1, gk) == lko(q0, gk)); assert(lko(pg(h, lc), gk) == lko(q0, gk) && lvo(pg(h, lc), gk) == lvo(q0, gk));
   lem_lke_mono(q0, gn, gk, gk + 1); lem_lke_mono(q0, gn, 0, gk);
 }
 at loop 1 end {
   assert(lko(pg(h, lc), gk) == lko(q0, gk) - gd);
   assert(lvo(pg(h, lc), gk) == lvo(q0, gk) - gd);
   let qe = pg(h, lc);
   assert forall|j: int| 0 <= j && 20 + 8 * j < i implies #[trigger] lko(qe, j) == lko(q0, j) - gd && lvo(qe, j) == lvo(q0, j) - gd by { if j < gk { assert(lko(qe, j) == lko(qi, j)); assert(lvo(qe, j) == lvo(qi, j)); } else { assert(j == gk); } }
   split;
 }
 at loop 1 after {
   let q = pg(h, lc);
   assert(i == recordHeaderOffset + 8);
   assert forall|j: int| ga < j < gn implies #[trigger] lko(q, j) == lko(q0, j) && lvo(q, j) == lvo(q0, j) by {
     assert(lko(q1, j) == lko(q0, j) && lvo(q1, j) == lvo(q0, j));
     lem_be32_bytes(q, q1, 20 + 8 * j, 20 + 8 * j); lem_be32_bytes(q, q1, 24 + 8 * j, 24 + 8 * j); }
   split;
   assert forall|j: int| 0 <= j < gn implies #[trigger] lko(q, j) == sko(q0, gn, ga, gd, j) by { if j <= ga { } else { } }
   assert forall|j: int| 0 <= j < gn implies #[trigger] lvo(q, j) == svo(q0, gn, ga, gd, j) by { assert(lko(q, j) == sko(q0, gn, ga, gd, j)); if j <= ga { } else { } }
   assert forall|p: int| koX - gd <= p < vo - gd implies #[trigger] q[p] == q0[p + gd] by { assert(q[p] == q1[p]); }
   assert forall|p: int| gve <= p < 8192 implies #[trigger] q[p] == q0[p] by { assert(q[p] == q1[p]); }
   assert(q.subrange(vo - gd, gve) =~= q1.subrange(vo - gd, gve));
   assert(V == q.subrange(vo - gd, gve));
   assert(lokn(q0, gn) && 0 <= ga < gn && q.len() == 8192 && gd == V.len() - (lke(q0, gn, ga + 1) - lvo(q0, ga)) && 20 + 8 * gn + gd <= lke(q0, gn, 0) && vo == lvo(q0, ga) && gve == lke(q0, gn, ga + 1) && koX == lke(q0, gn, 0));
   assert forall|p: int| 0 <= p < 20 implies #[trigger] q[p] == q0[p] by { assert(q[p] == q1[p]); }
   assert(h.mem == h0.mem.insert(lc.blk, pg(h, lc)));
   assert(pageOK(h, lc) && lc == lc0);
   cut;
   lem_leaf_setv(q0, q, gn, ga, V, gd);
   lem_be32_bytes(q, q0, 16, 16);
 }

func bptree.leafController.SetValue(lc, idx, v)
 props C07 C08
 requires leafP(h, lc) && z_wf_mem(h, v) && z_valid(h, v) && v.blk != lc.blk
 requires room: { let q = pg(h, lc); let n = ln(q); 0 <= idx < n && 20 + 8 * n + v.len - lrecs(q)[idx].v.len() <= lke(q, n, 0) }
 modifies mem
 ensures h.mem == h0.mem.insert(lc.blk, pg(h, lc)) && leafP(h, lc)
 ensures links: forall|p: int| 0 <= p < 20 ==> pg(h, lc)[p] == pg(h0, lc)[p]
 ensures records: { let o = lrecs(pg(h0, lc)); lrecs(pg(h, lc)) == o.update(idx, Rec { k: o[idx].k, v: z_seq_mem(h0, v) }) }
 at entry { let q0 = pg(h0, lc0); let gn = ln(q0); lem_ln_bound(q0, gn); lem_lke_mono(q0, gn, recordIndex, recordIndex + 1); lem_lke_mono(q0, gn, 0, recordIndex); }

func bptree.leafController.LocateRecord(lc, key, kc) (i, found)
 props C02 C03 C06 C08
 requires leafP(h, lc) && z_wf_mem(h, key) && z_valid(h, key) && ln(pg(h, lc)) >= 1 && keysFmt(h, pg(h, lc)) && keysAsc(h.mem, pg(h, lc))
 ensures first: isMin(key) ==> i == 0 && found
 ensures last: !isMin(key) && isMax(key) ==> i == ln(pg(h, lc)) - 1 && found
 ensures before: !isMin(key) && !isMax(key) ==> 0 <= i <= ln(pg(h, lc)) && forall|j: int| 0 <= j < i ==> lexcmp(#[trigger] lraw(h.mem, pg(h, lc), j), z_seq_mem(h, key)) < 0
 ensures from: !isMin(key) && !isMax(key) ==> forall|j: int| i <= j < ln(pg(h, lc)) ==> lexcmp(#[trigger] lraw(h.mem, pg(h, lc), j), z_seq_mem(h, key)) >= (if found && j == i { 0int } else { 1 })
 ensures hit: !isMin(key) && !isMax(key) ==> found == (i < ln(pg(h, lc)) && lraw(h.mem, pg(h, lc), i) == z_seq_mem(h, key))
 at entry { let q = pg(h0, lc0); let gn = ln(q); lem_ln_bound(q, gn); let G = z_seq_mem(h0, key); }
 loop 1
  invariant h == h0 && 0 <= i <= j <= gn - 1 && n == gn
  invariant forall|t: int| 0 <= t < i ==> lexcmp(#[trigger] lraw(h.mem, q, t), G) < 0
  invariant j < gn - 1 ==> lexcmp(lraw(h.mem, q, j), G) >= 0
  decreases j - i
 at loop 1 end {
   assert forall|t: int| 0 <= t < i implies lexcmp(#[trigger] lraw(h.mem, q, t), G) < 0 by { if i == k + 1 && t < k { lem_lex_trans(lraw(h.mem, q, t), lraw(h.mem, q, k), G); } }
 }
 at loop 1 after {
   assert forall|t: int| i < t < gn implies lexcmp(lraw(h.mem, q, i), G) >= 0 ==> lexcmp(#[trigger] lraw(h.mem, q, t), G) > 0 by {
     if lexcmp(lraw(h.mem, q, i), G) >= 0 { lem_lex_anti(lraw(h.mem, q, t), lraw(h.mem, q, i)); lem_lex_anti(lraw(h.mem, q, i), lraw(h.mem, q, t)); lem_lex_anti(G, lraw(h.mem, q, i)); lem_lex_trans(G, lraw(h.mem, q, i), lraw(h.mem, q, t)); lem_lex_anti(G, lraw(h.mem, q, t)); } }
   lem_lex_eq(lraw(h.mem, q, i), G); lem_lex_anti(lraw(h.mem, q, i), G);
 }

func bptree.leafController.CountRecordsForSpliting(lc) (c)
 props C07 C13
 requires leafP(h, lc) && lload(pg(h, lc)) > K_leafOverloadThreshold() && recsMax(lrecs(pg(h, lc)))
 ensures range: 1 <= c < ln(pg(h, lc))
 ensures stays: { let o = lrecs(pg(h, lc)); let n = o.len() as int; K_leafUnderloadThreshold() <= lsz(o, 0, n - c) <= K_leafOverloadThreshold() }
 ensures moves: { let o = lrecs(pg(h, lc)); let n = o.len() as int; K_leafUnderloadThreshold() <= lsz(o, n - c, n) <= K_leafOverloadThreshold() }
 at entry { let q = pg(h0, lc0); let gn = ln(q); let o = lrecs(q); lem_ln_bound(q, gn); lem_lload(q, gn); lem_rsz_mono(o, 0, gn); assert(o.len() == gn); }
 loop 1
  decreases i + 1
  invariant h == h0 && 0 <= recordCount && i == gn - 1 - recordCount && i < gn && loadSize1 == lsz(o, 0, i + 1) && loadSize2 == lsz(o, i + 1, gn) && loadSize1 + loadSize2 == lload(q)
  invariant loadSize1 > loadSize2 && i >= 0 && loadSize1 >= K_leafUnderloadThreshold()
 at loop 1 begin { lem_rsz_step(o, i); lem_rsz_mono(o, 0, i); lem_rsz_mono(o, i, gn); assert(8 + rsz1(o[i]) <= K_maxRecordSize()); }
 at loop 1 end { if i < 0 { assert(rsz(o, 0) == 0); } }

func bptree.leafController.CountRecordsForShiftingToLeft(lc, ls) (c)
 props C07 C13
 requires leafP(h, lc) && leafP(h, ls) && ln(pg(h, lc)) >= 1
 ensures range: 0 <= c && (c == 0 || c < ln(pg(h, lc)))
 ensures stays: { let o = lrecs(pg(h, lc)); let n = o.len() as int; c > 0 ==> K_leafUnderloadThreshold() <= lsz(o, c, n) <= K_leafOverloadThreshold() }
 ensures moves: { let o = lrecs(pg(h, lc)); let n = o.len() as int; c > 0 ==> K_leafUnderloadThreshold() <= lload(pg(h, ls)) + lsz(o, 0, c) <= K_leafOverloadThreshold() }
 ensures @C13 none: c == 0 && lload(pg(h, ls)) < K_leafUnderloadThreshold() && lload(pg(h, lc)) <= K_leafOverloadThreshold() && recsMax(lrecs(pg(h, lc))) ==> lload(pg(h, lc)) + lload(pg(h, ls)) <= K_leafOverloadThreshold()
 at entry { let q = pg(h0, lc0); let gn = ln(q); let o = lrecs(q); lem_ln_bound(q, gn); lem_lload(q, gn); lem_rsz_mono(o, 0, gn); assert(o.len() == gn); let l2 = lload(pg(h0, leftSibling)); lem_ln_bound(pg(h0, leftSibling), ln(pg(h0, leftSibling))); }
 loop 1
  decreases gn - i
  invariant h == h0 && i == recordCount && 0 <= i < gn && loadSize1 == lsz(o, i, gn) && loadSize2 == l2 + lsz(o, 0, i)
  invariant loadSize1 > loadSize2 || i == 0
  invariant i > 0 ==> loadSize1 >= K_leafUnderloadThreshold() && loadSize2 <= K_leafOverloadThreshold()
 at loop 1 begin { lem_rsz_step(o, i); lem_rsz_mono(o, 0, i); lem_rsz_mono(o, i, gn); lem_rsz_mono(o, i + 1, gn); }

func bptree.leafController.CountRecordsForShiftingToRight(lc, rs1_) (c)
 props C07 C13
 requires leafP(h, lc) && leafP(h, rs1_) && ln(pg(h, lc)) >= 1
 ensures range: 0 <= c && (c == 0 || c < ln(pg(h, lc)))
 ensures stays: { let o = lrecs(pg(h, lc)); let n = o.len() as int; c > 0 ==> K_leafUnderloadThreshold() <= lsz(o, 0, n - c) <= K_leafOverloadThreshold() }
 ensures moves: { let o = lrecs(pg(h, lc)); let n = o.len() as int; c > 0 ==> K_leafUnderloadThreshold() <= lload(pg(h, rs1_)) + lsz(o, n - c, n) <= K_leafOverloadThreshold() }
 ensures @C13 none: c == 0 && lload(pg(h, rs1_)) < K_leafUnderloadThreshold() && lload(pg(h, lc)) <= K_leafOverloadThreshold() && recsMax(lrecs(pg(h, lc))) ==> lload(pg(h, lc)) + lload(pg(h, rs1_)) <= K_leafOverloadThreshold()
 at entry { let q = pg(h0, lc0); let gn = ln(q); let o = lrecs(q); lem_ln_bound(q, gn); lem_lload(q, gn); lem_rsz_mono(o, 0, gn); assert(o.len() == gn); let l2 = lload(pg(h0, rightSibling)); lem_ln_bound(pg(h0, rightSibling), ln(pg(h0, rightSibling))); }
 loop 1
  decreases i + 1
  invariant h == h0 && i == gn - 1 - recordCount && 0 <= i < gn && loadSize1 == lsz(o, 0, i + 1) && loadSize2 == l2 + lsz(o, i + 1, gn)
  invariant loadSize1 > loadSize2 || recordCount == 0
  invariant recordCount > 0 ==> loadSize1 >= K_leafUnderloadThreshold() && loadSize2 <= K_leafOverloadThreshold()
 at loop 1 begin { lem_rsz_step(o, i); lem_rsz_mono(o, 0, i); lem_rsz_mono(o, i, gn); lem_rsz_mono(o, i + 1, gn); assert(rsz(o, 0) == 0); }

func bptree.leafController.CountRecordsForUnshiftingFromLeft(lc, ls) (c)
 props C07 C13
 requires leafP(h, lc) && leafP(h, ls) && ln(pg(h, ls)) >= 1
 ensures range: 0 <= c && (c == 0 || c < ln(pg(h, ls)))
 ensures stays: { let o = lrecs(pg(h, ls)); let n = o.len() as int; c > 0 ==> K_leafUnderloadThreshold() <= lsz(o, 0, n - c) <= K_leafOverloadThreshold() }
 ensures moves: { let o = lrecs(pg(h, ls)); let n = o.len() as int; c > 0 ==> K_leafUnderloadThreshold() <= lload(pg(h, lc)) + lsz(o, n - c, n) <= K_leafOverloadThreshold() }
 ensures @C13 none: c == 0 && lload(pg(h, lc)) < K_leafUnderloadThreshold() && lload(pg(h, ls)) <= K_leafOverloadThreshold() && recsMax(lrecs(pg(h, ls))) ==> lload(pg(h, ls)) + lload(pg(h, lc)) <= K_leafOverloadThreshold()

func bptree.leafController.CountRecordsForUnshiftingFromRight(lc, rs1_) (c)
 props C07 C13
 requires leafP(h, lc) && leafP(h, rs1_) && ln(pg(h, rs1_)) >= 1
 ensures range: 0 <= c && (c == 0 || c < ln(pg(h, rs1_)))
 ensures stays: { let o = lrecs(pg(h, rs1_)); let n = o.len() as int; c > 0 ==> K_leafUnderloadThreshold() <= lsz(o, c, n) <= K_leafOverloadThreshold() }
 ensures moves: { let o = lrecs(pg(h, rs1_)); let n = o.len() as int; c > 0 ==> K_leafUnderloadThreshold() <= lload(pg(h, lc)) + lsz(o, 0, c) <= K_leafOverloadThreshold() }
 ensures @C13 none: c == 0 && lload(pg(h, lc)) < K_leafUnderloadThreshold() && lload(pg(h, rs1_)) <= K_leafOverloadThreshold() && recsMax(lrecs(pg(h, rs1_))) ==> lload(pg(h, rs1_)) + lload(pg(h, lc)) <= K_leafOverloadThreshold()
