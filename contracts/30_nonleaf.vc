func bptree.nonLeafController.doInsertChildren(lc, rho, rheX, rhs, koX, keo, ksz, children)
 props C07 C08
 requires pageOK(h, lc) && cs_ok(h, children, lc.blk)
 requires shape: { let n = (rheX - 4) / 12; let a = (rho - 4) / 12; let q = pg(h, lc);
    cokn(q, n) && rheX == 4 + 12 * n && rho == 4 + 12 * a && 0 <= a <= n && rhs == 12 * children.len
    && koX == cke(q, n, 0) && keo == cke(q, n, a) && ksz == csz(cs(h, children), children.len)
    && 4 + 12 * (n + children.len) + ksz <= koX }
 modifies mem
 ensures h.mem == h0.mem.insert(lc.blk, pg(h, lc)) && pg(h, lc).len() == 8192
 ensures links: forall|p: int| 0 <= p < 4 ==> pg(h, lc)[p] == pg(h0, lc)[p]
 ensures format: cokn(pg(h, lc), (rheX - 4) / 12 + children.len)
 ensures children: { let n = (rheX - 4) / 12; let a = (rho - 4) / 12; let o = cchsn(pg(h0, lc), n);
    cchsn(pg(h, lc), n + children.len) == o.subrange(0, a) + cs(h0, children) + o.subrange(a, n) }
 at entry { let gn = (childHeadersEndOffsetX - 4) / 12; let ga = (childHeadersOffset - 4) / 12; let q0 = pg(h0, lc0); let R = cs(h0, children0); let m = children0.len; let gk_ = keysSize; lem_csz_mono(R, 0, m); lem_cke_mono(q0, gn, 0, ga); lem_cke_mono(q0, gn, ga, gn); assert(0 <= gk_ && keo <= 8192 && m >= 0); }
 loop 1
  invariant pageOK(h, lc) && h.mem == h_1.mem.insert(lc.blk, pg(h, lc))
  invariant 4 <= i <= childHeadersOffset && (i - 4) % 12 == 0
  invariant forall|p: int| (0 <= p < 4 || i <= p < 8192) ==> #[trigger] pg(h, lc)[p] == pg(h_1, lc)[p]
  invariant forall|j: int| 0 <= j && 4 + 12 * j < i ==> #[trigger] cko(pg(h, lc), j) == cko(q0, j) - keysSize
  invariant forall|j: int| 0 <= j && 4 + 12 * j < i ==> #[trigger] cad(pg(h, lc), j) == cad(q0, j)
 at loop 1 before {
   let q1 = pg(h, lc);
   assert forall|j: int| 0 <= j < ga implies #[trigger] cko(q1, j) == cko(q0, j) by { }
   assert forall|j: int| 0 <= j < ga implies #[trigger] cad(q1, j) == cad(q0, j) by { }
   assert forall|j: int| ga + m <= j < gn + m implies #[trigger] cko(q1, j) == cko(q0, j - m) by { }
   assert forall|j: int| ga + m <= j < gn + m implies #[trigger] cad(q1, j) == cad(q0, j - m) by { }
   assert forall|p: int| koX - ksz <= p < keo - ksz implies #[trigger] q1[p] == q0[p + ksz] by { }
   assert forall|p: int| keo <= p < 8192 implies q1[p] == #[trigger] q0[p] by { }
   split;
 }
 at loop 1 begin {
   let gk = (i - 4) / 12; let qi = pg(h, lc); assert(i == 4 + 12 * gk);
   lem_be32_bytes(pg(h, lc), q1, i, i); lem_be64_bytes(pg(h, lc), q1, i + 4, i + 4);
   assert(cko(q1, gk) == cko(q0, gk)); assert(cko(pg(h, lc), gk) == cko(q0, gk)); assert(cad(q1, gk) == cad(q0, gk)); assert(cad(pg(h, lc), gk) == cad(q0, gk));
   lem_cke_mono(q0, gn, 0, gk);
 }
 at loop 1 end {
   assert(0 <= cko(q0, gk) - ksz && cko(q0, gk) <= 8192);
   assert(cko(pg(h, lc), gk) == cko(q0, gk) - ksz);
   let qe = pg(h, lc); assert(cad(qe, gk) == cad(q0, gk));
   assert forall|j: int| 0 <= j && 4 + 12 * j < i implies #[trigger] cko(qe, j) == cko(q0, j) - keysSize by { if j < gk { assert(cko(qe, j) == cko(qi, j)); } else { assert(j == gk); } }
   assert forall|j: int| 0 <= j && 4 + 12 * j < i implies #[trigger] cad(qe, j) == cad(q0, j) by { if j < gk { assert(cad(qe, j) == cad(qi, j)); } else { assert(j == gk); } }
   split;
 }
 loop 2
  invariant pageOK(h, lc) && h.mem == h_2.mem.insert(lc.blk, pg(h, lc)) && h.c_nonLeafChild == h0.c_nonLeafChild && rng2 == children
  invariant childHeadersOffset == 4 + 12 * (ga + it2) && keysOffset == base + csz(R, it2)
  invariant forall|p: int| (0 <= p < 4 + 12 * ga || 4 + 12 * (ga + m) <= p < base || keo <= p < 8192) ==> #[trigger] pg(h, lc)[p] == pg(h_2, lc)[p]
  invariant forall|j: int| 0 <= j < it2 ==> #[trigger] chdAt(pg(h, lc), R, base, ga, j)
 at loop 2 before {
   let base = keo - ksz; let q2 = pg(h, lc);
   assert(cke(q0, gn, 0) <= keo && 4 + 12 * ga <= koX - ksz && i == 4 + 12 * ga);
   assert forall|p: int| 4 + 12 * ga <= p < 8192 implies #[trigger] q2[p] == q1[p] by { }
 }
 at loop 2 begin {
   let qi = pg(h, lc);
   assert(cs_at(h0, children0, it2) == h.c_nonLeafChild[rng2.blk][rng2.off + it2]);
   assert(R[it2] == cs1(h0, children0, it2));
   lem_csz_mono(R, 0, it2); lem_csz_mono(R, it2 + 1, m);
   assert(csz(R, it2 + 1) == csz(R, it2) + R[it2].k.len());
 }
 at loop 2 end {
   let qj = pg(h, lc); let g = it2 - 1;
   assert(qj.subrange(keyOffset, keysOffset) =~= R[g].k);
   assert(cad(qj, ga + g) == R[g].a);
   assert(chdAt(qj, R, base, ga, g));
   assert forall|j: int| 0 <= j < g implies #[trigger] chdAt(qj, R, base, ga, j) by { assert(chdAt(qi, R, base, ga, j)); lem_csz_mono(R, 0, j); lem_csz_mono(R, j + 1, g); lem_chdAt_frame(qi, qj, R, base, ga, j); }
   split;
 }
 at loop 2 after {
   let q = pg(h, lc);
   assert forall|j: int| 0 <= j < ga implies #[trigger] cko(q, j) == cko(q0, j) - ksz by { assert(cko(q2, j) == cko(q0, j) - ksz); lem_be32_bytes(q, q2, 4 + 12 * j, 4 + 12 * j); }
   assert forall|j: int| 0 <= j < ga implies #[trigger] cad(q, j) == cad(q0, j) by { assert(cad(q2, j) == cad(q0, j)); lem_be64_bytes(q, q2, 8 + 12 * j, 8 + 12 * j); }
   assert forall|j: int| ga + m <= j < gn + m implies #[trigger] cko(q, j) == cko(q0, j - m) by { assert(cko(q1, j) == cko(q0, j - m)); lem_be32_bytes(q, q1, 4 + 12 * j, 4 + 12 * j); }
   assert forall|j: int| ga + m <= j < gn + m implies #[trigger] cad(q, j) == cad(q0, j - m) by { assert(cad(q1, j) == cad(q0, j - m)); lem_be64_bytes(q, q1, 8 + 12 * j, 8 + 12 * j); }
   split;
   assert(base == cke(q0, gn, ga) - csz(R, m) && m == R.len());
   assert forall|j: int| ga <= j < ga + m implies #[trigger] cko(q, j) == cnko(q0, gn, ga, R, j) by { assert(chdAt(q, R, base, ga, j - ga)); }
   assert forall|j: int| ga <= j < ga + m implies #[trigger] cad(q, j) == cnad(q0, gn, ga, R, j) by { assert(chdAt(q, R, base, ga, j - ga)); }
   split;
   assert forall|j: int| 0 <= j < gn + m implies #[trigger] cko(q, j) == cnko(q0, gn, ga, R, j) by { if j < ga { } else if j < ga + m { } else { } }
   assert forall|j: int| 0 <= j < gn + m implies #[trigger] cad(q, j) == cnad(q0, gn, ga, R, j) by { if j < ga { } else if j < ga + m { } else { } }
   split;
   assert forall|p: int| koX - ksz <= p < keo - ksz implies #[trigger] q[p] == q0[p + ksz] by { assert(q[p] == q2[p]); assert(q2[p] == q1[p]); }
   assert forall|p: int| keo <= p < 8192 implies #[trigger] q[p] == q0[p] by { assert(q[p] == q2[p]); assert(q2[p] == q1[p]); }
   split;
   lem_nl_insert(q0, q, gn, ga, R, m);
 }

func bptree.nonLeafController.InsertChildren(lc, first, children)
 props C07 C08
 requires nlP(h, lc) && cs_ok(h, children, lc.blk)
 requires room: { let q = pg(h, lc); let n = cn(q); 0 <= first <= n && 4 + 12 * (n + children.len) + csz(cs(h, children), children.len) <= cke(q, n, 0) }
 modifies mem
 ensures h.mem == h0.mem.insert(lc.blk, pg(h, lc)) && nlP(h, lc)
 ensures children: { let o = cchs(pg(h0, lc)); cchs(pg(h, lc)) == o.subrange(0, first) + cs(h0, children) + o.subrange(first, o.len() as int) }
 at entry { let q0 = pg(h0, lc0); let gn = cn(q0); let R = cs(h0, children0); lem_csz_mono(R, 0, children0.len); lem_cn_bound(q0, gn); }
 loop 1
  invariant h == h0 && rng1 == children && keysSize == csz(R, it1)
 at loop 1 begin { assert(cs_at(h0, children0, it1) == h.c_nonLeafChild[rng1.blk][rng1.off + it1]); assert(R[it1] == cs1(h0, children0, it1)); lem_csz_step(R, it1); }
 at call doInsertChildren after { let q1 = pg(h, lc); assert(cokn(q1, gn + children.len)); assert(gn + children.len < 1024); }
 at exit { let q2 = pg(h, lc); assert(cn(q2) == gn + children0.len); assert(sameFrom(q1, q2, 4)); lem_cpage_from(q1, q2, gn + children0.len); }

func bptree.nonLeafController.NumberOfChildren(lc) (n)
 props C07 C08
 requires pageOK(h, lc) && cn(pg(h, lc)) < 0x8000_0000
 ensures n == cn(pg(h, lc))

func bptree.nonLeafController.GetLoadSize(lc) (s)
 props C07 C08
 requires nlP(h, lc)
 ensures @C07 size: s == cload(pg(h, lc)) && s == 12 * cn(pg(h, lc)) + csz(cchs(pg(h, lc)), cn(pg(h, lc)))
 at entry { lem_cload(pg(h, lc), cn(pg(h, lc))); lem_cn_bound(pg(h, lc), cn(pg(h, lc))); }

func bptree.nonLeafController.GetKey(lc, i) (k)
 props C07 C08
 requires nlP(h, lc) && 0 <= i < cn(pg(h, lc))
 ensures k.blk == lc.blk && k.ep == lc.ep && z_wf_mem(h, k) && z_valid(h, k) && k.off == cko(pg(h, lc), i) && k.len == cchs(pg(h, lc))[i].k.len()
 ensures z_seq_mem(h, k) == cchs(pg(h, lc))[i].k
 at entry { lem_cn_bound(pg(h, lc), cn(pg(h, lc))); lem_cke_mono(pg(h, lc), cn(pg(h, lc)), i, i + 1); }
 at exit { assert(z_seq_mem(h, k) =~= ckey(pg(h, lc), cn(pg(h, lc)), i)); }

func bptree.nonLeafController.GetChildAddr(lc, i) (a)
 props C07 C08
 requires nlP(h, lc) && 0 <= i < cn(pg(h, lc))
 ensures a == cchs(pg(h, lc))[i].a
 at entry { lem_cn_bound(pg(h, lc), cn(pg(h, lc))); lem_cke_mono(pg(h, lc), cn(pg(h, lc)), i, i + 1); }

func bptree.nonLeafFactory.CreateNonLeaf(lf) (a, lc)
 props C07 C08 C09
 modifies mem fs
 ensures fresh: !h0.sp.contains(a) && !h0.al.contains(a) && a > 0 && z_i64ok(a) && h.al == h0.al.insert(a) && h.sp == h0.sp && h.ep > h0.ep
 ensures h.mem == h0.mem.insert(-1 - a, h.mem[-1 - a]) && lc == z_access(h, a)
 ensures nlP(h, lc) && cchs(pg(h, lc)) == Seq::<Chd>::empty()
 loop 1
  invariant 0 <= i <= 4 && nonLeafAccessor == z_access(h, nonLeafAddr) && h.mem[-1 - nonLeafAddr].len() == 8192 && h.mem == h_1.mem.insert(-1 - nonLeafAddr, h.mem[-1 - nonLeafAddr])
  invariant forall|p: int| 0 <= p < i ==> #[trigger] pg(h, nonLeafAccessor)[p] == 0
 at exit { lem_be32_zero(pg(h, lc), 0); assert(cn(pg(h, lc)) == 0); assert(cchs(pg(h, lc)) =~= Seq::<Chd>::empty()); }

func bptree.nonLeafFactory.DestroyNonLeaf(lf, a)
 props C08 C09
 requires @C08 @C09 h.al.contains(a)
 modifies mem fs
 ensures h.al == h0.al.remove(a) && h.sp == h0.sp && h.ep > h0.ep && h.mem == h0.mem.insert(-1 - a, h.mem[-1 - a])

func bptree.nonLeafFactory.GetNonLeafController(lf, a) (lc)
 props C08
 requires @C08 h.al.contains(a)
 ensures lc == z_access(h, a)

func bptree.nonLeafController.doRemoveChildren(lc, m, rhe, rheX, rhs, koX, ko, ksz) (children)
 props C07 C08
 requires pageOK(h, lc)
 requires shape: { let n = (rheX - 4) / 12; let a = (rhe - 4) / 12 - m; let q = pg(h, lc);
    cokn(q, n) && rheX == 4 + 12 * n && rhe == 4 + 12 * (a + m) && rhs == 12 * m && 0 <= a && 1 <= m && a + m <= n
    && koX == cke(q, n, 0) && ko == cke(q, n, a) && ksz == cke(q, n, a + m) - ko }
 modifies mem alloc c_nonLeafChild
 ensures mem_kept1(h0, h, lc.blk) && pg(h, lc).len() == 8192
 ensures links: forall|p: int| 0 <= p < 4 ==> pg(h, lc)[p] == pg(h0, lc)[p]
 ensures fresh: cs_fresh(h, children, h0.nxt) && children.len == m
 ensures result: { let n = (rheX - 4) / 12; let a = (rhe - 4) / 12 - m; cs(h, children) == cchsn(pg(h0, lc), n).subrange(a, a + m) }
 ensures format: cokn(pg(h, lc), (rheX - 4) / 12 - m)
 ensures children: { let n = (rheX - 4) / 12; let a = (rhe - 4) / 12 - m; let o = cchsn(pg(h0, lc), n);
    cchsn(pg(h, lc), n - m) == o.subrange(0, a) + o.subrange(a + m, n) }
 at entry { let gn = (childHeadersEndOffsetX - 4) / 12; let ga = (childHeadersEndOffset - 4) / 12 - numberOfChildren; let q0 = pg(h0, lc0); let gm = numberOfChildren; let kb = h0.nxt;
   lem_cke_mono(q0, gn, 0, ga); lem_cke_mono(q0, gn, ga, ga + gm); lem_cke_mono(q0, gn, ga + gm, gn); }
 loop 1
  invariant pageOK(h, lc) && pg(h, lc) == q0 && mem_kept(h0, h) && h.nxt == kb + 2 && h.mem[kb].len() == keysSize
  invariant i == 4 + 12 * (ga + children.len) && 0 <= children.len <= gm
  invariant children == Sl { blk: kb + 1, off: 0, len: children.len, cap: gm, ep: 0 } && h.c_nonLeafChild[kb + 1].len() == gm
  invariant keys == Sl { blk: kb, off: cke(q0, gn, ga + children.len) - keysOffset, len: cke(q0, gn, ga + gm) - cke(q0, gn, ga + children.len), cap: cke(q0, gn, ga + gm) - cke(q0, gn, ga + children.len), ep: 0 }
  invariant forall|p: int| 0 <= p < keys.off ==> #[trigger] h.mem[kb][p] == q0[keysOffset + p]
  invariant crm_chs(q0, gn, ga, gm, kb, h.c_nonLeafChild[kb + 1], children.len)
 at loop 1 begin { let gj = children.len; lem_cke_mono(q0, gn, 0, ga + gj); lem_cke_mono(q0, gn, ga + gj, ga + gj + 1); lem_cke_mono(q0, gn, ga + gj + 1, ga + gm); lem_cke_mono(q0, gn, ga, ga + gj); }
 loop 2
  invariant pageOK(h, lc) && h.mem == h_2.mem.insert(lc.blk, pg(h, lc)) && h.nxt == kb + 2 && children == children_2
  invariant 4 <= i <= childHeadersOffset && (i - 4) % 12 == 0
  invariant forall|p: int| (0 <= p < 4 || i <= p < 8192) ==> #[trigger] pg(h, lc)[p] == pg(h_2, lc)[p]
  invariant forall|j: int| 0 <= j && 4 + 12 * j < i ==> #[trigger] cko(pg(h, lc), j) == cko(q0, j) + keysSize
  invariant forall|j: int| 0 <= j && 4 + 12 * j < i ==> #[trigger] cad(pg(h, lc), j) == cad(q0, j)
 at loop 2 before {
   let q1 = pg(h, lc); let children_2 = children;
   assert(childHeadersOffset == 4 + 12 * ga);
   assert forall|j: int| 0 <= j < ga implies #[trigger] cko(q1, j) == cko(q0, j) by { }
   assert forall|j: int| 0 <= j < ga implies #[trigger] cad(q1, j) == cad(q0, j) by { }
   assert forall|j: int| ga <= j < gn - gm implies #[trigger] cko(q1, j) == cko(q0, j + gm) by { }
   assert forall|j: int| ga <= j < gn - gm implies #[trigger] cad(q1, j) == cad(q0, j + gm) by { }
   assert forall|p: int| koX + keysSize <= p < keysOffset + keysSize implies #[trigger] q1[p] == q0[p - keysSize] by { }
   assert forall|p: int| keysOffset + keysSize <= p < 8192 implies q1[p] == #[trigger] q0[p] by { }
   let hk = h; split;
 }
 at loop 2 begin {
   let gk = (i - 4) / 12; let qi = pg(h, lc); assert(i == 4 + 12 * gk);
   lem_be32_bytes(pg(h, lc), q1, i, i); lem_be64_bytes(pg(h, lc), q1, i + 4, i + 4);
   assert(cko(q1, gk) == cko(q0, gk)); assert(cko(pg(h, lc), gk) == cko(q0, gk)); assert(cad(q1, gk) == cad(q0, gk)); assert(cad(pg(h, lc), gk) == cad(q0, gk));
   lem_cke_mono(q0, gn, gk, gk + 1); lem_cke_mono(q0, gn, gk + 1, ga);
 }
 at loop 2 end {
   assert(cko(pg(h, lc), gk) == cko(q0, gk) + keysSize);
   let qe = pg(h, lc); assert(cad(qe, gk) == cad(q0, gk));
   assert forall|j: int| 0 <= j && 4 + 12 * j < i implies #[trigger] cko(qe, j) == cko(q0, j) + keysSize by { if j < gk { assert(cko(qe, j) == cko(qi, j)); } else { assert(j == gk); } }
   assert forall|j: int| 0 <= j && 4 + 12 * j < i implies #[trigger] cad(qe, j) == cad(q0, j) by { if j < gk { assert(cad(qe, j) == cad(qi, j)); } else { assert(j == gk); } }
   split;
 }
 at loop 2 after {
   let q = pg(h, lc);
   assert(i == childHeadersOffset);
   assert forall|j: int| ga <= j < gn - gm implies #[trigger] cko(q, j) == cko(q0, j + gm) by { assert(cko(q1, j) == cko(q0, j + gm)); lem_be32_bytes(q, q1, 4 + 12 * j, 4 + 12 * j); }
   assert forall|j: int| ga <= j < gn - gm implies #[trigger] cad(q, j) == cad(q0, j + gm) by { assert(cad(q1, j) == cad(q0, j + gm)); lem_be64_bytes(q, q1, 8 + 12 * j, 8 + 12 * j); }
   split;
   assert forall|j: int| 0 <= j < gn - gm implies #[trigger] cko(q, j) == cdko(q0, gn, ga, gm, j) by { if j < ga { } else { } }
   assert forall|j: int| 0 <= j < gn - gm implies #[trigger] cad(q, j) == cdad(q0, ga, gm, j) by { if j < ga { } else { } }
   assert forall|p: int| koX + keysSize <= p < keysOffset + keysSize implies #[trigger] q[p] == q0[p - keysSize] by { assert(q[p] == q1[p]); }
   assert forall|p: int| keysOffset + keysSize <= p < 8192 implies #[trigger] q[p] == q0[p] by { assert(q[p] == q1[p]); }
   split;
   lem_nl_remove(q0, q, gn, ga, gm, keysSize);
   assert(h.mem[kb] == hk.mem[kb]);
   lem_crm_result(h, q0, gn, ga, gm, kb, children);
   split;
 }

func bptree.nonLeafController.RemoveChildren(lc, first, m) (children)
 props C07 C08
 requires nlP(h, lc) && 0 <= first && 1 <= m && first + m <= cn(pg(h, lc))
 modifies mem alloc c_nonLeafChild
 ensures mem_kept1(h0, h, lc.blk) && nlP(h, lc)
 ensures fresh: cs_fresh(h, children, h0.nxt) && children.len == m
 ensures result: cs(h, children) == cchs(pg(h0, lc)).subrange(first, first + m)
 ensures children: { let o = cchs(pg(h0, lc)); cchs(pg(h, lc)) == o.subrange(0, first) + o.subrange(first + m, o.len() as int) }
 at entry { let q0 = pg(h0, lc0); let gn = cn(q0); lem_cn_bound(q0, gn); lem_cke_mono(q0, gn, 0, firstChildIndex); lem_cke_mono(q0, gn, firstChildIndex, firstChildIndex + numberOfChildren); }
 at call doRemoveChildren after { let q1 = pg(h, lc); assert(cokn(q1, gn - numberOfChildren)); let h1 = h; }
 at exit { let q2 = pg(h, lc); assert(cn(q2) == gn - m0); assert(sameFrom(q1, q2, 4)); lem_cpage_from(q1, q2, gn - m0);
   assert forall|j: int| 0 <= j < children.len implies #[trigger] cs1(h, children, j) == cs1(h1, children, j) by { assert(cs_at(h, children, j) == cs_at(h1, children, j)); }
   assert(cs(h, children) =~= cs(h1, children));
   assert forall|j: int| 0 <= j < children.len implies ({ let r = #[trigger] cs_at(h, children, j); z_wf_mem(h, r.Key) && r.Key.ep == 0 && r.Key.blk >= h0.nxt && z_i64ok(r.Addr) }) by { assert(cs_at(h, children, j) == cs_at(h1, children, j)); }
 }

func bptree.nonLeafController.doSetKey(lc, koX, ko, delta, v, rho)
 props C07 C08
 requires nlP(h, lc) && z_wf_mem(h, v) && z_valid(h, v) && v.blk != lc.blk
 requires shape: { let q = pg(h, lc); let n = cn(q); let a = (rho - 4) / 12;
   rho == 4 + 12 * a && 0 <= a < n && koX == cke(q, n, 0) && ko == cko(q, a) && delta == v.len - (cke(q, n, a + 1) - ko) && 4 + 12 * n + delta <= koX }
 modifies mem
 ensures h.mem == h0.mem.insert(lc.blk, pg(h, lc)) && nlP(h, lc)
 ensures children: { let a = (rho - 4) / 12; let o = cchs(pg(h0, lc)); cchs(pg(h, lc)) == o.update(a, Chd { k: z_seq_mem(h0, v), a: o[a].a }) }
 at entry { let ga = (childHeaderOffset - 4) / 12; let q0 = pg(h0, lc0); let gn = cn(q0); let V = z_seq_mem(h0, key); let gd = keySizeDelta; let gve = cke(q0, gn, ga + 1);
   lem_cke_mono(q0, gn, 0, ga); lem_cke_mono(q0, gn, ga, ga + 1); lem_cke_mono(q0, gn, ga + 1, gn); }
 loop 1
  invariant pageOK(h, lc) && h.mem == h_1.mem.insert(lc.blk, pg(h, lc))
  invariant 4 <= i <= childHeaderOffset + 12 && (i - 4) % 12 == 0
  invariant forall|p: int| (0 <= p < 4 || i <= p < 8192) ==> #[trigger] pg(h, lc)[p] == pg(h_1, lc)[p]
  invariant forall|j: int| 0 <= j && 4 + 12 * j < i ==> #[trigger] cko(pg(h, lc), j) == cko(q0, j) - gd
  invariant forall|j: int| 0 <= j && 4 + 12 * j < i ==> #[trigger] cad(pg(h, lc), j) == cad(q0, j)
 at loop 1 before {
   let q1 = pg(h, lc);
   assert forall|j: int| 0 <= j < gn implies #[trigger] cko(q1, j) == cko(q0, j) by { }
   assert forall|j: int| 0 <= j < gn implies #[trigger] cad(q1, j) == cad(q0, j) by { }
   assert forall|p: int| koX - gd <= p < ko - gd implies #[trigger] q1[p] == q0[p + gd] by { }
   assert forall|p: int| gve <= p < 8192 implies q1[p] == #[trigger] q0[p] by { }
   assert(q1.subrange(ko - gd, gve) =~= V);
   split;
 }
 at loop 1 begin {
   let gk = (i - 4) / 12; let qi = pg(h, lc); assert(i == 4 + 12 * gk);
   lem_be32_bytes(pg(h, lc), q1, i, i); lem_be64_bytes(pg(h, lc), q1, i + 4, i + 4);
   assert(cko(q1, gk) == cko(q0, gk)); assert(cko(pg(h, lc), gk) == cko(q0, gk)); assert(cad(q1, gk) == cad(q0, gk)); assert(cad(pg(h, lc), gk) == cad(q0, gk));
   lem_cke_mono(q0, gn, gk, gk + 1); lem_cke_mono(q0, gn, 0, gk);
 }
 at loop 1 end {
   assert(cko(pg(h, lc), gk) == cko(q0, gk) - gd);
   let qe = pg(h, lc); assert(cad(qe, gk) == cad(q0, gk));
   assert forall|j: int| 0 <= j && 4 + 12 * j < i implies #[trigger] cko(qe, j) == cko(q0, j) - gd by { if j < gk { assert(cko(qe, j) == cko(qi, j)); } else { assert(j == gk); } }
   assert forall|j: int| 0 <= j && 4 + 12 * j < i implies #[trigger] cad(qe, j) == cad(q0, j) by { if j < gk { assert(cad(qe, j) == cad(qi, j)); } else { assert(j == gk); } }
   split;
 }
 at loop 1 after {
   let q = pg(h, lc);
   assert(i == childHeaderOffset + 12);
   assert forall|j: int| ga < j < gn implies #[trigger] cko(q, j) == cko(q0, j) by { assert(cko(q1, j) == cko(q0, j)); lem_be32_bytes(q, q1, 4 + 12 * j, 4 + 12 * j); }
   assert forall|j: int| ga < j < gn implies #[trigger] cad(q, j) == cad(q0, j) by { assert(cad(q1, j) == cad(q0, j)); lem_be64_bytes(q, q1, 8 + 12 * j, 8 + 12 * j); }
   split;
   assert forall|j: int| 0 <= j < gn implies #[trigger] cko(q, j) == csko(q0, gn, ga, gd, j) by { if j <= ga { } else { } }
   assert forall|j: int| 0 <= j < gn implies #[trigger] cad(q, j) == cad(q0, j) by { if j <= ga { } else { } }
   assert forall|p: int| koX - gd <= p < ko - gd implies #[trigger] q[p] == q0[p + gd] by { assert(q[p] == q1[p]); }
   assert forall|p: int| gve <= p < 8192 implies #[trigger] q[p] == q0[p] by { assert(q[p] == q1[p]); }
   assert(q.subrange(ko - gd, gve) =~= q1.subrange(ko - gd, gve));
   split;
   lem_nl_setk(q0, q, gn, ga, V, gd);
   lem_be32_bytes(q, q0, 0, 0);
 }

func bptree.nonLeafController.SetKey(lc, idx, v)
 props C07 C08
 requires nlP(h, lc) && z_wf_mem(h, v) && z_valid(h, v) && v.blk != lc.blk
 requires room: { let q = pg(h, lc); let n = cn(q); 0 <= idx < n && 4 + 12 * n + v.len - cchs(q)[idx].k.len() <= cke(q, n, 0) }
 modifies mem
 ensures h.mem == h0.mem.insert(lc.blk, pg(h, lc)) && nlP(h, lc)
 ensures children: { let o = cchs(pg(h0, lc)); cchs(pg(h, lc)) == o.update(idx, Chd { k: z_seq_mem(h0, v), a: o[idx].a }) }
 at entry { let q0 = pg(h0, lc0); let gn = cn(q0); lem_cn_bound(q0, gn); lem_cke_mono(q0, gn, childIndex, childIndex + 1); lem_cke_mono(q0, gn, 0, childIndex); }

func bptree.nonLeafController.LocateChild(lc, key, kc) (i, found)
 props C02 C03 C06 C08
 requires nlP(h, lc) && z_wf_mem(h, key) && z_valid(h, key) && cn(pg(h, lc)) >= 2 && ckeysFmt(h, pg(h, lc)) && ckeysAsc(h.mem, pg(h, lc))
 ensures first: isMin(key) ==> i == 0 && found
 ensures last: !isMin(key) && isMax(key) ==> i == cn(pg(h, lc)) - 1 && found
 ensures before: !isMin(key) && !isMax(key) ==> 1 <= i <= cn(pg(h, lc)) && forall|j: int| 1 <= j < i ==> lexcmp(#[trigger] craw(h.mem, pg(h, lc), j), z_seq_mem(h, key)) < 0
 ensures from: !isMin(key) && !isMax(key) ==> forall|j: int| i <= j < cn(pg(h, lc)) ==> lexcmp(#[trigger] craw(h.mem, pg(h, lc), j), z_seq_mem(h, key)) >= (if found && j == i { 0int } else { 1 })
 ensures hit: !isMin(key) && !isMax(key) ==> found == (i < cn(pg(h, lc)) && craw(h.mem, pg(h, lc), i) == z_seq_mem(h, key))
 at entry { let q = pg(h0, lc0); let gn = cn(q); lem_cn_bound(q, gn); let G = z_seq_mem(h0, key); }
 loop 1
  invariant h == h0 && 1 <= i <= j <= gn - 1 && n == gn
  invariant forall|t: int| 1 <= t < i ==> lexcmp(#[trigger] craw(h.mem, q, t), G) < 0
  invariant j < gn - 1 ==> lexcmp(craw(h.mem, q, j), G) >= 0
  decreases j - i
 at loop 1 end {
   assert forall|t: int| 1 <= t < i implies lexcmp(#[trigger] craw(h.mem, q, t), G) < 0 by { if i == k + 1 && t < k { lem_lex_trans(craw(h.mem, q, t), craw(h.mem, q, k), G); } }
 }
 at loop 1 after {
   assert forall|t: int| i < t < gn implies lexcmp(craw(h.mem, q, i), G) >= 0 ==> lexcmp(#[trigger] craw(h.mem, q, t), G) > 0 by {
     if lexcmp(craw(h.mem, q, i), G) >= 0 { lem_lex_anti(craw(h.mem, q, t), craw(h.mem, q, i)); lem_lex_anti(craw(h.mem, q, i), craw(h.mem, q, t)); lem_lex_anti(G, craw(h.mem, q, i)); lem_lex_trans(G, craw(h.mem, q, i), craw(h.mem, q, t)); lem_lex_anti(G, craw(h.mem, q, t)); } }
   lem_lex_eq(craw(h.mem, q, i), G); lem_lex_anti(craw(h.mem, q, i), G);
 }

func bptree.nonLeafController.CountChildrenForSpliting(lc) (c)
 props C07 C13
 requires nlP(h, lc) && cload(pg(h, lc)) > K_nonLeafOverloadThreshold() && chsMax(cchs(pg(h, lc)))
 ensures range: 1 <= c < cn(pg(h, lc))
 ensures stays: { let o = cchs(pg(h, lc)); let n = o.len() as int; K_nonLeafUnderloadThreshold() <= clsz(o, 0, n - c) <= K_nonLeafOverloadThreshold() }
 ensures moves: { let o = cchs(pg(h, lc)); let n = o.len() as int; K_nonLeafUnderloadThreshold() <= clsz(o, n - c, n) - o[n - c].k.len() <= K_nonLeafOverloadThreshold() }
 at entry { let q = pg(h0, lc0); let gn = cn(q); let o = cchs(q); lem_cn_bound(q, gn); lem_cload(q, gn); lem_csz_mono(o, 0, gn); assert(o.len() == gn); lem_csz_step(o, gn - 1); assert(gn >= 1 && 12 + o[gn - 1].k.len() <= K_maxNonLeafChildSize()); }
 loop 1
  decreases i + 1
  invariant h == h0 && 0 <= childCount && i == gn - 2 - childCount && lastChildSize == 12 + o[i + 1].k.len() && i >= -1 && loadSize1 == clsz(o, 0, i + 1) && loadSize2 == clsz(o, i + 1, gn) - o[i + 1].k.len() && loadSize1 + loadSize2 + o[i + 1].k.len() == cload(q)
  invariant childCount > 0 ==> clsz(o, 0, i + 2) > clsz(o, i + 2, gn) - o[i + 2].k.len() && clsz(o, 0, i + 2) >= K_nonLeafUnderloadThreshold()
 at loop 1 begin { lem_csz_step(o, i); lem_csz_step(o, i + 1); lem_csz_mono(o, 0, i + 1); lem_csz_mono(o, i + 1, gn); assert(12 + o[i + 1].k.len() <= K_maxNonLeafChildSize()); if i + 2 < gn { assert(12 + o[i + 2].k.len() <= K_maxNonLeafChildSize()); lem_csz_step(o, i + 2); } if i >= 0 { assert(12 + o[i].k.len() <= K_maxNonLeafChildSize()); } assert(csz(o, 0) == 0); }

func bptree.nonLeafController.CountChildrenForShiftingToLeft(lc, parent, index, ls) (c)
 props C07 C13
 requires nlP(h, lc) && nlP(h, ls) && nlP(h, parent) && cn(pg(h, lc)) >= 2 && 0 <= index < cn(pg(h, parent)) && cchs(pg(h, lc))[0].k.len() == 0
 ensures range: 0 <= c && (c == 0 || c < cn(pg(h, lc)))
 ensures stays: { let o = cchs(pg(h, lc)); let n = o.len() as int; c > 0 ==> K_nonLeafUnderloadThreshold() <= clsz(o, c, n) - o[c].k.len() <= K_nonLeafOverloadThreshold() }
 ensures moves: { let o = cchs(pg(h, lc)); let n = o.len() as int; c > 0 ==> K_nonLeafUnderloadThreshold() <= cload(pg(h, ls)) + clsz(o, 0, c) + cchs(pg(h, parent))[index].k.len() <= K_nonLeafOverloadThreshold() }
 ensures @C13 none: c == 0 && cload(pg(h, ls)) < K_nonLeafUnderloadThreshold() && cload(pg(h, lc)) <= K_nonLeafOverloadThreshold() && chsMax(cchs(pg(h, lc))) && cchs(pg(h, parent))[index].k.len() <= 257 ==> cload(pg(h, lc)) + cload(pg(h, ls)) + cchs(pg(h, parent))[index].k.len() <= K_nonLeafOverloadThreshold()
 at entry { let q = pg(h0, lc0); let gn = cn(q); let o = cchs(q); lem_cn_bound(q, gn); lem_cload(q, gn); lem_csz_mono(o, 0, gn); assert(o.len() == gn); let l2 = cload(pg(h0, leftSibling)); lem_cn_bound(pg(h0, leftSibling), cn(pg(h0, leftSibling))); lem_csz_step(o, 0); assert(csz(o, 0) == 0); let gp = cchs(pg(h0, parent))[index].k.len() as int; }
 loop 1
  decreases gn - i
  invariant h == h0 && i == childCount + 1 && 1 <= i < gn && loadSize1 == clsz(o, i - 1, gn) - o[i - 1].k.len() && loadSize2 == l2 + clsz(o, 0, i - 1) + (if i == 1 { 0 } else { gp })
  invariant keySize == (if i == 1 { gp } else { o[i - 1].k.len() as int })
  invariant loadSize1 > loadSize2 || i == 1
  invariant i > 1 ==> loadSize1 >= K_nonLeafUnderloadThreshold() && loadSize2 <= K_nonLeafOverloadThreshold()
 at loop 1 begin { lem_csz_step(o, i - 1); lem_csz_step(o, i); lem_csz_mono(o, 0, i); lem_csz_mono(o, i + 1, gn); }

func bptree.nonLeafController.CountChildrenForShiftingToRight(lc, parent, index, rsib) (c)
 props C07 C13
 requires nlP(h, lc) && nlP(h, rsib) && nlP(h, parent) && cn(pg(h, lc)) >= 2 && 0 <= index && index + 1 < cn(pg(h, parent))
 ensures range: 0 <= c && (c == 0 || c < cn(pg(h, lc)))
 ensures stays: { let o = cchs(pg(h, lc)); let n = o.len() as int; c > 0 ==> K_nonLeafUnderloadThreshold() <= clsz(o, 0, n - c) <= K_nonLeafOverloadThreshold() }
 ensures moves: { let o = cchs(pg(h, lc)); let n = o.len() as int; c > 0 ==> K_nonLeafUnderloadThreshold() <= cload(pg(h, rsib)) + clsz(o, n - c, n) - o[n - c].k.len() + cchs(pg(h, parent))[index + 1].k.len() <= K_nonLeafOverloadThreshold() }
 ensures @C13 none: c == 0 && cload(pg(h, rsib)) < K_nonLeafUnderloadThreshold() && cload(pg(h, lc)) <= K_nonLeafOverloadThreshold() && chsMax(cchs(pg(h, lc))) && cchs(pg(h, parent))[index + 1].k.len() <= 257 ==> cload(pg(h, lc)) + cload(pg(h, rsib)) + cchs(pg(h, parent))[index + 1].k.len() <= K_nonLeafOverloadThreshold()
 at entry { let q = pg(h0, lc0); let gn = cn(q); let o = cchs(q); lem_cn_bound(q, gn); lem_cload(q, gn); lem_csz_mono(o, 0, gn); assert(o.len() == gn); let l2 = cload(pg(h0, rightSibling)); lem_cn_bound(pg(h0, rightSibling), cn(pg(h0, rightSibling))); assert(csz(o, 0) == 0); let gp = cchs(pg(h0, parent))[index + 1].k.len() as int; }
 loop 1
  decreases i + 1
  invariant h == h0 && i == gn - 1 - childCount && 0 <= i < gn && loadSize1 == clsz(o, 0, i + 1) && loadSize2 == l2 + clsz(o, i + 1, gn) + (if i == gn - 1 { 0 } else { gp - o[i + 1].k.len() })
  invariant keySize == (if i == gn - 1 { gp } else { o[i + 1].k.len() as int })
  invariant loadSize1 > loadSize2 || i == gn - 1
  invariant i < gn - 1 ==> loadSize1 >= K_nonLeafUnderloadThreshold() && loadSize2 <= K_nonLeafOverloadThreshold()
 at loop 1 begin { lem_csz_step(o, i); lem_csz_step(o, i + 1); lem_csz_mono(o, 0, i); lem_csz_mono(o, i + 1, gn); }

func bptree.nonLeafController.CountChildrenForUnshiftingFromLeft(lc, parent, index, ls) (c)
 props C07 C13
 requires nlP(h, lc) && nlP(h, ls) && nlP(h, parent) && cn(pg(h, ls)) >= 2 && 1 <= index < cn(pg(h, parent))
 ensures range: 0 <= c && (c == 0 || c < cn(pg(h, ls)))
 ensures stays: { let o = cchs(pg(h, ls)); let n = o.len() as int; c > 0 ==> K_nonLeafUnderloadThreshold() <= clsz(o, 0, n - c) <= K_nonLeafOverloadThreshold() }
 ensures moves: { let o = cchs(pg(h, ls)); let n = o.len() as int; c > 0 ==> K_nonLeafUnderloadThreshold() <= cload(pg(h, lc)) + clsz(o, n - c, n) - o[n - c].k.len() + cchs(pg(h, parent))[index].k.len() <= K_nonLeafOverloadThreshold() }
 ensures @C13 none: c == 0 && cload(pg(h, lc)) < K_nonLeafUnderloadThreshold() && cload(pg(h, ls)) <= K_nonLeafOverloadThreshold() && chsMax(cchs(pg(h, ls))) && cchs(pg(h, parent))[index].k.len() <= 257 ==> cload(pg(h, ls)) + cload(pg(h, lc)) + cchs(pg(h, parent))[index].k.len() <= K_nonLeafOverloadThreshold()

func bptree.nonLeafController.CountChildrenForUnshiftingFromRight(lc, parent, index, rsib) (c)
 props C07 C13
 requires nlP(h, lc) && nlP(h, rsib) && nlP(h, parent) && cn(pg(h, rsib)) >= 2 && 0 <= index && index + 1 < cn(pg(h, parent)) && cchs(pg(h, rsib))[0].k.len() == 0
 ensures range: 0 <= c && (c == 0 || c < cn(pg(h, rsib)))
 ensures stays: { let o = cchs(pg(h, rsib)); let n = o.len() as int; c > 0 ==> K_nonLeafUnderloadThreshold() <= clsz(o, c, n) - o[c].k.len() <= K_nonLeafOverloadThreshold() }
 ensures moves: { let o = cchs(pg(h, rsib)); let n = o.len() as int; c > 0 ==> K_nonLeafUnderloadThreshold() <= cload(pg(h, lc)) + clsz(o, 0, c) + cchs(pg(h, parent))[index + 1].k.len() <= K_nonLeafOverloadThreshold() }
 ensures @C13 none: c == 0 && cload(pg(h, lc)) < K_nonLeafUnderloadThreshold() && cload(pg(h, rsib)) <= K_nonLeafOverloadThreshold() && chsMax(cchs(pg(h, rsib))) && cchs(pg(h, parent))[index + 1].k.len() <= 257 ==> cload(pg(h, rsib)) + cload(pg(h, lc)) + cchs(pg(h, parent))[index + 1].k.len() <= K_nonLeafOverloadThreshold()
