// generated from one template (keys and values have the same format)

func bptree.keyFactory.allocateKeyOverflow(f, x) (addr)
 props C06 C08 C09 C02 C11
 requires x.ep == 0
 modifies mem alloc fs
 ensures h.sp == h0.sp.insert(addr) && !h0.sp.contains(addr) && !h0.al.contains(addr) && h.al == h0.al && addr > 0 && z_i64ok(addr)
 ensures ovd_ok(h.mem[-1 - addr]) && ovd(h.mem[-1 - addr]) == z_seq_mem(h0, x) && uvdec(h.mem[-1 - addr]).0 == x.len
 ensures mem_kept1(h0, h, -1 - addr) && h.ep > h0.ep
 at exit {
   lem_uvenc_bound(x.len);
   assert(z_seq_mem(h0, x).len() == x.len);
   assert(h.mem[-1 - addr].subrange(0, uvenc(x.len).len() + x.len) =~= uvenc(x.len) + z_seq_mem(h0, x));
   lem_ov(x.len, z_seq_mem(h0, x), h.mem[-1 - addr]);
 }
 at entry { lem_uvenc_bound(x.len); }

func bptree.keyFactory.destroyKeyOverflow(f, addr)
 props C08 C09 C06
 requires @C08 @C09 h.sp.contains(addr)
 modifies mem fs
 ensures h.sp == h0.sp.remove(addr) && h.al == h0.al && mem_kept1(h0, h, -1 - addr) && h.ep > h0.ep

func bptree.keyFactory.getKeyOverflow(f, k) (addr, x)
 props C06 C08 C09 C02
 requires z_valid(h, k) && islong(z_seq_mem(h, k), kP()) && fmtOK(h, z_seq_mem(h, k), kP())
 ensures addr == ovaddr(z_seq_mem(h, k), kP()) && z_valid(h, x) && x.blk == -1 - addr && x.ep == h.ep
 ensures z_seq_mem(h, x) == ovd(h.mem[-1 - addr]) && x.len == uvdec(h.mem[-1 - addr]).0
 at exit { assert(z_seq_mem(h, z_access(h, addr)) =~= h.mem[-1 - addr]); assert(z_seq_mem(h, x) =~= ovd(h.mem[-1 - addr])); }

func bptree.keyFactory.CreateKey(f, rawk) (k)
 props C06 C08 C09 C02 C11
 requires rawk.ep == 0 && z_wf_mem(h, rawk)
 modifies mem alloc fs
 ensures format: fmtOK(h, z_seq_mem(h, k), kP()) && k.ep == 0 && z_wf_mem(h, k)
 ensures exact: rawOf(h.mem, z_seq_mem(h, k), kP()) == z_seq_mem(h0, rawk)
 ensures short: rawk.len < kP() + 8 ==> k == rawk && h == h0
 ensures long: rawk.len >= kP() + 8 ==> {
    let a = ovaddr(z_seq_mem(h, k), kP());
    &&& k.blk >= h0.nxt && k.blk < h.nxt && islong(z_seq_mem(h, k), kP())
    &&& h.sp == h0.sp.insert(a) && !h0.sp.contains(a) && !h0.al.contains(a) && h.al == h0.al
    &&& mem_kept1(h0, h, -1 - a) && h.ep > h0.ep
  }
 at exit {
   let ks = z_seq_mem(h, k);
   if rawk.len >= kP() + 8 {
     assert(be64(ks, kP()) == be64(h.mem[k.blk], kP()));
     let a = ovaddr(ks, kP());
     assert(ks.subrange(0, kP()) =~= z_seq_mem(h0, rawk).subrange(0, kP()));
     assert(rawOf(h.mem, ks, kP()) =~= z_seq_mem(h0, rawk));
   }
 }

func bptree.keyFactory.DestroyKey(f, k) (n)
 props C06 C08 C09 C10 C02
 requires z_valid(h, k) && fmtOK(h, z_seq_mem(h, k), kP())
 modifies mem fs
 ensures @C06 @C10 size: n == rawOf(h0.mem, z_seq_mem(h0, k), kP()).len()
 ensures short: !islong(z_seq_mem(h0, k), kP()) ==> h == h0
 ensures long: islong(z_seq_mem(h0, k), kP()) ==> {
    let a = ovaddr(z_seq_mem(h0, k), kP());
    h.sp == h0.sp.remove(a) && h.al == h0.al && mem_kept1(h0, h, -1 - a) && h.ep > h0.ep
  }

func bptree.keyFactory.ReadKey(f, k, off, buf) (n)
 props C06 C08 C12 C11
 requires z_valid(h, k) && fmtOK(h, z_seq_mem(h, k), kP()) && z_wf_mem(h, k)
 requires off >= 0 && buf.ep == 0 && z_wf_mem(h, buf) && buf.blk != k.blk
 modifies mem
 ensures @C06 @C12 count: n == rd_len(rawOf(h0.mem, z_seq_mem(h0, k), kP()).len() as int, off, buf.len)
 ensures bytes: h.mem == h0.mem.insert(buf.blk, splice(h0.mem[buf.blk], buf.off, rawOf(h0.mem, z_seq_mem(h0, k), kP()).subrange(off, off + n))) || (n == 0 && h == h0)
 at exit {
   let raw = rawOf(h0.mem, z_seq_mem(h0, k), kP());
   if n == 0 { assert(h.mem =~= h0.mem) by { assert(h.mem[buf.blk] =~= h0.mem[buf.blk]); } }
   if n > 0 { assert(h.mem[buf.blk] =~= splice(h0.mem[buf.blk], buf.off, raw.subrange(off, off + n))); }
   assert(h.mem =~= h0.mem.insert(buf.blk, h.mem[buf.blk]) || n == 0);
 }

func bptree.keyFactory.ReadKeyAll(f, k) (x)
 props C06 C08 C11 C02
 requires z_valid(h, k) && fmtOK(h, z_seq_mem(h, k), kP()) && z_wf_mem(h, k)
 modifies mem alloc
 ensures exact: z_seq_mem(h, x) == rawOf(h0.mem, z_seq_mem(h0, k), kP()) && x.len == z_seq_mem(h, x).len()
 ensures @C11 fresh: x.blk >= h0.nxt && x.blk < h.nxt && x.ep == 0 && mem_kept(h0, h)
 at exit { assert(z_seq_mem(h, x) =~= rawOf(h0.mem, z_seq_mem(h0, k), kP())); }

func bptree.keyFactory.GetRawKeySize(f, k) (n)
 props C06 C08 C10 C12
 requires z_valid(h, k) && fmtOK(h, z_seq_mem(h, k), kP())
 ensures size: n == rawOf(h.mem, z_seq_mem(h, k), kP()).len()

func bptree.valueFactory.allocateValueOverflow(f, x) (addr)
 props C06 C08 C09 C02 C11
 requires x.ep == 0
 modifies mem alloc fs
 ensures h.sp == h0.sp.insert(addr) && !h0.sp.contains(addr) && !h0.al.contains(addr) && h.al == h0.al && addr > 0 && z_i64ok(addr)
 ensures ovd_ok(h.mem[-1 - addr]) && ovd(h.mem[-1 - addr]) == z_seq_mem(h0, x) && uvdec(h.mem[-1 - addr]).0 == x.len
 ensures mem_kept1(h0, h, -1 - addr) && h.ep > h0.ep
 at exit {
   lem_uvenc_bound(x.len);
   assert(z_seq_mem(h0, x).len() == x.len);
   assert(h.mem[-1 - addr].subrange(0, uvenc(x.len).len() + x.len) =~= uvenc(x.len) + z_seq_mem(h0, x));
   lem_ov(x.len, z_seq_mem(h0, x), h.mem[-1 - addr]);
 }
 at entry { lem_uvenc_bound(x.len); }

func bptree.valueFactory.freeValueOverflow(f, addr)
 props C08 C09 C06
 requires @C08 @C09 h.sp.contains(addr)
 modifies mem fs
 ensures h.sp == h0.sp.remove(addr) && h.al == h0.al && mem_kept1(h0, h, -1 - addr) && h.ep > h0.ep

func bptree.valueFactory.getValueOverflow(f, k) (addr, x)
 props C06 C08 C09 C02
 requires z_valid(h, k) && islong(z_seq_mem(h, k), vP()) && fmtOK(h, z_seq_mem(h, k), vP())
 ensures addr == ovaddr(z_seq_mem(h, k), vP()) && z_valid(h, x) && x.blk == -1 - addr && x.ep == h.ep
 ensures z_seq_mem(h, x) == ovd(h.mem[-1 - addr]) && x.len == uvdec(h.mem[-1 - addr]).0
 at exit { assert(z_seq_mem(h, z_access(h, addr)) =~= h.mem[-1 - addr]); assert(z_seq_mem(h, x) =~= ovd(h.mem[-1 - addr])); }

func bptree.valueFactory.CreateValue(f, rawk) (k)
 props C06 C08 C09 C02 C11
 requires rawk.ep == 0 && z_wf_mem(h, rawk)
 modifies mem alloc fs
 ensures format: fmtOK(h, z_seq_mem(h, k), vP()) && k.ep == 0 && z_wf_mem(h, k)
 ensures exact: rawOf(h.mem, z_seq_mem(h, k), vP()) == z_seq_mem(h0, rawk)
 ensures short: rawk.len < vP() + 8 ==> k == rawk && h == h0
 ensures long: rawk.len >= vP() + 8 ==> {
    let a = ovaddr(z_seq_mem(h, k), vP());
    &&& k.blk >= h0.nxt && k.blk < h.nxt && islong(z_seq_mem(h, k), vP())
    &&& h.sp == h0.sp.insert(a) && !h0.sp.contains(a) && !h0.al.contains(a) && h.al == h0.al
    &&& mem_kept1(h0, h, -1 - a) && h.ep > h0.ep
  }
 at exit {
   let ks = z_seq_mem(h, k);
   if rawk.len >= vP() + 8 {
     assert(be64(ks, vP()) == be64(h.mem[k.blk], vP()));
     let a = ovaddr(ks, vP());
     assert(ks.subrange(0, vP()) =~= z_seq_mem(h0, rawk).subrange(0, vP()));
     assert(rawOf(h.mem, ks, vP()) =~= z_seq_mem(h0, rawk));
   }
 }

func bptree.valueFactory.DestroyValue(f, k) (n)
 props C06 C08 C09 C10 C02
 requires z_valid(h, k) && fmtOK(h, z_seq_mem(h, k), vP())
 modifies mem fs
 ensures @C06 @C10 size: n == rawOf(h0.mem, z_seq_mem(h0, k), vP()).len()
 ensures short: !islong(z_seq_mem(h0, k), vP()) ==> h == h0
 ensures long: islong(z_seq_mem(h0, k), vP()) ==> {
    let a = ovaddr(z_seq_mem(h0, k), vP());
    h.sp == h0.sp.remove(a) && h.al == h0.al && mem_kept1(h0, h, -1 - a) && h.ep > h0.ep
  }

func bptree.valueFactory.ReadValue(f, k, off, buf) (n)
 props C06 C08 C12 C11
 requires z_valid(h, k) && fmtOK(h, z_seq_mem(h, k), vP()) && z_wf_mem(h, k)
 requires off >= 0 && buf.ep == 0 && z_wf_mem(h, buf) && buf.blk != k.blk
 modifies mem
 ensures @C06 @C12 count: n == rd_len(rawOf(h0.mem, z_seq_mem(h0, k), vP()).len() as int, off, buf.len)
 ensures bytes: h.mem == h0.mem.insert(buf.blk, splice(h0.mem[buf.blk], buf.off, rawOf(h0.mem, z_seq_mem(h0, k), vP()).subrange(off, off + n))) || (n == 0 && h == h0)
 at exit {
   let raw = rawOf(h0.mem, z_seq_mem(h0, k), vP());
   if n == 0 { assert(h.mem =~= h0.mem) by { assert(h.mem[buf.blk] =~= h0.mem[buf.blk]); } }
   if n > 0 { assert(h.mem[buf.blk] =~= splice(h0.mem[buf.blk], buf.off, raw.subrange(off, off + n))); }
   assert(h.mem =~= h0.mem.insert(buf.blk, h.mem[buf.blk]) || n == 0);
 }

func bptree.valueFactory.ReadValueAll(f, k) (x)
 props C06 C08 C11 C02
 requires z_valid(h, k) && fmtOK(h, z_seq_mem(h, k), vP()) && z_wf_mem(h, k)
 modifies mem alloc
 ensures exact: z_seq_mem(h, x) == rawOf(h0.mem, z_seq_mem(h0, k), vP()) && x.len == z_seq_mem(h, x).len()
 ensures @C11 fresh: x.blk >= h0.nxt && x.blk < h.nxt && x.ep == 0 && mem_kept(h0, h)
 at exit { assert(z_seq_mem(h, x) =~= rawOf(h0.mem, z_seq_mem(h0, k), vP())); }

func bptree.valueFactory.GetRawValueSize(f, k) (n)
 props C06 C08 C10 C12
 requires z_valid(h, k) && fmtOK(h, z_seq_mem(h, k), vP())
 ensures size: n == rawOf(h.mem, z_seq_mem(h, k), vP()).len()

func bptree.copyBytes(data) (x)
 props C06 C11 C02
 requires z_valid(h, data) && z_wf_mem(h, data)
 modifies mem alloc
 ensures exact: z_seq_mem(h, x) == z_seq_mem(h0, data) && x.len == data.len
 ensures @C11 fresh: x.blk >= h0.nxt && x.blk < h.nxt && x.ep == 0 && mem_kept(h0, h)
 at exit { assert(z_seq_mem(h, x) =~= z_seq_mem(h0, data)); }

func bptree.keyComparer.CompareKey(kc, k, rawk) (d)
 props C02 C03 C06 C08 C13
 requires z_valid(h, k) && z_valid(h, rawk) && fmtOK(h, z_seq_mem(h, k), kP()) && z_wf_mem(h, k) && z_wf_mem(h, rawk)
 ensures order: d == lexcmp(rawK(h.mem, z_seq_mem(h, k)), z_seq_mem(h, rawk))
 at exit {
   let ks = z_seq_mem(h, k); let rs = z_seq_mem(h, rawk);
   if islong(ks, kP()) {
     let a = ks.subrange(0, kP()); let x = ks.subrange(kP(), ks.len() as int); let o = ovd(h.mem[-1 - ovaddr(ks, kP())]);
     assert(a + x =~= ks);
     let n = z_min(kP(), rs.len() as int);
     let r1 = rs.subrange(0, n); let r2 = rs.subrange(n, rs.len() as int);
     assert(rs =~= r1 + r2);
     if rs.len() <= kP() {
        let a1 = ks.subrange(0, n); let a2 = ks.subrange(n, kP());
        assert(a =~= a1 + a2);
        assert(ks =~= a1 + (a2 + x)); assert(a + o =~= a1 + (a2 + o));
        lem_lex_cat(a1, a2 + x, r1, r2); lem_lex_cat(a1, a2 + o, r1, r2);
     } else {
        lem_lex_cat(a, o, r1, r2);
        assert(r1 =~= rs.subrange(0, kP()));
        assert(z_seq_mem(h, z_access(h, ovaddr(ks, kP()))) =~= h.mem[-1 - ovaddr(ks, kP())]);
        assert(z_seq_mem(h, z_slice(k, 0, kP())) =~= a);
        assert(z_seq_mem(h, z_slice(rawk, 0, kP())) =~= r1);
        assert(z_seq_mem(h, z_slice(rawk, kP(), rawk.len)) =~= r2);
        let dd = h.mem[-1 - ovaddr(ks, kP())];
        assert(z_seq_mem(h, z_slice(z_access(h, ovaddr(ks, kP())), uvdec(dd).1, uvdec(dd).1 + uvdec(dd).0)) =~= o);
     }
   }
 }

func bptree.isMinKey(rawk) (yes)
 props C02 C03 C06
 ensures exact: yes == isMin(rawk)

func bptree.isMaxKey(rawk) (yes)
 props C02 C03 C06
 ensures exact: yes == isMax(rawk)
