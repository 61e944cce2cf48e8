// ---- moving records between leaf pages ------------------------------------------------
pub open spec fn mem_kept3(h0: Heap, h: Heap, b1: int, b2: int, b3: int) -> bool {
    forall|b: int| b < h0.nxt && b != b1 && b != b2 && b != b3 ==> #[trigger] h.mem[b] == h0.mem[b]
}
pub open spec fn lnk(q: Seq<u8>, r: Seq<u8>) -> bool { forall|p: int| 0 <= p < 16 ==> #[trigger] q[p] == r[p] }
pub proof fn lem_rsz_pre(x: Seq<Rec>, y: Seq<Rec>, j: int)
    requires 0 <= j <= x.len(), j <= y.len(), forall|i: int| 0 <= i < j ==> #[trigger] x[i] == y[i]
    ensures rsz(x, j) == rsz(y, j)
    decreases j
{ if j > 0 { lem_rsz_pre(x, y, j - 1); assert(x[j - 1] == y[j - 1]); } }
pub proof fn lem_rsz_sub(x: Seq<Rec>, a: int, b: int, j: int)
    requires 0 <= a <= b <= x.len(), 0 <= j <= b - a
    ensures rsz(x.subrange(a, b), j) == rsz(x, a + j) - rsz(x, a)
    decreases j
{ if j > 0 { lem_rsz_sub(x, a, b, j - 1); assert(x.subrange(a, b)[j - 1] == x[a + j - 1]); } }
pub proof fn lem_rsz_cat(x: Seq<Rec>, y: Seq<Rec>, j: int)
    requires 0 <= j <= y.len()
    ensures rsz(x + y, x.len() + j) == rsz(x, x.len() as int) + rsz(y, j)
    decreases j
{
    if j > 0 { lem_rsz_cat(x, y, j - 1); assert((x + y)[x.len() + j - 1] == y[j - 1]); }
    else { lem_rsz_pre(x + y, x, x.len() as int); }
}
pub open spec fn rload(x: Seq<Rec>) -> int { 8 * x.len() + rsz(x, x.len() as int) }
// the load of a page is that of its records
pub proof fn lem_rload(q: Seq<u8>)
    requires lok(q)
    ensures lload(q) == rload(lrecs(q)), lload(q) <= 8172, lrecs(q).len() == ln(q), 0 <= ln(q) <= 1021
{ lem_lload(q, ln(q)); lem_ln_bound(q, ln(q)); }
pub proof fn lem_rload_sub(x: Seq<Rec>, a: int, b: int)
    requires 0 <= a <= b <= x.len()
    ensures rload(x.subrange(a, b)) == lsz(x, a, b), 0 <= lsz(x, a, b) <= rload(x), rload(x) == lsz(x, 0, x.len() as int)
{ lem_rsz_sub(x, a, b, b - a); lem_rsz_mono(x, a, b); lem_rsz_mono(x, b, x.len() as int); lem_rsz_mono(x, 0, a); assert(rsz(x, 0) == 0); }
pub proof fn lem_rload_cat(x: Seq<Rec>, y: Seq<Rec>)
    ensures rload(x + y) == rload(x) + rload(y), rload(x) >= 0
{ lem_rsz_cat(x, y, y.len() as int); lem_rsz_mono(x, 0, x.len() as int); }
pub proof fn lem_rs_ok(h0: Heap, h: Heap, s: Sl, b: int)
    requires rs_fresh(h0, s, 1), b < 0, h0.c_record == h.c_record, forall|x: int| 1 <= x < h0.nxt ==> #[trigger] h.mem[x] == h0.mem[x], h.nxt >= h0.nxt, h.ep >= 1,
    ensures rs_ok(h, s, b), rs_fresh(h, s, 1), rs(h, s) == rs(h0, s)
{
    assert forall|j: int| 0 <= j < s.len implies ({ let r = #[trigger] rs_at(h, s, j);
        z_wf_mem(h, r.Key) && z_wf_mem(h, r.Value) && z_valid(h, r.Key) && z_valid(h, r.Value) && r.Key.blk != b && r.Value.blk != b && r.Key.ep == 0 && r.Value.ep == 0 && r.Key.blk >= 1 && r.Value.blk >= 1 && rs1(h, s, j) == rs1(h0, s, j) }) by { let r = rs_at(h0, s, j); assert(rs_at(h, s, j) == r); }
    assert(rs(h, s) =~= rs(h0, s));
}
// ---- moving children between index pages -----------------------------------------------
pub proof fn lem_csz_pre(x: Seq<Chd>, y: Seq<Chd>, j: int)
    requires 0 <= j <= x.len(), j <= y.len(), forall|i: int| 0 <= i < j ==> (#[trigger] x[i]).k.len() == y[i].k.len()
    ensures csz(x, j) == csz(y, j)
    decreases j
{ if j > 0 { lem_csz_pre(x, y, j - 1); assert(x[j - 1].k.len() == y[j - 1].k.len()); } }
pub proof fn lem_csz_sub(x: Seq<Chd>, a: int, b: int, j: int)
    requires 0 <= a <= b <= x.len(), 0 <= j <= b - a
    ensures csz(x.subrange(a, b), j) == csz(x, a + j) - csz(x, a)
    decreases j
{ if j > 0 { lem_csz_sub(x, a, b, j - 1); assert(x.subrange(a, b)[j - 1] == x[a + j - 1]); } }
pub proof fn lem_csz_cat(x: Seq<Chd>, y: Seq<Chd>, j: int)
    requires 0 <= j <= y.len()
    ensures csz(x + y, x.len() + j) == csz(x, x.len() as int) + csz(y, j)
    decreases j
{
    if j > 0 { lem_csz_cat(x, y, j - 1); assert((x + y)[x.len() + j - 1] == y[j - 1]); }
    else { lem_csz_pre(x + y, x, x.len() as int); }
}
// the first key replaced
pub open spec fn rk(x: Seq<Chd>, k: Seq<u8>) -> Seq<Chd> { x.update(0, Chd { k: k, a: x[0].a }) }
pub open spec fn ek() -> Seq<u8> { Seq::<u8>::empty() }
pub proof fn lem_csz_upd(x: Seq<Chd>, i: int, c: Chd, j: int)
    requires 0 <= i < j <= x.len()
    ensures csz(x.update(i, c), j) == csz(x, j) - x[i].k.len() + c.k.len()
    decreases j
{
    if j - 1 > i { lem_csz_upd(x, i, c, j - 1); } else { lem_csz_pre(x.update(i, c), x, i); }
}
pub open spec fn chload(x: Seq<Chd>) -> int { 12 * x.len() + csz(x, x.len() as int) }
pub proof fn lem_chload(q: Seq<u8>)
    requires cok(q)
    ensures cload(q) == chload(cchs(q)), cload(q) <= 8188, cchs(q).len() == cn(q), 0 <= cn(q) <= 682
{ lem_cload(q, cn(q)); lem_cn_bound(q, cn(q)); }
pub proof fn lem_chload_sub(x: Seq<Chd>, a: int, b: int)
    requires 0 <= a <= b <= x.len()
    ensures chload(x.subrange(a, b)) == clsz(x, a, b), 0 <= clsz(x, a, b) <= chload(x), chload(x) == clsz(x, 0, x.len() as int), a < b ==> x[a].k.len() <= clsz(x, a, b) - 12
{ lem_csz_sub(x, a, b, b - a); lem_csz_mono(x, a, b); lem_csz_mono(x, b, x.len() as int); lem_csz_mono(x, 0, a); assert(csz(x, 0) == 0); if a < b { lem_csz_mono(x, a + 1, b); assert(csz(x, a + 1) == csz(x, a) + x[a].k.len()); } }
pub proof fn lem_chload_cat(x: Seq<Chd>, y: Seq<Chd>)
    ensures chload(x + y) == chload(x) + chload(y), chload(x) >= 0
{ lem_csz_cat(x, y, y.len() as int); lem_csz_mono(x, 0, x.len() as int); }
pub proof fn lem_chload_upd(x: Seq<Chd>, i: int, c: Chd)
    requires 0 <= i < x.len()
    ensures chload(x.update(i, c)) == chload(x) - x[i].k.len() + c.k.len()
{ lem_csz_upd(x, i, c, x.len() as int); }
pub proof fn lem_chload_ins(x: Seq<Chd>, i: int, c: Chd)
    requires 0 <= i <= x.len()
    ensures chload(x.insert(i, c)) == chload(x) + 12 + c.k.len()
{
    let n = x.len() as int;
    assert(x.insert(i, c) =~= x.subrange(0, i) + (seq![c] + x.subrange(i, n)));
    lem_chload_cat(x.subrange(0, i), seq![c] + x.subrange(i, n)); lem_chload_cat(seq![c], x.subrange(i, n));
    lem_chload_sub(x, 0, i); lem_chload_sub(x, i, n); reveal_with_fuel(csz, 2);
}
pub proof fn lem_chload_rem(x: Seq<Chd>, i: int)
    requires 0 <= i < x.len()
    ensures chload(x.remove(i)) == chload(x) - 12 - x[i].k.len()
{ lem_chload_ins(x.remove(i), i, x[i]); assert(x.remove(i).insert(i, x[i]) =~= x); }
pub proof fn lem_cs_ok(h0: Heap, h: Heap, s: Sl, b: int)
    requires cs_fresh(h0, s, 0), b < 0, h0.c_nonLeafChild == h.c_nonLeafChild, forall|x: int| 0 <= x ==> #[trigger] h.mem[x] == h0.mem[x], h.nxt >= h0.nxt, h.ep >= 1,
    ensures cs_ok(h, s, b), cs_fresh(h, s, 0), cs(h, s) == cs(h0, s)
{
    assert forall|j: int| 0 <= j < s.len implies ({ let r = #[trigger] cs_at(h, s, j);
        z_wf_mem(h, r.Key) && z_valid(h, r.Key) && r.Key.blk != b && r.Key.ep == 0 && r.Key.blk >= 0 && z_i64ok(r.Addr) && cs1(h, s, j) == cs1(h0, s, j) }) by { let r = cs_at(h0, s, j); assert(cs_at(h, s, j) == r); }
    assert(cs(h, s) =~= cs(h0, s));
}
// the key of the first of the removed children replaced by a slice of Go memory
pub proof fn lem_cs_rk(h0: Heap, h: Heap, s: Sl, k: Sl)
    requires cs_fresh(h0, s, 0), s.len >= 1, z_wf_mem(h, k), k.ep == 0,
        forall|x: int| 0 <= x < h0.nxt ==> #[trigger] h.mem[x] == h0.mem[x], h.nxt >= h0.nxt, h.ep >= 1,
        h.c_nonLeafChild[s.blk].len() == h0.c_nonLeafChild[s.blk].len(),
        cs_at(h, s, 0) == (T_nonLeafChild { Key: k, Addr: cs_at(h0, s, 0).Addr }),
        forall|j: int| 1 <= j < s.len ==> #[trigger] cs_at(h, s, j) == cs_at(h0, s, j),
    ensures cs_fresh(h, s, 0), cs(h, s) == rk(cs(h0, s), z_seq_mem(h, k)),
{
    assert(cs_at(h0, s, 0) == h0.c_nonLeafChild[s.blk][s.off]);
    assert forall|j: int| 0 <= j < s.len implies ({ let r = #[trigger] cs_at(h, s, j);
        z_wf_mem(h, r.Key) && r.Key.ep == 0 && r.Key.blk >= 0 && z_i64ok(r.Addr) && (j > 0 ==> cs1(h, s, j) == cs1(h0, s, j)) }) by { let r = cs_at(h0, s, j); }
    assert(cs(h, s) =~= rk(cs(h0, s), z_seq_mem(h, k)));
}
