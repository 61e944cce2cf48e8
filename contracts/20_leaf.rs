// ---- leaf pages -----------------------------------------------------------------
pub struct Rec { pub k: Seq<u8>, pub v: Seq<u8> }

pub open spec fn lko(q: Seq<u8>, i: int) -> int { be32(q, 20 + 8 * i) }
pub open spec fn lvo(q: Seq<u8>, i: int) -> int { be32(q, 24 + 8 * i) }
pub open spec fn lke(q: Seq<u8>, n: int, i: int) -> int { if i >= n { 8192 } else { lko(q, i) } }
pub open spec fn ln(q: Seq<u8>) -> int { be32(q, 16) }
// the page content is well formed with n records
pub open spec fn lokn(q: Seq<u8>, n: int) -> bool {
    &&& q.len() == 8192 && 0 <= n && 20 + 8 * n <= lke(q, n, 0)
    &&& forall|i: int| 0 <= i < n ==> lke(q, n, 0) <= #[trigger] lko(q, i) <= 8192
    &&& forall|i: int| 0 <= i < n ==> lko(q, i) <= #[trigger] lvo(q, i) <= lke(q, n, i + 1) <= 8192
    &&& forall|i: int, j: int| #![trigger lko(q, i), lko(q, j)] 0 <= i <= j < n ==> lko(q, i) <= lko(q, j)
    &&& forall|i: int, j: int| #![trigger lvo(q, i), lko(q, j)] 0 <= i < j < n ==> lvo(q, i) <= lko(q, j)
}
pub open spec fn lkey(q: Seq<u8>, i: int) -> Seq<u8> { q.subrange(lko(q, i), lvo(q, i)) }
pub open spec fn lval(q: Seq<u8>, n: int, i: int) -> Seq<u8> { q.subrange(lvo(q, i), lke(q, n, i + 1)) }
pub open spec fn lrec(q: Seq<u8>, n: int, i: int) -> Rec { Rec { k: lkey(q, i), v: lval(q, n, i) } }
pub open spec fn lrecsn(q: Seq<u8>, n: int) -> Seq<Rec> { Seq::new(n as nat, |i: int| lrec(q, n, i)) }
pub open spec fn lok(q: Seq<u8>) -> bool { lokn(q, ln(q)) }
pub open spec fn lrecs(q: Seq<u8>) -> Seq<Rec> { lrecsn(q, ln(q)) }
// bytes in use after the header: headers, keys and values
pub open spec fn lload(q: Seq<u8>) -> int { 8 * ln(q) + 8192 - lke(q, ln(q), 0) }

// a controller of a page
pub open spec fn pageOK(h: Heap, lc: Sl) -> bool {
    lc.off == 0 && lc.len == 8192 && lc.cap == 8192 && h.mem[lc.blk].len() == 8192 && z_valid(h, lc) && lc.blk != 0 && z_wf_mem(h, lc)
}
pub open spec fn leafP(h: Heap, lc: Sl) -> bool { pageOK(h, lc) && lok(h.mem[lc.blk]) }
#[verifier::inline]
pub open spec fn pg(h: Heap, lc: Sl) -> Seq<u8> { h.mem[lc.blk] }

// the records of a slice of records
pub open spec fn rs_at(h: Heap, s: Sl, j: int) -> T_record { h.c_record[s.blk][s.off + j] }
pub open spec fn rs1(h: Heap, s: Sl, j: int) -> Rec { Rec { k: z_seq_mem(h, rs_at(h, s, j).Key), v: z_seq_mem(h, rs_at(h, s, j).Value) } }
pub open spec fn rs(h: Heap, s: Sl) -> Seq<Rec> { Seq::new(s.len as nat, |j: int| rs1(h, s, j)) }
// the records can be copied into the page at block b
pub open spec fn rs_ok(h: Heap, s: Sl, b: int) -> bool {
    &&& z_wf_c_record(h, s) && z_valid(h, s)
    &&& forall|j: int| 0 <= j < s.len ==> {
        let r = #[trigger] rs_at(h, s, j);
        z_wf_mem(h, r.Key) && z_wf_mem(h, r.Value) && z_valid(h, r.Key) && z_valid(h, r.Value) && r.Key.blk != b && r.Value.blk != b
    }
}
pub open spec fn rsz1(r: Rec) -> int { r.k.len() as int + r.v.len() as int }
// the bytes of the first j records
pub open spec fn rsz(x: Seq<Rec>, j: int) -> int decreases j {
    if j <= 0 { 0 } else { rsz(x, j - 1) + rsz1(x[j - 1]) }
}
pub proof fn lem_rsz_mono(x: Seq<Rec>, i: int, j: int)
    requires 0 <= i <= j
    ensures 0 <= rsz(x, i) <= rsz(x, j)
    decreases j
{
    if j > i { lem_rsz_mono(x, i, j - 1); } else if i > 0 { lem_rsz_mono(x, i - 1, i - 1); assert(rsz(x, i) == rsz(x, i - 1) + rsz1(x[i - 1])); }
}
// the bytes of a page's records are the difference of their offsets
pub proof fn lem_rsz_page(q: Seq<u8>, n: int, j: int)
    requires lokn(q, n), 0 <= j <= n
    ensures rsz(lrecsn(q, n), j) == lke(q, n, j) - lke(q, n, 0)
    decreases j
{
    if j > 0 {
        lem_rsz_page(q, n, j - 1);
        assert(lko(q, j - 1) <= lvo(q, j - 1) <= lke(q, n, j));
        assert(lrecsn(q, n)[j - 1] == lrec(q, n, j - 1));
    }
}
pub proof fn lem_be32_bytes(q: Seq<u8>, r: Seq<u8>, p: int, o: int)
    requires q[p] == r[o], q[p + 1] == r[o + 1], q[p + 2] == r[o + 2], q[p + 3] == r[o + 3]
    ensures be32(q, p) == be32(r, o)
{ reveal(be32); }
// record j of x lies in the page at header a+j and payload offset base
pub open spec fn recAt(q: Seq<u8>, x: Seq<Rec>, base: int, a: int, j: int) -> bool {
    let o = base + rsz(x, j);
    &&& lko(q, a + j) == o && lvo(q, a + j) == o + x[j].k.len()
    &&& q.subrange(o, o + x[j].k.len()) == x[j].k
    &&& q.subrange(o + x[j].k.len(), o + rsz1(x[j])) == x[j].v
}
pub proof fn lem_recAt_frame(q: Seq<u8>, r: Seq<u8>, x: Seq<Rec>, base: int, a: int, j: int)
    requires recAt(q, x, base, a, j), 0 <= j < x.len(), 0 <= a, q.len() == 8192, r.len() == 8192,
        20 + 8 * (a + j) + 8 <= 8192, 0 <= base + rsz(x, j), base + rsz(x, j + 1) <= 8192,
        forall|p: int| 20 + 8 * (a + j) <= p < 20 + 8 * (a + j) + 8 ==> q[p] == r[p],
        forall|p: int| base + rsz(x, j) <= p < base + rsz(x, j + 1) ==> q[p] == r[p],
    ensures recAt(r, x, base, a, j)
{
    let o = base + rsz(x, j);
    assert(rsz(x, j + 1) == rsz(x, j) + rsz1(x[j]));
    lem_be32_bytes(r, q, 20 + 8 * (a + j), 20 + 8 * (a + j));
    lem_be32_bytes(r, q, 24 + 8 * (a + j), 24 + 8 * (a + j));
    assert(r.subrange(o, o + x[j].k.len()) =~= q.subrange(o, o + x[j].k.len()));
    assert(r.subrange(o + x[j].k.len(), o + rsz1(x[j])) =~= q.subrange(o + x[j].k.len(), o + rsz1(x[j])));
}
// adjacent offsets in order make all offsets ordered
pub proof fn lem_adj_mono(q: Seq<u8>, n: int, i: int, j: int)
    requires 0 <= i <= j <= n, forall|t: int| 0 <= t < n ==> lko(q, t) <= #[trigger] lvo(q, t) <= lke(q, n, t + 1),
    ensures lke(q, n, i) <= lke(q, n, j), i < j ==> lvo(q, i) <= lke(q, n, j)
    decreases j - i
{
    if i < j { assert(lvo(q, i) <= lke(q, n, i + 1)); lem_adj_mono(q, n, i + 1, j); }
}
pub proof fn lem_lokn_adj(q: Seq<u8>, n: int)
    requires q.len() == 8192, 0 <= n, 20 + 8 * n <= lke(q, n, 0),
        forall|t: int| 0 <= t < n ==> lko(q, t) <= #[trigger] lvo(q, t) <= lke(q, n, t + 1),
    ensures lokn(q, n)
{
    assert forall|i: int| 0 <= i < n implies lke(q, n, 0) <= #[trigger] lko(q, i) <= 8192 by { lem_adj_mono(q, n, 0, i); lem_adj_mono(q, n, i, n); }
    assert forall|i: int| 0 <= i < n implies lko(q, i) <= #[trigger] lvo(q, i) <= lke(q, n, i + 1) <= 8192 by { lem_adj_mono(q, n, i, n); lem_adj_mono(q, n, i + 1, n); }
    assert forall|i: int, j: int| #![trigger lko(q, i), lko(q, j)] 0 <= i <= j < n implies lko(q, i) <= lko(q, j) by { lem_adj_mono(q, n, i, j); }
    assert forall|i: int, j: int| #![trigger lvo(q, i), lko(q, j)] 0 <= i < j < n implies lvo(q, i) <= lko(q, j) by { lem_adj_mono(q, n, i, j); }
}
pub proof fn lem_shift_sub(q: Seq<u8>, q0: Seq<u8>, lo: int, hi: int, k: int, l0: int, h0: int)
    requires 0 <= lo <= hi <= q.len(), 0 <= l0 == lo + k, h0 == hi + k <= q0.len(), forall|p: int| lo <= p < hi ==> #[trigger] q[p] == q0[p + k]
    ensures q.subrange(lo, hi) == q0.subrange(l0, h0)
{
    assert forall|t: int| 0 <= t < hi - lo implies q.subrange(lo, hi)[t] == q0.subrange(l0, h0)[t] by { assert(q[lo + t] == q0[lo + t + k]); }
    assert(q.subrange(lo, hi) =~= q0.subrange(l0, h0));
}
// offsets of entry j after inserting x at a
pub open spec fn nko(q0: Seq<u8>, n: int, a: int, x: Seq<Rec>, j: int) -> int {
    let m = x.len() as int; let k = rsz(x, m);
    if j < a { lko(q0, j) - k } else if j < a + m { lke(q0, n, a) - k + rsz(x, j - a) } else { lke(q0, n, j - m) }
}
pub open spec fn nvo(q0: Seq<u8>, n: int, a: int, x: Seq<Rec>, j: int) -> int {
    let m = x.len() as int; let k = rsz(x, m);
    if j < a { lvo(q0, j) - k } else if j < a + m { lke(q0, n, a) - k + rsz(x, j - a) + x[j - a].k.len() } else { lvo(q0, j - m) }
}
pub open spec fn ins_pre(q0: Seq<u8>, q: Seq<u8>, n: int, a: int, x: Seq<Rec>) -> bool {
    let m = x.len() as int;
    lokn(q0, n) && 0 <= a <= n && q.len() == 8192 && 20 + 8 * (n + m) + rsz(x, m) <= lke(q0, n, 0)
}
pub proof fn lem_ins_step(q0: Seq<u8>, q: Seq<u8>, n: int, a: int, x: Seq<Rec>, j: int)
    requires ins_pre(q0, q, n, a, x), 0 <= j < n + x.len()
    ensures nko(q0, n, a, x, j) <= nvo(q0, n, a, x, j) <= nko(q0, n, a, x, j + 1),
        j + 1 == n + x.len() && (a < n || x.len() == 0) ==> nko(q0, n, a, x, j + 1) == 8192,
        nko(q0, n, a, x, j) >= lke(q0, n, 0) - rsz(x, x.len() as int), nko(q0, n, a, x, j) <= 8192
{
    let m = x.len() as int;
    lem_rsz_mono(x, 0, m);
    if j < a {
        assert(lko(q0, j) <= lvo(q0, j) <= lke(q0, n, j + 1));
        if j + 1 == a && m == 0 { }
    } else if j < a + m {
        assert(rsz(x, j - a + 1) == rsz(x, j - a) + rsz1(x[j - a]));
        lem_rsz_mono(x, j - a + 1, m); lem_rsz_mono(x, 0, j - a);
        assert(lke(q0, n, 0) <= lke(q0, n, a) <= 8192);
    } else {
        assert(lko(q0, j - m) <= lvo(q0, j - m) <= lke(q0, n, j - m + 1));
    }
}
pub proof fn lem_ins_rec(q0: Seq<u8>, q: Seq<u8>, n: int, a: int, x: Seq<Rec>, j: int)
    requires ins_pre(q0, q, n, a, x), 0 <= j < n + x.len(),
        lko(q, j) == nko(q0, n, a, x, j), lvo(q, j) == nvo(q0, n, a, x, j), lke(q, n + x.len(), j + 1) == nko(q0, n, a, x, j + 1),
        a <= j < a + x.len() ==> recAt(q, x, lke(q0, n, a) - rsz(x, x.len() as int), a, j - a),
        forall|p: int| lke(q0, n, 0) - rsz(x, x.len() as int) <= p < lke(q0, n, a) - rsz(x, x.len() as int) ==> #[trigger] q[p] == q0[p + rsz(x, x.len() as int)],
        forall|p: int| lke(q0, n, a) <= p < 8192 ==> #[trigger] q[p] == q0[p],
    ensures lrec(q, n + x.len(), j) == (if j < a { lrec(q0, n, j) } else if j < a + x.len() { x[j - a] } else { lrec(q0, n, j - x.len()) })
{
    let m = x.len() as int; let k = rsz(x, m); let N = n + m;
    lem_ins_step(q0, q, n, a, x, j);
    if j < a {
        assert(lko(q0, j) <= lvo(q0, j) <= lke(q0, n, j + 1));
        assert(lke(q0, n, j + 1) <= lke(q0, n, a) <= 8192); lem_rsz_mono(x, 0, m);
        assert(nko(q0, n, a, x, j + 1) == lke(q0, n, j + 1) - k);
        lem_shift_sub(q, q0, lko(q, j), lvo(q, j), k, lko(q0, j), lvo(q0, j));
        lem_shift_sub(q, q0, lvo(q, j), lke(q, N, j + 1), k, lvo(q0, j), lke(q0, n, j + 1));
    } else if j < a + m {
        assert(rsz(x, j - a + 1) == rsz(x, j - a) + rsz1(x[j - a]));
    } else {
        assert(lko(q0, j - m) <= lvo(q0, j - m) <= lke(q0, n, j - m + 1));
        assert(lke(q0, n, a) <= lko(q0, j - m));
        assert(lkey(q, j) =~= lkey(q0, j - m));
        assert(lval(q, N, j) =~= lval(q0, n, j - m));
    }
}
pub proof fn lem_leaf_insert(q0: Seq<u8>, q: Seq<u8>, n: int, a: int, x: Seq<Rec>, m: int)
    requires ins_pre(q0, q, n, a, x), m == x.len(),
        forall|j: int| 0 <= j < n + m ==> #[trigger] lko(q, j) == nko(q0, n, a, x, j),
        forall|j: int| 0 <= j < n + m ==> #[trigger] lvo(q, j) == nvo(q0, n, a, x, j),
        forall|j: int| 0 <= j < m ==> #[trigger] recAt(q, x, lke(q0, n, a) - rsz(x, m), a, j),
        forall|p: int| lke(q0, n, 0) - rsz(x, m) <= p < lke(q0, n, a) - rsz(x, m) ==> #[trigger] q[p] == q0[p + rsz(x, m)],
        forall|p: int| lke(q0, n, a) <= p < 8192 ==> #[trigger] q[p] == q0[p],
    ensures lokn(q, n + m), lrecsn(q, n + m) == lrecsn(q0, n).subrange(0, a) + x + lrecsn(q0, n).subrange(a, n)
{
    let N = n + m;
    assert(nko(q0, n, a, x, N) == 8192) by { lem_rsz_mono(x, 0, m); }
    assert forall|t: int| 0 <= t < N implies lko(q, t) <= #[trigger] lvo(q, t) <= lke(q, N, t + 1) by { lem_ins_step(q0, q, n, a, x, t); }
    if N > 0 { lem_ins_step(q0, q, n, a, x, 0); assert(lko(q, 0) == nko(q0, n, a, x, 0)); }
    lem_lokn_adj(q, N);
    let s = lrecsn(q0, n).subrange(0, a) + x + lrecsn(q0, n).subrange(a, n);
    assert forall|j: int| 0 <= j < N implies #[trigger] lrecsn(q, N)[j] == s[j] by {
        assert(lko(q, j) == nko(q0, n, a, x, j)); assert(lvo(q, j) == nvo(q0, n, a, x, j));
        assert(lke(q, N, j + 1) == nko(q0, n, a, x, j + 1)) by { if j + 1 < N { assert(lko(q, j + 1) == nko(q0, n, a, x, j + 1)); } }
        if a <= j < a + m { assert(recAt(q, x, lke(q0, n, a) - rsz(x, m), a, j - a)); }
        lem_ins_rec(q0, q, n, a, x, j);
    }
    assert(lrecsn(q, N) =~= s);
}
// everything said about the records lies behind the links
pub open spec fn sameFrom(q: Seq<u8>, r: Seq<u8>, lo: int) -> bool {
    q.len() == r.len() && forall|p: int| lo <= p < q.len() ==> #[trigger] q[p] == r[p]
}
pub proof fn lem_page_from(q: Seq<u8>, r: Seq<u8>, n: int)
    requires sameFrom(q, r, 20), lokn(q, n),
    ensures lokn(r, n), lrecsn(r, n) == lrecsn(q, n), lke(r, n, 0) == lke(q, n, 0)
{
    assert forall|i: int| 0 <= i < n implies #[trigger] lko(r, i) == lko(q, i) by { lem_be32_bytes(r, q, 20 + 8 * i, 20 + 8 * i); }
    assert forall|i: int| 0 <= i < n implies #[trigger] lvo(r, i) == lvo(q, i) by { lem_be32_bytes(r, q, 24 + 8 * i, 24 + 8 * i); }
    assert forall|t: int| 0 <= t < n implies lko(r, t) <= #[trigger] lvo(r, t) <= lke(r, n, t + 1) by { assert(lko(q, t) <= lvo(q, t) <= lke(q, n, t + 1)); assert(lko(r, t) == lko(q, t)); if t + 1 < n { assert(lko(r, t + 1) == lko(q, t + 1)); } }
    if n > 0 { assert(lko(r, 0) == lko(q, 0)); }
    lem_lokn_adj(r, n);
    assert forall|i: int| 0 <= i < n implies #[trigger] lrecsn(r, n)[i] == lrecsn(q, n)[i] by {
        assert(lko(r, i) == lko(q, i)); assert(lvo(r, i) == lvo(q, i)); if i + 1 < n { assert(lko(r, i + 1) == lko(q, i + 1)); }
        assert(lko(q, i) <= lvo(q, i) <= lke(q, n, i + 1));
        assert(lkey(r, i) =~= lkey(q, i)); assert(lval(r, n, i) =~= lval(q, n, i));
    }
    assert(lrecsn(r, n) =~= lrecsn(q, n));
}
pub proof fn lem_lload(q: Seq<u8>, n: int)
    requires lokn(q, n)
    ensures 8192 - lke(q, n, 0) == rsz(lrecsn(q, n), n)
{ lem_rsz_page(q, n, n); }
pub proof fn lem_ln_bound(q: Seq<u8>, n: int)
    requires lokn(q, n)
    ensures n <= 1021, lke(q, n, 0) <= 8192
{ if n > 0 { assert(lko(q, 0) <= 8192); } }
pub proof fn lem_be32_zero(q: Seq<u8>, i: int)
    requires q[i] == 0, q[i + 1] == 0, q[i + 2] == 0, q[i + 3] == 0
    ensures be32(q, i) == 0
{ reveal(be32); }
// ---- removal of m records at a -----------------------------------------------------
pub open spec fn dko(q0: Seq<u8>, n: int, a: int, m: int, j: int) -> int {
    let k = lke(q0, n, a + m) - lke(q0, n, a);
    if j < a { lko(q0, j) + k } else { lke(q0, n, j + m) }
}
pub open spec fn dvo(q0: Seq<u8>, n: int, a: int, m: int, j: int) -> int {
    let k = lke(q0, n, a + m) - lke(q0, n, a);
    if j < a { lvo(q0, j) + k } else { lvo(q0, j + m) }
}
pub proof fn lem_lke_mono(q: Seq<u8>, n: int, i: int, j: int)
    requires lokn(q, n), 0 <= i <= j <= n
    ensures lke(q, n, i) <= lke(q, n, j) <= 8192, i < j ==> lke(q, n, i) <= lvo(q, i) <= lke(q, n, j), 20 + 8 * n <= lke(q, n, i), lke(q, n, n) == 8192
{
    if i < j { assert(lko(q, i) <= lvo(q, i) <= lke(q, n, i + 1)); assert(lko(q, i) <= 8192); if j < n { assert(lko(q, i) <= lko(q, j)); assert(lvo(q, i) <= lko(q, j)); } }
    if j < n { assert(lke(q, n, 0) <= lko(q, j) <= 8192); }
    if i < n { assert(lke(q, n, 0) <= lko(q, i) <= 8192); }
    if n > 0 { assert(lko(q, 0) <= 8192); }
}
pub open spec fn del_pre(q0: Seq<u8>, q: Seq<u8>, n: int, a: int, m: int) -> bool {
    &&& lokn(q0, n) && 0 <= a && 1 <= m && a + m <= n && q.len() == 8192
}
pub proof fn lem_del_step(q0: Seq<u8>, q: Seq<u8>, n: int, a: int, m: int, j: int)
    requires del_pre(q0, q, n, a, m), 0 <= j < n - m
    ensures dko(q0, n, a, m, j) <= dvo(q0, n, a, m, j) <= dko(q0, n, a, m, j + 1), lke(q0, n, 0) <= dko(q0, n, a, m, j) <= 8192,
        j + 1 == n - m ==> dko(q0, n, a, m, j + 1) == 8192,
{
    lem_lke_mono(q0, n, 0, a); lem_lke_mono(q0, n, a, a + m); lem_lke_mono(q0, n, a + m, n);
    if j < a {
        lem_lke_mono(q0, n, j, j + 1); lem_lke_mono(q0, n, j + 1, a); lem_lke_mono(q0, n, 0, j);
    } else {
        lem_lke_mono(q0, n, j + m, j + m + 1); lem_lke_mono(q0, n, 0, j + m);
    }
}
pub proof fn lem_leaf_remove(q0: Seq<u8>, q: Seq<u8>, n: int, a: int, m: int, k: int)
    requires del_pre(q0, q, n, a, m), k == lke(q0, n, a + m) - lke(q0, n, a),
        forall|j: int| 0 <= j < n - m ==> #[trigger] lko(q, j) == dko(q0, n, a, m, j),
        forall|j: int| 0 <= j < n - m ==> #[trigger] lvo(q, j) == dvo(q0, n, a, m, j),
        forall|p: int| lke(q0, n, 0) + k <= p < lke(q0, n, a) + k ==> #[trigger] q[p] == q0[p - k],
        forall|p: int| lke(q0, n, a + m) <= p < 8192 ==> #[trigger] q[p] == q0[p],
    ensures lokn(q, n - m), lrecsn(q, n - m) == lrecsn(q0, n).subrange(0, a) + lrecsn(q0, n).subrange(a + m, n)
{
    let N = n - m;
    lem_lke_mono(q0, n, 0, a); lem_lke_mono(q0, n, a, a + m); lem_lke_mono(q0, n, a + m, n);
    assert(dko(q0, n, a, m, N) == 8192);
    assert forall|t: int| 0 <= t < N implies lko(q, t) <= #[trigger] lvo(q, t) <= lke(q, N, t + 1) by { lem_del_step(q0, q, n, a, m, t); if t + 1 < N { assert(lko(q, t + 1) == dko(q0, n, a, m, t + 1)); } assert(lko(q, t) == dko(q0, n, a, m, t)); }
    if N > 0 { lem_del_step(q0, q, n, a, m, 0); assert(lko(q, 0) == dko(q0, n, a, m, 0)); }
    lem_lokn_adj(q, N);
    let o = lrecsn(q0, n);
    let s = o.subrange(0, a) + o.subrange(a + m, n);
    assert forall|j: int| 0 <= j < N implies #[trigger] lrecsn(q, N)[j] == s[j] by {
        lem_del_step(q0, q, n, a, m, j);
        assert(lko(q, j) == dko(q0, n, a, m, j)); assert(lvo(q, j) == dvo(q0, n, a, m, j));
        assert(lke(q, N, j + 1) == dko(q0, n, a, m, j + 1)) by { if j + 1 < N { assert(lko(q, j + 1) == dko(q0, n, a, m, j + 1)); } }
        if j < a {
            lem_lke_mono(q0, n, j, j + 1); lem_lke_mono(q0, n, j + 1, a); lem_lke_mono(q0, n, 0, j);
            lem_shift_sub(q, q0, lko(q, j), lvo(q, j), -k, lko(q0, j), lvo(q0, j));
            lem_shift_sub(q, q0, lvo(q, j), lke(q, N, j + 1), -k, lvo(q0, j), lke(q0, n, j + 1));
        } else {
            lem_lke_mono(q0, n, j + m, j + m + 1); lem_lke_mono(q0, n, a + m, j + m);
            assert(lkey(q, j) =~= lkey(q0, j + m));
            assert(lval(q, N, j) =~= lval(q0, n, j + m));
        }
    }
    assert(lrecsn(q, N) =~= s);
}
// record a+j of the page as copied to block kb
pub open spec fn rmKeyAt(q0: Seq<u8>, n: int, a: int, m: int, j: int, kb: int) -> Sl {
    let ko = lke(q0, n, a);
    Sl { blk: kb, off: lko(q0, a + j) - ko, len: lvo(q0, a + j) - lko(q0, a + j), cap: lke(q0, n, a + m) - lko(q0, a + j), ep: 0 }
}
pub open spec fn rmValAt(q0: Seq<u8>, n: int, a: int, m: int, j: int, kb: int) -> Sl {
    let ko = lke(q0, n, a);
    Sl { blk: kb, off: lvo(q0, a + j) - ko, len: lke(q0, n, a + j + 1) - lvo(q0, a + j), cap: lke(q0, n, a + m) - lvo(q0, a + j), ep: 0 }
}
pub open spec fn rm_recs(q0: Seq<u8>, n: int, a: int, m: int, kb: int, s: Seq<T_record>, len: int) -> bool {
    s.len() >= len && forall|j: int| 0 <= j < len ==> (#[trigger] s[j]).Key == rmKeyAt(q0, n, a, m, j, kb) && s[j].Value == rmValAt(q0, n, a, m, j, kb)
}
// n fresh records: content in blocks lo..hi of Go memory
pub open spec fn rs_fresh(h: Heap, s: Sl, lo: int) -> bool {
    &&& z_wf_c_record(h, s) && s.ep == 0 && s.blk >= lo
    &&& forall|j: int| 0 <= j < s.len ==> {
        let r = #[trigger] rs_at(h, s, j);
        z_wf_mem(h, r.Key) && z_wf_mem(h, r.Value) && r.Key.ep == 0 && r.Value.ep == 0 && r.Key.blk >= lo && r.Value.blk >= lo
    }
}
pub proof fn lem_rm_result(h: Heap, q0: Seq<u8>, n: int, a: int, m: int, kb: int, s: Sl)
    requires lokn(q0, n), 0 <= a, 1 <= m, a + m <= n, rm_recs(q0, n, a, m, kb, h.c_record[kb + 1], m),
        s == (Sl { blk: kb + 1, off: 0, len: m, cap: m, ep: 0 }), h.nxt == kb + 2, kb > 0, h.c_record[kb + 1].len() == m, h.ep >= 1,
        h.mem[kb].len() == lke(q0, n, a + m) - lke(q0, n, a),
        forall|p: int| 0 <= p < h.mem[kb].len() ==> #[trigger] h.mem[kb][p] == q0[lke(q0, n, a) + p],
    ensures rs_fresh(h, s, kb), rs(h, s) == lrecsn(q0, n).subrange(a, a + m)
{
    let o = lrecsn(q0, n).subrange(a, a + m);
    lem_lke_mono(q0, n, a, a + m);
    assert forall|j: int| 0 <= j < m implies z_wf_mem(h, (#[trigger] rs_at(h, s, j)).Key) && z_wf_mem(h, rs_at(h, s, j).Value)
        && rs_at(h, s, j).Key.blk == kb && rs_at(h, s, j).Value.blk == kb && rs_at(h, s, j).Key.ep == 0 && rs_at(h, s, j).Value.ep == 0 && rs1(h, s, j) == o[j] by {
        assert(rs_at(h, s, j) == h.c_record[kb + 1][j]);
        lem_lke_mono(q0, n, 0, a + j); lem_lke_mono(q0, n, a + j, a + j + 1); lem_lke_mono(q0, n, a + j + 1, a + m); lem_lke_mono(q0, n, a, a + j);
        assert(z_seq_mem(h, rs_at(h, s, j).Key) =~= lkey(q0, a + j));
        assert(z_seq_mem(h, rs_at(h, s, j).Value) =~= lval(q0, n, a + j));
    }
    assert(rs(h, s) =~= o);
}
// ---- replacement of the value of record a -------------------------------------------
pub open spec fn sko(q0: Seq<u8>, n: int, a: int, d: int, j: int) -> int { if j <= a { lko(q0, j) - d } else { lke(q0, n, j) } }
pub open spec fn svo(q0: Seq<u8>, n: int, a: int, d: int, j: int) -> int { if j <= a { lvo(q0, j) - d } else { lvo(q0, j) } }
pub proof fn lem_leaf_setv(q0: Seq<u8>, q: Seq<u8>, n: int, a: int, v: Seq<u8>, d: int)
    requires lokn(q0, n), 0 <= a < n, q.len() == 8192, d == v.len() - (lke(q0, n, a + 1) - lvo(q0, a)), 20 + 8 * n + d <= lke(q0, n, 0),
        forall|j: int| 0 <= j < n ==> #[trigger] lko(q, j) == sko(q0, n, a, d, j),
        forall|j: int| 0 <= j < n ==> #[trigger] lvo(q, j) == svo(q0, n, a, d, j),
        forall|p: int| lke(q0, n, 0) - d <= p < lvo(q0, a) - d ==> #[trigger] q[p] == q0[p + d],
        q.subrange(lvo(q0, a) - d, lke(q0, n, a + 1)) == v,
        forall|p: int| lke(q0, n, a + 1) <= p < 8192 ==> #[trigger] q[p] == q0[p],
    ensures lokn(q, n), lrecsn(q, n) == lrecsn(q0, n).update(a, Rec { k: lkey(q0, a), v: v })
{
    lem_lke_mono(q0, n, 0, a); lem_lke_mono(q0, n, a, a + 1); lem_lke_mono(q0, n, a + 1, n);
    assert forall|t: int| 0 <= t < n implies lko(q, t) <= #[trigger] lvo(q, t) <= lke(q, n, t + 1) by {
        lem_lke_mono(q0, n, t, t + 1); assert(lko(q, t) == sko(q0, n, a, d, t));
        if t < a { lem_lke_mono(q0, n, t + 1, a); assert(lko(q, t + 1) == sko(q0, n, a, d, t + 1)); } else if t + 1 < n { assert(lko(q, t + 1) == sko(q0, n, a, d, t + 1)); }
    }
    assert(lko(q, 0) == sko(q0, n, a, d, 0));
    lem_lokn_adj(q, n);
    let s = lrecsn(q0, n).update(a, Rec { k: lkey(q0, a), v: v });
    assert forall|j: int| 0 <= j < n implies #[trigger] lrecsn(q, n)[j] == s[j] by {
        assert(lko(q, j) == sko(q0, n, a, d, j)); assert(lvo(q, j) == svo(q0, n, a, d, j));
        if j + 1 < n { assert(lko(q, j + 1) == sko(q0, n, a, d, j + 1)); }
        lem_lke_mono(q0, n, j, j + 1);
        if j < a {
            lem_lke_mono(q0, n, 0, j); lem_lke_mono(q0, n, j + 1, a);
            lem_shift_sub(q, q0, lko(q, j), lvo(q, j), d, lko(q0, j), lvo(q0, j));
            lem_shift_sub(q, q0, lvo(q, j), lke(q, n, j + 1), d, lvo(q0, j), lke(q0, n, j + 1));
        } else if j == a {
            lem_shift_sub(q, q0, lko(q, j), lvo(q, j), d, lko(q0, j), lvo(q0, j));
            assert(lval(q, n, j) =~= v);
        } else {
            lem_lke_mono(q0, n, a + 1, j);
            assert(lkey(q, j) =~= lkey(q0, j)); assert(lval(q, n, j) =~= lval(q0, n, j));
        }
    }
    assert(lrecsn(q, n) =~= s);
}
// ---- order of the keys --------------------------------------------------------------
pub open spec fn lraw(m: Mem, q: Seq<u8>, j: int) -> Seq<u8> { rawK(m, lrecs(q)[j].k) }
pub open spec fn keysFmt(h: Heap, q: Seq<u8>) -> bool { forall|j: int| 0 <= j < ln(q) ==> keyOK(h, (#[trigger] lrecs(q)[j]).k) }
pub open spec fn keysAsc(m: Mem, q: Seq<u8>) -> bool {
    forall|i: int, j: int| 0 <= i < j < ln(q) ==> lexcmp(#[trigger] lraw(m, q, i), #[trigger] lraw(m, q, j)) < 0
}
pub open spec fn isMin(s: Sl) -> bool { s.blk == z_g_MinKey().blk && z_dataoff(s) == 0 }
pub open spec fn isMax(s: Sl) -> bool { s.blk == z_g_MaxKey().blk && z_dataoff(s) == 0 }
// the bytes records i..j take, headers included
pub open spec fn lsz(x: Seq<Rec>, i: int, j: int) -> int { 8 * (j - i) + rsz(x, j) - rsz(x, i) }
pub open spec fn recsMax(x: Seq<Rec>) -> bool { forall|j: int| 0 <= j < x.len() ==> 8 + rsz1(#[trigger] x[j]) <= K_maxRecordSize() }
pub proof fn lem_rsz_step(x: Seq<Rec>, j: int)
    requires j >= 0
    ensures rsz(x, j + 1) == rsz(x, j) + rsz1(x[j]), rsz(x, j) >= 0
{ lem_rsz_mono(x, 0, j); }
