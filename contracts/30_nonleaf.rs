// ---- nonleaf pages -----------------------------------------------------------------
pub struct Chd { pub k: Seq<u8>, pub a: int }

pub open spec fn cko(q: Seq<u8>, i: int) -> int { be32(q, 4 + 12 * i) }
pub open spec fn cad(q: Seq<u8>, i: int) -> int { z_i64(be64(q, 8 + 12 * i)) }
pub open spec fn cke(q: Seq<u8>, n: int, i: int) -> int { if i >= n { 8192 } else { cko(q, i) } }
pub open spec fn cn(q: Seq<u8>) -> int { be32(q, 0) }
pub open spec fn cokn(q: Seq<u8>, n: int) -> bool {
    &&& q.len() == 8192 && 0 <= n && 4 + 12 * n <= cke(q, n, 0)
    &&& forall|i: int| 0 <= i < n ==> cke(q, n, 0) <= #[trigger] cko(q, i) <= 8192
    &&& forall|i: int, j: int| #![trigger cko(q, i), cko(q, j)] 0 <= i <= j < n ==> cko(q, i) <= cko(q, j)
}
pub open spec fn ckey(q: Seq<u8>, n: int, i: int) -> Seq<u8> { q.subrange(cko(q, i), cke(q, n, i + 1)) }
pub open spec fn cchd(q: Seq<u8>, n: int, i: int) -> Chd { Chd { k: ckey(q, n, i), a: cad(q, i) } }
pub open spec fn cchsn(q: Seq<u8>, n: int) -> Seq<Chd> { Seq::new(n as nat, |i: int| cchd(q, n, i)) }
pub open spec fn cok(q: Seq<u8>) -> bool { cokn(q, cn(q)) }
pub open spec fn cchs(q: Seq<u8>) -> Seq<Chd> { cchsn(q, cn(q)) }
pub open spec fn cload(q: Seq<u8>) -> int { 12 * cn(q) + 8192 - cke(q, cn(q), 0) }
pub open spec fn nlP(h: Heap, nlc: Sl) -> bool { pageOK(h, nlc) && cok(h.mem[nlc.blk]) }

pub open spec fn cs_at(h: Heap, s: Sl, j: int) -> T_nonLeafChild { h.c_nonLeafChild[s.blk][s.off + j] }
pub open spec fn cs1(h: Heap, s: Sl, j: int) -> Chd { Chd { k: z_seq_mem(h, cs_at(h, s, j).Key), a: cs_at(h, s, j).Addr } }
pub open spec fn cs(h: Heap, s: Sl) -> Seq<Chd> { Seq::new(s.len as nat, |j: int| cs1(h, s, j)) }
pub open spec fn cs_ok(h: Heap, s: Sl, b: int) -> bool {
    &&& z_wf_c_nonLeafChild(h, s) && z_valid(h, s)
    &&& forall|j: int| 0 <= j < s.len ==> {
        let r = #[trigger] cs_at(h, s, j);
        z_wf_mem(h, r.Key) && z_valid(h, r.Key) && r.Key.blk != b && z_i64ok(r.Addr)
    }
}
pub open spec fn csz(x: Seq<Chd>, j: int) -> int decreases j {
    if j <= 0 { 0 } else { csz(x, j - 1) + x[j - 1].k.len() as int }
}
pub proof fn lem_csz_mono(x: Seq<Chd>, i: int, j: int)
    requires 0 <= i <= j
    ensures 0 <= csz(x, i) <= csz(x, j)
    decreases j
{
    if j > i { lem_csz_mono(x, i, j - 1); } else if i > 0 { lem_csz_mono(x, i - 1, i - 1); assert(csz(x, i) == csz(x, i - 1) + x[i - 1].k.len()); }
}
pub proof fn lem_csz_step(x: Seq<Chd>, j: int)
    requires j >= 0
    ensures csz(x, j + 1) == csz(x, j) + x[j].k.len(), csz(x, j) >= 0
{ lem_csz_mono(x, 0, j); }
pub proof fn lem_cke_mono(q: Seq<u8>, n: int, i: int, j: int)
    requires cokn(q, n), 0 <= i <= j <= n
    ensures cke(q, n, i) <= cke(q, n, j) <= 8192, 4 + 12 * n <= cke(q, n, i), cke(q, n, n) == 8192
{
    if i < j { assert(cko(q, i) <= 8192); if j < n { assert(cko(q, i) <= cko(q, j)); } }
    if j < n { assert(cke(q, n, 0) <= cko(q, j) <= 8192); }
    if i < n { assert(cke(q, n, 0) <= cko(q, i) <= 8192); }
    if n > 0 { assert(cko(q, 0) <= 8192); }
}
pub proof fn lem_csz_page(q: Seq<u8>, n: int, j: int)
    requires cokn(q, n), 0 <= j <= n
    ensures csz(cchsn(q, n), j) == cke(q, n, j) - cke(q, n, 0)
    decreases j
{
    if j > 0 {
        lem_csz_page(q, n, j - 1); lem_cke_mono(q, n, j - 1, j);
        assert(cchsn(q, n)[j - 1] == cchd(q, n, j - 1));
    }
}
pub proof fn lem_be64_bytes(q: Seq<u8>, r: Seq<u8>, p: int, o: int)
    requires forall|i: int| 0 <= i < 8 ==> #[trigger] q[p + i] == r[o + i]
    ensures be64(q, p) == be64(r, o)
{ reveal(be64); assert(q[p] == q[p + 0] && r[o] == r[o + 0]); assert(q[p + 4 + 1] == q[p + 5] && q[p + 4 + 2] == q[p + 6] && q[p + 4 + 3] == q[p + 7]); assert(r[o + 4 + 1] == r[o + 5] && r[o + 4 + 2] == r[o + 6] && r[o + 4 + 3] == r[o + 7]); lem_be32_bytes(q, r, p, o); lem_be32_bytes(q, r, p + 4, o + 4); }
pub open spec fn chdAt(q: Seq<u8>, x: Seq<Chd>, base: int, a: int, j: int) -> bool {
    let o = base + csz(x, j);
    &&& cko(q, a + j) == o && cad(q, a + j) == x[j].a
    &&& q.subrange(o, o + x[j].k.len()) == x[j].k
}
pub proof fn lem_chdAt_frame(q: Seq<u8>, r: Seq<u8>, x: Seq<Chd>, base: int, a: int, j: int)
    requires chdAt(q, x, base, a, j), 0 <= j < x.len(), 0 <= a, q.len() == 8192, r.len() == 8192,
        4 + 12 * (a + j) + 12 <= 8192, 0 <= base + csz(x, j), base + csz(x, j + 1) <= 8192,
        forall|p: int| 4 + 12 * (a + j) <= p < 4 + 12 * (a + j) + 12 ==> #[trigger] q[p] == r[p],
        forall|p: int| base + csz(x, j) <= p < base + csz(x, j + 1) ==> #[trigger] q[p] == r[p],
    ensures chdAt(r, x, base, a, j)
{
    let o = base + csz(x, j);
    assert(csz(x, j + 1) == csz(x, j) + x[j].k.len());
    lem_be32_bytes(r, q, 4 + 12 * (a + j), 4 + 12 * (a + j));
    lem_be64_bytes(r, q, 8 + 12 * (a + j), 8 + 12 * (a + j));
    assert(r.subrange(o, o + x[j].k.len()) =~= q.subrange(o, o + x[j].k.len()));
}
pub proof fn lem_cadj_mono(q: Seq<u8>, n: int, i: int, j: int)
    requires 0 <= i <= j <= n, forall|t: int| 0 <= t < n ==> #[trigger] cko(q, t) <= cke(q, n, t + 1),
    ensures cke(q, n, i) <= cke(q, n, j)
    decreases j - i
{
    if i < j { assert(cko(q, i) <= cke(q, n, i + 1)); lem_cadj_mono(q, n, i + 1, j); }
}
pub proof fn lem_cokn_adj(q: Seq<u8>, n: int)
    requires q.len() == 8192, 0 <= n, 4 + 12 * n <= cke(q, n, 0),
        forall|t: int| 0 <= t < n ==> #[trigger] cko(q, t) <= cke(q, n, t + 1),
    ensures cokn(q, n)
{
    assert forall|i: int| 0 <= i < n implies cke(q, n, 0) <= #[trigger] cko(q, i) <= 8192 by { lem_cadj_mono(q, n, 0, i); lem_cadj_mono(q, n, i, n); }
    assert forall|i: int, j: int| #![trigger cko(q, i), cko(q, j)] 0 <= i <= j < n implies cko(q, i) <= cko(q, j) by { lem_cadj_mono(q, n, i, j); }
}
pub open spec fn cins_pre(q0: Seq<u8>, q: Seq<u8>, n: int, a: int, x: Seq<Chd>) -> bool {
    let m = x.len() as int;
    cokn(q0, n) && 0 <= a <= n && q.len() == 8192 && 4 + 12 * (n + m) + csz(x, m) <= cke(q0, n, 0)
}
pub open spec fn cnko(q0: Seq<u8>, n: int, a: int, x: Seq<Chd>, j: int) -> int {
    let m = x.len() as int; let k = csz(x, m);
    if j < a { cko(q0, j) - k } else if j < a + m { cke(q0, n, a) - k + csz(x, j - a) } else { cke(q0, n, j - m) }
}
pub open spec fn cnad(q0: Seq<u8>, n: int, a: int, x: Seq<Chd>, j: int) -> int {
    let m = x.len() as int;
    if j < a { cad(q0, j) } else if j < a + m { x[j - a].a } else { cad(q0, j - m) }
}
pub proof fn lem_cins_step(q0: Seq<u8>, q: Seq<u8>, n: int, a: int, x: Seq<Chd>, j: int)
    requires cins_pre(q0, q, n, a, x), 0 <= j < n + x.len()
    ensures cnko(q0, n, a, x, j) <= cnko(q0, n, a, x, j + 1),
        cnko(q0, n, a, x, j) >= cke(q0, n, 0) - csz(x, x.len() as int), cnko(q0, n, a, x, j) <= 8192
{
    let m = x.len() as int;
    lem_csz_mono(x, 0, m); lem_cke_mono(q0, n, 0, a); lem_cke_mono(q0, n, a, n);
    if j < a {
        lem_cke_mono(q0, n, j, j + 1); lem_cke_mono(q0, n, 0, j);
    } else if j < a + m {
        lem_csz_step(x, j - a); lem_csz_mono(x, j - a + 1, m); lem_csz_mono(x, 0, j - a);
    } else {
        lem_cke_mono(q0, n, j - m, j - m + 1); lem_cke_mono(q0, n, 0, j - m);
    }
}
pub proof fn lem_cins_rec(q0: Seq<u8>, q: Seq<u8>, n: int, a: int, x: Seq<Chd>, j: int)
    requires cins_pre(q0, q, n, a, x), 0 <= j < n + x.len(),
        cko(q, j) == cnko(q0, n, a, x, j), cad(q, j) == cnad(q0, n, a, x, j), cke(q, n + x.len(), j + 1) == cnko(q0, n, a, x, j + 1),
        a <= j < a + x.len() ==> chdAt(q, x, cke(q0, n, a) - csz(x, x.len() as int), a, j - a),
        forall|p: int| cke(q0, n, 0) - csz(x, x.len() as int) <= p < cke(q0, n, a) - csz(x, x.len() as int) ==> #[trigger] q[p] == q0[p + csz(x, x.len() as int)],
        forall|p: int| cke(q0, n, a) <= p < 8192 ==> #[trigger] q[p] == q0[p],
    ensures cchd(q, n + x.len(), j) == (if j < a { cchd(q0, n, j) } else if j < a + x.len() { x[j - a] } else { cchd(q0, n, j - x.len()) })
{
    let m = x.len() as int; let k = csz(x, m); let N = n + m;
    lem_cins_step(q0, q, n, a, x, j); lem_csz_mono(x, 0, m);
    if j < a {
        lem_cke_mono(q0, n, j, j + 1); lem_cke_mono(q0, n, j + 1, a); lem_cke_mono(q0, n, 0, j); lem_cke_mono(q0, n, a, n);
        assert(cnko(q0, n, a, x, j + 1) == cke(q0, n, j + 1) - k);
        lem_shift_sub(q, q0, cko(q, j), cke(q, N, j + 1), k, cko(q0, j), cke(q0, n, j + 1));
    } else if j < a + m {
        lem_csz_step(x, j - a);
        assert(cchd(q, N, j).k == x[j - a].k);
    } else {
        lem_cke_mono(q0, n, j - m, j - m + 1); lem_cke_mono(q0, n, a, j - m); lem_cke_mono(q0, n, j - m + 1, n);
        assert(ckey(q, N, j) =~= ckey(q0, n, j - m));
    }
}
pub proof fn lem_cins_ok(q0: Seq<u8>, q: Seq<u8>, n: int, a: int, x: Seq<Chd>)
    requires cins_pre(q0, q, n, a, x), forall|j: int| 0 <= j < n + x.len() ==> #[trigger] cko(q, j) == cnko(q0, n, a, x, j),
    ensures cokn(q, n + x.len()), cnko(q0, n, a, x, n + x.len()) == 8192
{
    let m = x.len() as int; let N = n + m;
    lem_csz_mono(x, 0, m); lem_cke_mono(q0, n, 0, a); lem_cke_mono(q0, n, a, n);
    assert(cnko(q0, n, a, x, N) == 8192);
    assert forall|t: int| 0 <= t < N implies #[trigger] cko(q, t) <= cke(q, N, t + 1) by { lem_cins_step(q0, q, n, a, x, t); if t + 1 < N { assert(cko(q, t + 1) == cnko(q0, n, a, x, t + 1)); } }
    if N > 0 { lem_cins_step(q0, q, n, a, x, 0); assert(cko(q, 0) == cnko(q0, n, a, x, 0)); }
    lem_cokn_adj(q, N);
}
pub proof fn lem_nl_insert(q0: Seq<u8>, q: Seq<u8>, n: int, a: int, x: Seq<Chd>, m: int)
    requires cins_pre(q0, q, n, a, x), m == x.len(),
        forall|j: int| 0 <= j < n + m ==> #[trigger] cko(q, j) == cnko(q0, n, a, x, j),
        forall|j: int| 0 <= j < n + m ==> #[trigger] cad(q, j) == cnad(q0, n, a, x, j),
        forall|j: int| 0 <= j < m ==> #[trigger] chdAt(q, x, cke(q0, n, a) - csz(x, m), a, j),
        forall|p: int| cke(q0, n, 0) - csz(x, m) <= p < cke(q0, n, a) - csz(x, m) ==> #[trigger] q[p] == q0[p + csz(x, m)],
        forall|p: int| cke(q0, n, a) <= p < 8192 ==> #[trigger] q[p] == q0[p],
    ensures cokn(q, n + m), cchsn(q, n + m) == cchsn(q0, n).subrange(0, a) + x + cchsn(q0, n).subrange(a, n)
{
    let N = n + m;
    lem_cins_ok(q0, q, n, a, x);
    let o = cchsn(q0, n);
    let s = o.subrange(0, a) + x + o.subrange(a, n);
    assert forall|j: int| 0 <= j < N implies #[trigger] cchsn(q, N)[j] == s[j] by {
        assert(cko(q, j) == cnko(q0, n, a, x, j)); assert(cad(q, j) == cnad(q0, n, a, x, j));
        assert(cke(q, N, j + 1) == cnko(q0, n, a, x, j + 1)) by { if j + 1 < N { assert(cko(q, j + 1) == cnko(q0, n, a, x, j + 1)); } }
        if a <= j < a + m { assert(chdAt(q, x, cke(q0, n, a) - csz(x, m), a, j - a)); }
        lem_cins_rec(q0, q, n, a, x, j);
    }
    assert(cchsn(q, N) =~= s);
}
pub proof fn lem_cpage_from(q: Seq<u8>, r: Seq<u8>, n: int)
    requires sameFrom(q, r, 4), cokn(q, n),
    ensures cokn(r, n), cchsn(r, n) == cchsn(q, n), cke(r, n, 0) == cke(q, n, 0)
{
    assert forall|i: int| 0 <= i < n implies #[trigger] cko(r, i) == cko(q, i) by { lem_be32_bytes(r, q, 4 + 12 * i, 4 + 12 * i); }
    assert forall|i: int| 0 <= i < n implies #[trigger] cad(r, i) == cad(q, i) by { lem_be64_bytes(r, q, 8 + 12 * i, 8 + 12 * i); }
    assert forall|t: int| 0 <= t < n implies #[trigger] cko(r, t) <= cke(r, n, t + 1) by { lem_cke_mono(q, n, t, t + 1); if t + 1 < n { assert(cko(r, t + 1) == cko(q, t + 1)); } }
    if n > 0 { assert(cko(r, 0) == cko(q, 0)); }
    lem_cokn_adj(r, n);
    assert forall|i: int| 0 <= i < n implies #[trigger] cchsn(r, n)[i] == cchsn(q, n)[i] by {
        assert(cko(r, i) == cko(q, i)); assert(cad(r, i) == cad(q, i)); if i + 1 < n { assert(cko(r, i + 1) == cko(q, i + 1)); }
        lem_cke_mono(q, n, 0, i); lem_cke_mono(q, n, i, i + 1);
        assert(ckey(r, n, i) =~= ckey(q, n, i));
    }
    assert(cchsn(r, n) =~= cchsn(q, n));
}
pub proof fn lem_cload(q: Seq<u8>, n: int)
    requires cokn(q, n)
    ensures 8192 - cke(q, n, 0) == csz(cchsn(q, n), n)
{ lem_csz_page(q, n, n); }
pub proof fn lem_cn_bound(q: Seq<u8>, n: int)
    requires cokn(q, n)
    ensures n <= 682, cke(q, n, 0) <= 8192
{ if n > 0 { assert(cko(q, 0) <= 8192); } }
// ---- removal -------------------------------------------------------------------------
pub open spec fn cdko(q0: Seq<u8>, n: int, a: int, m: int, j: int) -> int {
    let k = cke(q0, n, a + m) - cke(q0, n, a);
    if j < a { cko(q0, j) + k } else { cke(q0, n, j + m) }
}
pub open spec fn cdad(q0: Seq<u8>, a: int, m: int, j: int) -> int { if j < a { cad(q0, j) } else { cad(q0, j + m) } }
pub open spec fn cdel_pre(q0: Seq<u8>, q: Seq<u8>, n: int, a: int, m: int) -> bool { cokn(q0, n) && 0 <= a && 1 <= m && a + m <= n && q.len() == 8192 }
pub proof fn lem_cdel_step(q0: Seq<u8>, q: Seq<u8>, n: int, a: int, m: int, j: int)
    requires cdel_pre(q0, q, n, a, m), 0 <= j < n - m
    ensures cdko(q0, n, a, m, j) <= cdko(q0, n, a, m, j + 1), cke(q0, n, 0) <= cdko(q0, n, a, m, j) <= 8192,
        j + 1 == n - m ==> cdko(q0, n, a, m, j + 1) == 8192,
{
    lem_cke_mono(q0, n, 0, a); lem_cke_mono(q0, n, a, a + m); lem_cke_mono(q0, n, a + m, n);
    if j < a {
        lem_cke_mono(q0, n, j, j + 1); lem_cke_mono(q0, n, j + 1, a); lem_cke_mono(q0, n, 0, j);
    } else {
        lem_cke_mono(q0, n, j + m, j + m + 1); lem_cke_mono(q0, n, 0, j + m);
    }
}
pub proof fn lem_cdel_rec(q0: Seq<u8>, q: Seq<u8>, n: int, a: int, m: int, k: int, j: int)
    requires cdel_pre(q0, q, n, a, m), 0 <= j < n - m, k == cke(q0, n, a + m) - cke(q0, n, a),
        cko(q, j) == cdko(q0, n, a, m, j), cad(q, j) == cdad(q0, a, m, j), cke(q, n - m, j + 1) == cdko(q0, n, a, m, j + 1),
        forall|p: int| cke(q0, n, 0) + k <= p < cke(q0, n, a) + k ==> #[trigger] q[p] == q0[p - k],
        forall|p: int| cke(q0, n, a + m) <= p < 8192 ==> #[trigger] q[p] == q0[p],
    ensures cchd(q, n - m, j) == (if j < a { cchd(q0, n, j) } else { cchd(q0, n, j + m) })
{
    let N = n - m;
    lem_cke_mono(q0, n, 0, a); lem_cke_mono(q0, n, a, a + m); lem_cke_mono(q0, n, a + m, n);
    lem_cdel_step(q0, q, n, a, m, j);
    if j < a {
        lem_cke_mono(q0, n, j, j + 1); lem_cke_mono(q0, n, j + 1, a); lem_cke_mono(q0, n, 0, j);
        assert(cdko(q0, n, a, m, j + 1) == cke(q0, n, j + 1) + k);
        lem_shift_sub(q, q0, cko(q, j), cke(q, N, j + 1), -k, cko(q0, j), cke(q0, n, j + 1));
    } else {
        lem_cke_mono(q0, n, j + m, j + m + 1); lem_cke_mono(q0, n, a + m, j + m); lem_cke_mono(q0, n, j + m + 1, n);
        assert(ckey(q, N, j) =~= ckey(q0, n, j + m));
    }
}
pub proof fn lem_cdel_ok(q0: Seq<u8>, q: Seq<u8>, n: int, a: int, m: int)
    requires cdel_pre(q0, q, n, a, m), forall|j: int| 0 <= j < n - m ==> #[trigger] cko(q, j) == cdko(q0, n, a, m, j),
    ensures cokn(q, n - m), cdko(q0, n, a, m, n - m) == 8192
{
    let N = n - m;
    lem_cke_mono(q0, n, 0, a); lem_cke_mono(q0, n, a, a + m); lem_cke_mono(q0, n, a + m, n);
    assert(cdko(q0, n, a, m, N) == 8192);
    assert forall|t: int| 0 <= t < N implies #[trigger] cko(q, t) <= cke(q, N, t + 1) by {
        lem_cdel_step(q0, q, n, a, m, t);
        if t + 1 < N { assert(cko(q, t + 1) == cdko(q0, n, a, m, t + 1)); }
    }
    if N > 0 { lem_cdel_step(q0, q, n, a, m, 0); assert(cko(q, 0) == cdko(q0, n, a, m, 0)); }
    lem_cokn_adj(q, N);
}
pub proof fn lem_nl_remove(q0: Seq<u8>, q: Seq<u8>, n: int, a: int, m: int, k: int)
    requires cokn(q0, n), 0 <= a, 1 <= m, a + m <= n, q.len() == 8192, k == cke(q0, n, a + m) - cke(q0, n, a),
        forall|j: int| 0 <= j < n - m ==> #[trigger] cko(q, j) == cdko(q0, n, a, m, j),
        forall|j: int| 0 <= j < n - m ==> #[trigger] cad(q, j) == cdad(q0, a, m, j),
        forall|p: int| cke(q0, n, 0) + k <= p < cke(q0, n, a) + k ==> #[trigger] q[p] == q0[p - k],
        forall|p: int| cke(q0, n, a + m) <= p < 8192 ==> #[trigger] q[p] == q0[p],
    ensures cokn(q, n - m), cchsn(q, n - m) == cchsn(q0, n).subrange(0, a) + cchsn(q0, n).subrange(a + m, n)
{
    let N = n - m;
    lem_cdel_ok(q0, q, n, a, m);
    let o = cchsn(q0, n);
    let s = o.subrange(0, a) + o.subrange(a + m, n);
    assert forall|j: int| 0 <= j < N implies #[trigger] cchsn(q, N)[j] == s[j] by {
        assert(cko(q, j) == cdko(q0, n, a, m, j)); assert(cad(q, j) == cdad(q0, a, m, j));
        assert(cke(q, N, j + 1) == cdko(q0, n, a, m, j + 1)) by { if j + 1 < N { assert(cko(q, j + 1) == cdko(q0, n, a, m, j + 1)); } }
        lem_cdel_rec(q0, q, n, a, m, k, j);
    }
    assert(cchsn(q, N) =~= s);
}
pub open spec fn crmKeyAt(q0: Seq<u8>, n: int, a: int, m: int, j: int, kb: int) -> Sl {
    let ko = cke(q0, n, a);
    Sl { blk: kb, off: cko(q0, a + j) - ko, len: cke(q0, n, a + j + 1) - cko(q0, a + j), cap: cke(q0, n, a + m) - cko(q0, a + j), ep: 0 }
}
pub open spec fn crm_chs(q0: Seq<u8>, n: int, a: int, m: int, kb: int, s: Seq<T_nonLeafChild>, len: int) -> bool {
    s.len() >= len && forall|j: int| 0 <= j < len ==> (#[trigger] s[j]).Key == crmKeyAt(q0, n, a, m, j, kb) && s[j].Addr == cad(q0, a + j)
}
pub open spec fn cs_fresh(h: Heap, s: Sl, lo: int) -> bool {
    &&& z_wf_c_nonLeafChild(h, s) && s.ep == 0 && s.blk >= lo
    &&& forall|j: int| 0 <= j < s.len ==> {
        let r = #[trigger] cs_at(h, s, j);
        z_wf_mem(h, r.Key) && r.Key.ep == 0 && r.Key.blk >= lo && z_i64ok(r.Addr)
    }
}
pub proof fn lem_crm_result(h: Heap, q0: Seq<u8>, n: int, a: int, m: int, kb: int, s: Sl)
    requires cokn(q0, n), 0 <= a, 1 <= m, a + m <= n, crm_chs(q0, n, a, m, kb, h.c_nonLeafChild[kb + 1], m),
        s == (Sl { blk: kb + 1, off: 0, len: m, cap: m, ep: 0 }), h.nxt == kb + 2, kb > 0, h.c_nonLeafChild[kb + 1].len() == m, h.ep >= 1,
        h.mem[kb].len() == cke(q0, n, a + m) - cke(q0, n, a),
        forall|p: int| 0 <= p < h.mem[kb].len() ==> #[trigger] h.mem[kb][p] == q0[cke(q0, n, a) + p],
    ensures cs_fresh(h, s, kb), cs(h, s) == cchsn(q0, n).subrange(a, a + m)
{
    let o = cchsn(q0, n).subrange(a, a + m);
    lem_cke_mono(q0, n, a, a + m);
    assert forall|j: int| 0 <= j < m implies z_wf_mem(h, (#[trigger] cs_at(h, s, j)).Key)
        && cs_at(h, s, j).Key.blk == kb && cs_at(h, s, j).Key.ep == 0 && z_i64ok(cs_at(h, s, j).Addr) && cs1(h, s, j) == o[j] by {
        assert(cs_at(h, s, j) == h.c_nonLeafChild[kb + 1][j]);
        b_be64_range(q0, 8 + 12 * (a + j));
        lem_cke_mono(q0, n, 0, a + j); lem_cke_mono(q0, n, a + j, a + j + 1); lem_cke_mono(q0, n, a + j + 1, a + m); lem_cke_mono(q0, n, a, a + j);
        assert(z_seq_mem(h, cs_at(h, s, j).Key) =~= ckey(q0, n, a + j));
    }
    assert(cs(h, s) =~= o);
}
// ---- replacement of the key of child a ----------------------------------------------
pub open spec fn csko(q0: Seq<u8>, n: int, a: int, d: int, j: int) -> int { if j <= a { cko(q0, j) - d } else { cke(q0, n, j) } }
pub open spec fn cset_pre(q0: Seq<u8>, q: Seq<u8>, n: int, a: int, v: Seq<u8>, d: int) -> bool {
    cokn(q0, n) && 0 <= a < n && q.len() == 8192 && d == v.len() - (cke(q0, n, a + 1) - cko(q0, a)) && 4 + 12 * n + d <= cke(q0, n, 0)
}
pub proof fn lem_cset_ok(q0: Seq<u8>, q: Seq<u8>, n: int, a: int, v: Seq<u8>, d: int)
    requires cset_pre(q0, q, n, a, v, d), forall|j: int| 0 <= j < n ==> #[trigger] cko(q, j) == csko(q0, n, a, d, j),
    ensures cokn(q, n), csko(q0, n, a, d, n) == 8192
{
    lem_cke_mono(q0, n, 0, a); lem_cke_mono(q0, n, a, a + 1); lem_cke_mono(q0, n, a + 1, n);
    assert forall|t: int| 0 <= t < n implies #[trigger] cko(q, t) <= cke(q, n, t + 1) by {
        lem_cke_mono(q0, n, t, t + 1); assert(cko(q, t) == csko(q0, n, a, d, t));
        if t < a { lem_cke_mono(q0, n, t + 1, a); assert(cko(q, t + 1) == csko(q0, n, a, d, t + 1)); } else if t + 1 < n { assert(cko(q, t + 1) == csko(q0, n, a, d, t + 1)); }
    }
    assert(cko(q, 0) == csko(q0, n, a, d, 0));
    lem_cokn_adj(q, n);
}
pub proof fn lem_cset_rec(q0: Seq<u8>, q: Seq<u8>, n: int, a: int, v: Seq<u8>, d: int, j: int)
    requires cset_pre(q0, q, n, a, v, d), 0 <= j < n,
        cko(q, j) == csko(q0, n, a, d, j), cad(q, j) == cad(q0, j), cke(q, n, j + 1) == csko(q0, n, a, d, j + 1),
        forall|p: int| cke(q0, n, 0) - d <= p < cko(q0, a) - d ==> #[trigger] q[p] == q0[p + d],
        q.subrange(cko(q0, a) - d, cke(q0, n, a + 1)) == v,
        forall|p: int| cke(q0, n, a + 1) <= p < 8192 ==> #[trigger] q[p] == q0[p],
    ensures cchd(q, n, j) == (if j == a { Chd { k: v, a: cad(q0, a) } } else { cchd(q0, n, j) })
{
    lem_cke_mono(q0, n, 0, a); lem_cke_mono(q0, n, a, a + 1); lem_cke_mono(q0, n, a + 1, n); lem_cke_mono(q0, n, j, j + 1);
    if j < a {
        lem_cke_mono(q0, n, 0, j); lem_cke_mono(q0, n, j + 1, a);
        lem_shift_sub(q, q0, cko(q, j), cke(q, n, j + 1), d, cko(q0, j), cke(q0, n, j + 1));
    } else if j == a {
        assert(ckey(q, n, j) =~= v);
    } else {
        lem_cke_mono(q0, n, a + 1, j); lem_cke_mono(q0, n, j + 1, n);
        assert(ckey(q, n, j) =~= ckey(q0, n, j));
    }
}
pub proof fn lem_nl_setk(q0: Seq<u8>, q: Seq<u8>, n: int, a: int, v: Seq<u8>, d: int)
    requires cokn(q0, n), 0 <= a < n, q.len() == 8192, d == v.len() - (cke(q0, n, a + 1) - cko(q0, a)), 4 + 12 * n + d <= cke(q0, n, 0),
        forall|j: int| 0 <= j < n ==> #[trigger] cko(q, j) == csko(q0, n, a, d, j),
        forall|j: int| 0 <= j < n ==> #[trigger] cad(q, j) == cad(q0, j),
        forall|p: int| cke(q0, n, 0) - d <= p < cko(q0, a) - d ==> #[trigger] q[p] == q0[p + d],
        q.subrange(cko(q0, a) - d, cke(q0, n, a + 1)) == v,
        forall|p: int| cke(q0, n, a + 1) <= p < 8192 ==> #[trigger] q[p] == q0[p],
    ensures cokn(q, n), cchsn(q, n) == cchsn(q0, n).update(a, Chd { k: v, a: cad(q0, a) })
{
    lem_cset_ok(q0, q, n, a, v, d);
    let s = cchsn(q0, n).update(a, Chd { k: v, a: cad(q0, a) });
    assert forall|j: int| 0 <= j < n implies #[trigger] cchsn(q, n)[j] == s[j] by {
        assert(cko(q, j) == csko(q0, n, a, d, j)); assert(cad(q, j) == cad(q0, j));
        assert(cke(q, n, j + 1) == csko(q0, n, a, d, j + 1)) by { if j + 1 < n { assert(cko(q, j + 1) == csko(q0, n, a, d, j + 1)); } }
        lem_cset_rec(q0, q, n, a, v, d, j);
    }
    assert(cchsn(q, n) =~= s);
}
pub open spec fn craw(m: Mem, q: Seq<u8>, j: int) -> Seq<u8> { rawK(m, cchs(q)[j].k) }
// the key of child 0 is a dummy
pub open spec fn ckeysFmt(h: Heap, q: Seq<u8>) -> bool { forall|j: int| 1 <= j < cn(q) ==> keyOK(h, (#[trigger] cchs(q)[j]).k) }
pub open spec fn ckeysAsc(m: Mem, q: Seq<u8>) -> bool {
    forall|i: int, j: int| 1 <= i < j < cn(q) ==> lexcmp(#[trigger] craw(m, q, i), #[trigger] craw(m, q, j)) < 0
}
pub open spec fn clsz(x: Seq<Chd>, i: int, j: int) -> int { 12 * (j - i) + csz(x, j) - csz(x, i) }
pub open spec fn chsMax(x: Seq<Chd>) -> bool { forall|j: int| 0 <= j < x.len() ==> 12 + (#[trigger] x[j]).k.len() <= K_maxNonLeafChildSize() }
