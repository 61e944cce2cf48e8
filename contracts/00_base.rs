// ---- the memory model -------------------------------------------------------
//
// A byte slice is a window of a block. Blocks > 0 are Go memory, block 0 is
// the block of nil slices, block -1-a is the file space at address a. Windows
// of file space carry the mapping epoch in which they were obtained.
pub struct Sl { pub blk: int, pub off: int, pub len: int, pub cap: int, pub ep: int }
pub struct Ptr { pub blk: int, pub idx: int }
pub struct Frac { pub n: int, pub d: int }

#[verifier::external_body]
pub proof fn havoc<T>() -> T { unimplemented!() }

// the address of the first byte of a slice; Go leaves it open for empty capacity
pub uninterp spec fn z_data0(s: Sl) -> int;
pub uninterp spec fn z_data00(a: Sl, b: Sl) -> bool;
pub open spec fn z_dataoff(s: Sl) -> int { if s.cap > 0 { s.off } else { z_data0(s) } }
pub open spec fn z_same_data(a: Sl, b: Sl) -> bool { if a.cap > 0 || b.cap > 0 { a.blk == b.blk && z_dataoff(a) == z_dataoff(b) } else { z_data00(a, b) } }
pub open spec fn z_nil() -> Sl { Sl { blk: 0, off: 0, len: 0, cap: 0, ep: 0 } }
pub open spec fn z_valid(h: Heap, s: Sl) -> bool { s.ep == 0 || s.ep == h.ep }
pub open spec fn z_g_MinKey() -> Sl { Sl { blk: 1, off: 0, len: 7, cap: 7, ep: 0 } }
pub open spec fn z_g_MaxKey() -> Sl { Sl { blk: 2, off: 0, len: 7, cap: 7, ep: 0 } }
pub open spec fn z_g_bptree_errCorrupted() -> int { 1 }
pub open spec fn z_g_bptree_errOutOfRange() -> int { 2 }
pub open spec fn z_g_bptree_errEndOfIteration() -> int { 3 }
pub open spec fn z_g_hashmap_errCorrupted() -> int { 4 }

// what every heap of a running program satisfies
pub open spec fn z_heap_ok(h: Heap) -> bool {
    &&& h.nxt > 10 && h.ep >= 1
    &&& h.mem.dom() == ISet::<int>::full()
    &&& h.mem[0].len() == 0
    &&& h.mem[1].len() == 7 && h.mem[2].len() == 7
    &&& h.sp.disjoint(h.al)
    &&& forall|a: int| #[trigger] h.sp.contains(a) ==> a > 0
    &&& forall|a: int| #[trigger] h.al.contains(a) ==> a > 0
}

pub open spec fn z_min(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn z_max(a: int, b: int) -> int { if a < b { b } else { a } }
pub open spec fn z_i64ok(x: int) -> bool { -0x8000_0000_0000_0000 <= x < 0x8000_0000_0000_0000 }
pub open spec fn z_slice(s: Sl, lo: int, hi: int) -> Sl {
    Sl { blk: s.blk, off: s.off + lo, len: hi - lo, cap: s.cap - lo, ep: s.ep }
}
pub open spec fn splice<A>(s: Seq<A>, o: int, t: Seq<A>) -> Seq<A> {
    Seq::new(s.len(), |i: int| if o <= i < o + t.len() { t[i - o] } else { s[i] })
}

// ---- machine integers: conversions wrap, signed arithmetic is mathematical ----
pub open spec fn z_u64(v: int) -> int { if 0 <= v < 0x1_0000_0000_0000_0000 { v } else { v % 0x1_0000_0000_0000_0000 } }
pub open spec fn z_u32(v: int) -> int { if 0 <= v < 0x1_0000_0000 { v } else { v % 0x1_0000_0000 } }
pub open spec fn z_u8(v: int) -> int { if 0 <= v < 256 { v } else { v % 256 } }
pub open spec fn z_i64(v: int) -> int { let u = z_u64(v); if u < 0x8000_0000_0000_0000 { u } else { u - 0x1_0000_0000_0000_0000 } }
pub open spec fn z_i32(v: int) -> int { let u = z_u32(v); if u < 0x8000_0000 { u } else { u - 0x1_0000_0000 } }
pub open spec fn z_i8(v: int) -> int { let u = z_u8(v); if u < 128 { u } else { u - 256 } }
// division truncates towards zero
pub open spec fn z_div(a: int, b: int) -> int {
    if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } } else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } }
}
pub open spec fn z_mod(a: int, b: int) -> int { a - b * z_div(a, b) }
pub open spec fn z_shl(a: int, b: int) -> int { if b < 0 { 0 } else { a * p2(b) } }
pub open spec fn z_shr(a: int, b: int) -> int { if b < 0 { 0 } else { a / p2(b) } }
pub open spec fn p2(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * p2(n - 1) } }
pub uninterp spec fn z_and_(a: int, b: int) -> int;
pub uninterp spec fn z_or_(a: int, b: int) -> int;
pub uninterp spec fn z_xor_(a: int, b: int) -> int;
pub uninterp spec fn z_andnot_(a: int, b: int) -> int;
// bit operations on non-negative integers (on negative ones: unknown)
pub open spec fn zband(a: int, b: int) -> int decreases a { if a <= 0 || b <= 0 { 0 } else { 2 * zband(a / 2, b / 2) + (a % 2) * (b % 2) } }
pub open spec fn zbandnot(a: int, b: int) -> int decreases a { if a <= 0 { 0 } else if b <= 0 { a } else { 2 * zbandnot(a / 2, b / 2) + (a % 2) * (1 - b % 2) } }
pub open spec fn zbor(a: int, b: int) -> int decreases a { if a <= 0 { b } else if b <= 0 { a } else { 2 * zbor(a / 2, b / 2) + z_max(a % 2, b % 2) } }
pub open spec fn zbxor(a: int, b: int) -> int decreases a { if a <= 0 { b } else if b <= 0 { a } else { 2 * zbxor(a / 2, b / 2) + (if a % 2 == b % 2 { 0int } else { 1 }) } }
pub open spec fn z_and(a: int, b: int) -> int { if a >= 0 && b >= 0 { zband(a, b) } else { z_and_(a, b) } }
pub open spec fn z_or(a: int, b: int) -> int { if a >= 0 && b >= 0 { zbor(a, b) } else { z_or_(a, b) } }
pub open spec fn z_xor(a: int, b: int) -> int { if a >= 0 && b >= 0 { zbxor(a, b) } else { z_xor_(a, b) } }
pub open spec fn z_andnot(a: int, b: int) -> int { if a >= 0 && b >= 0 { zbandnot(a, b) } else { z_andnot_(a, b) } }
pub proof fn lem_p2_pos(k: int)
    ensures p2(k) >= 1
    decreases k
{ if k > 0 { lem_p2_pos(k - 1); } }
pub proof fn lem_p2_mono(a: int, b: int)
    requires a <= b
    ensures p2(a) <= p2(b), a < b && b >= 1 ==> p2(a) < p2(b)
    decreases b
{ lem_p2_pos(a); lem_p2_pos(b); if a < b && b >= 1 { lem_p2_mono(a, b - 1); lem_p2_pos(b - 1); } }
pub proof fn lem_p2_add(a: int, b: int)
    requires a >= 0, b >= 0
    ensures p2(a + b) == p2(a) * p2(b)
    decreases b
{
    if b > 0 { lem_p2_add(a, b - 1); assert(p2(a) * (2 * p2(b - 1)) == 2 * (p2(a) * p2(b - 1))) by(nonlinear_arith); }
    else { assert(p2(a) * 1 == p2(a)); }
}
// a / 2 / p2(k-1) == a / p2(k), and the same for remainders
pub proof fn lem_half(a: int, k: int)
    requires a >= 0, k >= 1
    ensures (a / 2) / p2(k - 1) == a / p2(k), a % p2(k) == 2 * ((a / 2) % p2(k - 1)) + a % 2
{
    let m = p2(k - 1); lem_p2_pos(k - 1);
    let q = (a / 2) / m; let r = (a / 2) % m;
    assert(a / 2 == m * q + r && 0 <= r < m) by(nonlinear_arith) requires m >= 1, q == (a / 2) / m, r == (a / 2) % m;
    let s = 2 * r + a % 2;
    assert(a == (2 * m) * q + s && 0 <= s < 2 * m) by(nonlinear_arith) requires a / 2 == m * q + r, 0 <= r < m, s == 2 * r + a % 2, a >= 0, m >= 1;
    lem_divmod(a, 2 * m, q, s);
}
pub proof fn lem_divmod(a: int, d: int, q: int, r: int)
    requires d > 0, a == d * q + r, 0 <= r < d
    ensures a / d == q, a % d == r
{
    assert(a / d == q && a % d == r) by(nonlinear_arith) requires d > 0, a == d * q + r, 0 <= r < d;
}
pub proof fn lem_band_mask(a: int, k: int)
    requires a >= 0, k >= 0
    ensures zband(a, p2(k) - 1) == a % p2(k)
    decreases k
{
    lem_p2_pos(k);
    if k == 0 { assert(a % 1 == 0); }
    else if a == 0 { assert(0int % p2(k) == 0) by(nonlinear_arith) requires p2(k) >= 1; }
    else {
        let m = p2(k - 1); lem_p2_pos(k - 1);
        assert(p2(k) == 2 * m);
        assert((2 * m - 1) / 2 == m - 1 && (2 * m - 1) % 2 == 1);
        lem_band_mask(a / 2, k - 1);
        lem_half(a, k);
    }
}
pub proof fn lem_band_pow(a: int, k: int)
    requires a >= 0, k >= 0
    ensures zband(a, p2(k)) == p2(k) * ((a / p2(k)) % 2)
    decreases k
{
    lem_p2_pos(k);
    if a == 0 { assert(0int / p2(k) == 0) by(nonlinear_arith) requires p2(k) >= 1; assert(p2(k) * ((0int / p2(k)) % 2) == 0) by(nonlinear_arith) requires 0int / p2(k) == 0; }
    else if k == 0 { assert(p2(0) == 1); assert(a / 1 == a); assert(zband(a / 2, 1int / 2) == 0) by { assert(1int / 2 == 0); } }
    else {
        let m = p2(k - 1);
        assert((2 * m) / 2 == m && (2 * m) % 2 == 0);
        lem_band_pow(a / 2, k - 1); lem_half(a, k); lem_p2_pos(k - 1);
        let t = (a / p2(k)) % 2;
        assert(p2(k) == 2 * m); assert((a % 2) * 0 == 0); assert(zband(a, 2 * m) == 2 * zband(a / 2, m));
        assert(p2(k) == 2 * m); assert((a % 2) * (1 - 0) == a % 2); assert(zbandnot(a, 2 * m) == 2 * zbandnot(a / 2, m) + a % 2);
        assert(2 * (m * t) == p2(k) * t) by(nonlinear_arith) requires p2(k) == 2 * m;
    }


}
pub proof fn lem_andnot_and(a: int, b: int)
    requires a >= 0, b >= 0
    ensures zbandnot(a, b) == a - zband(a, b)
    decreases a
{
    if a > 0 && b > 0 {
        lem_andnot_and(a / 2, b / 2);
        assert((a % 2) * (1 - b % 2) == a % 2 - (a % 2) * (b % 2)) by(nonlinear_arith);
    }
}
pub proof fn lem_andnot_pow(a: int, k: int)
    requires a >= 0, k >= 0
    ensures zbandnot(a, p2(k)) == a - p2(k) * ((a / p2(k)) % 2)
{ lem_p2_pos(k); lem_andnot_and(a, p2(k)); lem_band_pow(a, k); }
pub proof fn lem_bit01(i: int, j: int)
    requires i >= 0, j == 0 || j == 1
    ensures zbor(2 * i, j) == 2 * i + j, zbxor(j, 1) == 1 - j
{
    if i > 0 && j == 1 { assert((2 * i) / 2 == i); assert((2 * i) % 2 == 0); assert(1int / 2 == 0); assert(zbor(i, 0) == i); }
    if j == 1 { assert(1int / 2 == 0); assert(zbxor(0, 0) == 0); }
}
pub open spec fn z_fdiv(a: Frac, b: Frac) -> Frac { Frac { n: a.n * b.d, d: a.d * b.n } }
pub open spec fn z_fcmp(a: Frac, b: Frac) -> int { a.n * b.d - b.n * a.d }

// ---- big-endian integers ------------------------------------------------------
#[verifier::opaque]
pub open spec fn be32(q: Seq<u8>, i: int) -> int {
    q[i] as int * 16777216 + q[i + 1] as int * 65536 + q[i + 2] as int * 256 + q[i + 3] as int
}
#[verifier::opaque]
pub open spec fn be64(q: Seq<u8>, i: int) -> int {
    be32(q, i) * 0x1_0000_0000 + be32(q, i + 4)
}
pub closed spec fn enc32(v: int) -> Seq<u8> {
    seq![(v / 16777216) as u8, ((v / 65536) % 256) as u8, ((v / 256) % 256) as u8, (v % 256) as u8]
}
pub closed spec fn enc64(v: int) -> Seq<u8> {
    enc32(v / 0x1_0000_0000) + enc32(v % 0x1_0000_0000)
}
pub open spec fn z_wr_mem(h: Heap, s: Sl, t: Seq<u8>) -> Heap {
    Heap { mem: h.mem.insert(s.blk, splice(h.mem[s.blk], s.off, t)), ..h }
}
pub open spec fn z_put32(h: Heap, s: Sl, v: int) -> Heap { z_wr_mem(h, s, enc32(v)) }
pub open spec fn z_put64(h: Heap, s: Sl, v: int) -> Heap { z_wr_mem(h, s, enc64(v)) }

pub broadcast proof fn b_be32_range(q: Seq<u8>, i: int)
    ensures 0 <= #[trigger] be32(q, i) < 0x1_0000_0000
{ reveal(be32); }
pub broadcast proof fn b_be64_range(q: Seq<u8>, i: int)
    ensures 0 <= #[trigger] be64(q, i) < 0x1_0000_0000_0000_0000
{ reveal(be64); b_be32_range(q, i); b_be32_range(q, i + 4); }
pub broadcast proof fn b_enc32_len(v: int)
    ensures (#[trigger] enc32(v)).len() == 4
{ }
pub broadcast proof fn b_enc64_len(v: int)
    ensures (#[trigger] enc64(v)).len() == 8
{ }
pub broadcast proof fn b_enc32(v: int)
    requires 0 <= v < 0x1_0000_0000
    ensures be32(#[trigger] enc32(v), 0) == v
{
    reveal(be32);
    assert(v / 16777216 < 256) by(nonlinear_arith) requires 0 <= v < 0x1_0000_0000;
    assert((v / 16777216) * 16777216 + ((v / 65536) % 256) * 65536 + ((v / 256) % 256) * 256 + v % 256 == v) by {
        let a = v / 256; let b = v / 65536;
        assert(b == a / 256);
        assert(v / 16777216 == b / 256);
    }
}
pub broadcast proof fn b_enc64(v: int)
    requires 0 <= v < 0x1_0000_0000_0000_0000
    ensures be64(#[trigger] enc64(v), 0) == v
{
    reveal(be64);
    let a = v / 0x1_0000_0000; let b = v % 0x1_0000_0000;
    assert(0 <= a < 0x1_0000_0000);
    b_enc32(a); b_enc32(b); b_enc32_len(a); b_enc32_len(b);
    reveal(be32);
    let e = enc32(a) + enc32(b);
    assert(e[0] == enc32(a)[0] && e[1] == enc32(a)[1] && e[2] == enc32(a)[2] && e[3] == enc32(a)[3]);
    assert(e[4] == enc32(b)[0] && e[5] == enc32(b)[1] && e[6] == enc32(b)[2] && e[7] == enc32(b)[3]);
    assert(be32(e, 0) == be32(enc32(a), 0));
    assert(be32(e, 4) == be32(enc32(b), 0));
}
pub broadcast proof fn b_be32_splice(q: Seq<u8>, o: int, t: Seq<u8>, p: int)
    requires 0 <= o, o + t.len() <= q.len(), 0 <= p, p + 4 <= q.len()
    ensures
        (p + 4 <= o || o + t.len() <= p) ==> #[trigger] be32(splice(q, o, t), p) == be32(q, p),
        (o <= p && p + 4 <= o + t.len()) ==> be32(splice(q, o, t), p) == be32(t, p - o),
{ reveal(be32); }
pub broadcast proof fn b_be64_splice(q: Seq<u8>, o: int, t: Seq<u8>, p: int)
    requires 0 <= o, o + t.len() <= q.len(), 0 <= p, p + 8 <= q.len()
    ensures
        (p + 8 <= o || o + t.len() <= p) ==> #[trigger] be64(splice(q, o, t), p) == be64(q, p),
        (o <= p && p + 8 <= o + t.len()) ==> be64(splice(q, o, t), p) == be64(t, p - o),
{ reveal(be64); b_be32_splice(q, o, t, p); b_be32_splice(q, o, t, p + 4); }
pub broadcast proof fn b_be32_sub(q: Seq<u8>, a: int, b: int, p: int)
    requires 0 <= a, b <= q.len(), 0 <= p, a + p + 4 <= b
    ensures #[trigger] be32(q.subrange(a, b), p) == be32(q, a + p)
{ reveal(be32); }
pub proof fn lem_conv64(v: int)
    requires z_i64ok(v)
    ensures z_i64(z_u64(v)) == v, 0 <= z_u64(v) < 0x1_0000_0000_0000_0000
{ }
pub proof fn lem_conv32(v: int)
    requires -0x8000_0000 <= v < 0x8000_0000
    ensures z_i32(z_u32(v)) == v, 0 <= z_u32(v) < 0x1_0000_0000
{ }
pub proof fn lem_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures (a + b) + c == a + (b + c)
{ assert((a + b) + c =~= a + (b + c)); }
pub proof fn lem_rd64(p: Seq<u8>, v: int, t: Seq<u8>)
    requires 0 <= v < 0x1_0000_0000_0000_0000
    ensures be64(p + (enc64(v) + t), p.len() as int) == v
{ let q = p + (enc64(v) + t); let n = p.len() as int; b_enc64_len(v); assert(q.subrange(n, n + 8) =~= enc64(v)); b_be64_sub(q, n, n + 8, 0); b_enc64(v); }
pub proof fn lem_rd32(p: Seq<u8>, v: int, t: Seq<u8>)
    requires 0 <= v < 0x1_0000_0000
    ensures be32(p + (enc32(v) + t), p.len() as int) == v
{ let q = p + (enc32(v) + t); let n = p.len() as int; b_enc32_len(v); assert(q.subrange(n, n + 4) =~= enc32(v)); b_be32_sub(q, n, n + 4, 0); b_enc32(v); }
pub proof fn lem_rd8(p: Seq<u8>, v: u8, t: Seq<u8>)
    ensures (p + (seq![v] + t))[p.len() as int] == v
{ }
pub broadcast proof fn b_be64_sub(q: Seq<u8>, a: int, b: int, p: int)
    requires 0 <= a, b <= q.len(), 0 <= p, a + p + 8 <= b
    ensures #[trigger] be64(q.subrange(a, b), p) == be64(q, a + p)
{ reveal(be64); reveal(be32); }

pub broadcast proof fn b_sub_full(q: Seq<u8>, a: int, b: int)
    ensures (a == 0 && b == q.len()) ==> #[trigger] q.subrange(a, b) == q
{ if a == 0 && b == q.len() { assert(q.subrange(a, b) =~= q); } }

// ---- varints --------------------------------------------------------------------
pub open spec fn uvenc(v: int) -> Seq<u8> decreases v {
    if v < 128 { seq![v as u8] } else { seq![(v % 128 + 128) as u8] + uvenc(v / 128) }
}
// value and number of bytes; 0 bytes when the input is too short
pub open spec fn uvdec(s: Seq<u8>) -> (int, int) decreases s.len() {
    if s.len() == 0 { (0, 0) }
    else if s[0] < 128 { (s[0] as int, 1) }
    else {
        let r = uvdec(s.subrange(1, s.len() as int));
        if r.1 <= 0 { (0, r.1) }
        else if r.1 >= 10 { (0, -11) }
        else { (s[0] as int - 128 + 128 * r.0, r.1 + 1) }
    }
}
pub proof fn lem_uvenc_len(v: int, k: int)
    requires 0 <= v < p2(7 * k), k >= 1
    ensures 1 <= uvenc(v).len() <= k
    decreases k
{
    if v >= 128 {
        reveal_with_fuel(p2, 8);
        if k == 1 { assert(p2(7) == 128); }
        else {
            assert(p2(7 * k) == 128 * p2(7 * (k - 1))) by {
                let m = 7 * k;
                assert(p2(m) == 2 * p2(m - 1)); assert(p2(m - 1) == 2 * p2(m - 2)); assert(p2(m - 2) == 2 * p2(m - 3));
                assert(p2(m - 3) == 2 * p2(m - 4)); assert(p2(m - 4) == 2 * p2(m - 5)); assert(p2(m - 5) == 2 * p2(m - 6));
                assert(p2(m - 6) == 2 * p2(m - 7));
            }
            lem_uvenc_len(v / 128, k - 1);
        }
    }
}
pub proof fn lem_p2_64()
    ensures p2(32) == 0x1_0000_0000, p2(64) == 0x1_0000_0000_0000_0000, p2(63) == 0x8000_0000_0000_0000, p2(70) >= 0x1_0000_0000_0000_0000
{
    assert(p2(32) == 0x1_0000_0000) by(compute);
    assert(p2(63) == 0x8000_0000_0000_0000) by(compute);
    assert(p2(64) == 0x1_0000_0000_0000_0000) by(compute);
    assert(p2(70) == 0x40_0000_0000_0000_0000) by(compute);
}
pub proof fn lem_uvenc_bound(v: int)
    requires 0 <= v < 0x1_0000_0000_0000_0000
    ensures 1 <= uvenc(v).len() <= 10
{ lem_p2_64(); lem_uvenc_len(v, 10); }
pub proof fn lem_uvdec(v: int, t: Seq<u8>)
    requires 0 <= v, uvenc(v).len() <= 10
    ensures uvdec(uvenc(v) + t) == (v, uvenc(v).len() as int)
    decreases v
{
    let s = uvenc(v) + t;
    if v >= 128 {
        lem_uvdec(v / 128, t);
        assert(s.subrange(1, s.len() as int) =~= uvenc(v / 128) + t);
        assert(s[0] == (v % 128 + 128) as u8);
        assert(uvenc(v / 128).len() <= 9);
    }
}

// ---- lexicographic order ----------------------------------------------------------
pub open spec fn lexcmp(a: Seq<u8>, b: Seq<u8>) -> int decreases a.len() {
    if a.len() == 0 { if b.len() == 0 { 0 } else { -1 } }
    else if b.len() == 0 { 1 }
    else if a[0] < b[0] { -1 }
    else if a[0] > b[0] { 1 }
    else { lexcmp(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int)) }
}
pub proof fn lem_lex_eq(a: Seq<u8>, b: Seq<u8>)
    ensures (lexcmp(a, b) == 0) == (a == b)
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] {
        let x = a.subrange(1, a.len() as int); let y = b.subrange(1, b.len() as int);
        lem_lex_eq(x, y);
        if x == y {
            assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
                if i > 0 { assert(a[i] == x[i - 1]); assert(b[i] == y[i - 1]); }
            }
            assert(a =~= b);
        }
    } else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
pub proof fn lem_lex_anti(a: Seq<u8>, b: Seq<u8>)
    ensures lexcmp(a, b) == -lexcmp(b, a), -1 <= lexcmp(a, b) <= 1
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] {
        lem_lex_anti(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int));
    }
}
pub proof fn lem_lex_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires lexcmp(a, b) <= 0, lexcmp(b, c) <= 0
    ensures lexcmp(a, c) <= 0, (lexcmp(a, b) < 0 || lexcmp(b, c) < 0) ==> lexcmp(a, c) < 0
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] {
        lem_lex_trans(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int), c.subrange(1, c.len() as int));
    }
}
pub proof fn lem_lex_cat(p: Seq<u8>, x: Seq<u8>, q: Seq<u8>, y: Seq<u8>)
    requires p.len() == q.len()
    ensures lexcmp(p + x, q + y) == (if lexcmp(p, q) != 0 { lexcmp(p, q) } else { lexcmp(x, y) })
    decreases p.len()
{
    if p.len() == 0 { assert(p + x =~= x); assert(q + y =~= y); }
    else {
        let p1 = p.subrange(1, p.len() as int); let q1 = q.subrange(1, q.len() as int);
        assert((p + x).subrange(1, (p + x).len() as int) =~= p1 + x);
        assert((q + y).subrange(1, (q + y).len() as int) =~= q1 + y);
        if p[0] == q[0] { lem_lex_cat(p1, x, q1, y); }
        else { }
    }
}

pub uninterp spec fn fnv64a(s: Seq<u8>) -> int;
pub broadcast axiom fn b_fnv_range(s: Seq<u8>)
    ensures 0 <= #[trigger] fnv64a(s) < 0x1_0000_0000_0000_0000;

// ---- file spaces (trusted contract of github.com/roy2220/fsm) -------------------------
pub open spec fn z_access(h: Heap, a: int) -> Sl {
    Sl { blk: -1 - a, off: 0, len: h.mem[-1 - a].len() as int, cap: h.mem[-1 - a].len() as int, ep: h.ep }
}
pub uninterp spec fn fsm_stats(h: Heap) -> int;
// The sp, al, prim and file blocks of a heap are the content of the file: what is on disk while
// the storage is closed (a file that does not exist: nothing allocated, no primary space).
#[verifier::external_body]
pub proof fn fsm_Open(h0: Heap, name: int, create: bool) -> (r: (Heap, int))
    ensures r.0 == (Heap { ep: r.0.ep, ..h0 }), r.0.ep > h0.ep
{ unimplemented!() }
#[verifier::external_body]
pub proof fn fsm_Close(h0: Heap) -> (r: (Heap, int))
    ensures
        r.0 == (Heap { mem: r.0.mem, sp: r.0.sp, al: r.0.al, prim: r.0.prim, ep: r.0.ep, ..h0 }) && r.0.ep > h0.ep,
        r.1 == 0 ==> r.0 == (Heap { ep: r.0.ep, ..h0 }),
{ unimplemented!() }
#[verifier::external_body]
pub proof fn fsm_AllocateSpace(h0: Heap, n: int) -> (r: (Heap, int, Sl))
    requires n >= 0
    ensures ({
        let h = r.0; let a = r.1;
        &&& !h0.sp.contains(a) && !h0.al.contains(a) && 0 < a < 0x8000_0000_0000_0000
        &&& h == Heap { sp: h0.sp.insert(a), ep: h.ep, mem: h0.mem.insert(-1 - a, h.mem[-1 - a]), ..h0 }
        &&& h.ep > h0.ep
        &&& h.mem[-1 - a].len() >= n
        &&& r.2 == z_access(h, a)
    })
{ unimplemented!() }
#[verifier::external_body]
pub proof fn fsm_AllocateAlignedSpace(h0: Heap, n: int) -> (r: (Heap, int, Sl))
    requires n == 8192 || n == 32768
    ensures ({
        let h = r.0; let a = r.1;
        &&& !h0.sp.contains(a) && !h0.al.contains(a) && 0 < a < 0x8000_0000_0000_0000
        &&& h == Heap { al: h0.al.insert(a), ep: h.ep, mem: h0.mem.insert(-1 - a, h.mem[-1 - a]), ..h0 }
        &&& h.ep > h0.ep
        &&& h.mem[-1 - a].len() == n
        &&& r.2 == z_access(h, a)
    })
{ unimplemented!() }
#[verifier::external_body]
pub proof fn fsm_FreeSpace(h0: Heap, a: int) -> (h: Heap)
    ensures
        h == (Heap { sp: h0.sp.remove(a), ep: h.ep, mem: h0.mem.insert(-1 - a, h.mem[-1 - a]), ..h0 }),
        h.ep > h0.ep,
{ unimplemented!() }
#[verifier::external_body]
pub proof fn fsm_FreeAlignedSpace(h0: Heap, a: int) -> (h: Heap)
    ensures
        h == (Heap { al: h0.al.remove(a), ep: h.ep, mem: h0.mem.insert(-1 - a, h.mem[-1 - a]), ..h0 }),
        h.ep > h0.ep,
{ unimplemented!() }

pub broadcast group group_gocv {
    b_be32_range, b_be64_range, b_enc32_len, b_enc64_len, b_enc32, b_enc64,
    b_be32_splice, b_be64_splice, b_be32_sub, b_be64_sub, b_sub_full, b_fnv_range,
}
