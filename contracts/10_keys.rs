// ---- keys and values of the ordered dictionary -------------------------------
//
// A stored key or value of at most P+7 bytes is kept as it is; a longer one is
// kept as its first P bytes followed by the address of a file space that holds
// the length of the rest as a varint and then the rest.
pub type Mem = IMap<int, Seq<u8>>;

// payload of an overflow space with content d
pub open spec fn ovd(d: Seq<u8>) -> Seq<u8> { d.subrange(uvdec(d).1, uvdec(d).1 + uvdec(d).0) }
pub open spec fn ovd_ok(d: Seq<u8>) -> bool {
    uvdec(d).1 > 0 && uvdec(d).0 >= 0 && uvdec(d).0 < 0x8000_0000_0000_0000 && uvdec(d).1 + uvdec(d).0 <= d.len()
}
pub open spec fn ovaddr(ks: Seq<u8>, p: int) -> int { z_i64(be64(ks, p)) }
pub open spec fn islong(ks: Seq<u8>, p: int) -> bool { ks.len() >= p + 8 }
// the bytes a stored key (p = prefix size) stands for
pub open spec fn rawOf(m: Mem, ks: Seq<u8>, p: int) -> Seq<u8> {
    if !islong(ks, p) { ks } else { ks.subrange(0, p) + ovd(m[-1 - ovaddr(ks, p)]) }
}
pub open spec fn fmtOK(h: Heap, ks: Seq<u8>, p: int) -> bool {
    &&& ks.len() <= p + 8
    &&& islong(ks, p) ==> {
        let a = ovaddr(ks, p);
        &&& h.sp.contains(a)
        &&& ovd_ok(h.mem[-1 - a])
        &&& uvdec(h.mem[-1 - a]).0 >= 8
    }
}
pub open spec fn kP() -> int { K_keyPrefixSize() }
pub open spec fn vP() -> int { K_valuePrefixSize() }
pub open spec fn rawK(m: Mem, ks: Seq<u8>) -> Seq<u8> { rawOf(m, ks, kP()) }
pub open spec fn rawV(m: Mem, ks: Seq<u8>) -> Seq<u8> { rawOf(m, ks, vP()) }
pub open spec fn keyOK(h: Heap, ks: Seq<u8>) -> bool { fmtOK(h, ks, kP()) }
pub open spec fn valOK(h: Heap, ks: Seq<u8>) -> bool { fmtOK(h, ks, vP()) }

// every block but new ones is unchanged
pub open spec fn mem_kept(h0: Heap, h: Heap) -> bool {
    forall|b: int| b < h0.nxt ==> #[trigger] h.mem[b] == h0.mem[b]
}
pub open spec fn mem_kept1(h0: Heap, h: Heap, b1: int) -> bool {
    forall|b: int| b < h0.nxt && b != b1 ==> #[trigger] h.mem[b] == h0.mem[b]
}
pub open spec fn mem_kept2(h0: Heap, h: Heap, b1: int, b2: int) -> bool {
    forall|b: int| b < h0.nxt && b != b1 && b != b2 ==> #[trigger] h.mem[b] == h0.mem[b]
}
pub proof fn lem_ov(v: int, x: Seq<u8>, d: Seq<u8>)
    requires 0 <= v == x.len(), v < 0x8000_0000_0000_0000, d.len() >= uvenc(v).len() + x.len(),
        d.subrange(0, (uvenc(v).len() + x.len()) as int) == uvenc(v) + x,
    ensures ovd_ok(d), ovd(d) == x, uvdec(d).0 == v
{
    lem_uvenc_bound(v);
    let n = uvenc(v).len() + x.len();
    let t = x + d.subrange(n as int, d.len() as int);
    assert(d =~= uvenc(v) + t) by {
        assert forall|i: int| 0 <= i < d.len() implies d[i] == (uvenc(v) + t)[i] by {
            if i < n { assert(d.subrange(0, n as int)[i] == d[i]); }
        }
    }
    lem_uvdec(v, t);
    assert(ovd(d) =~= x);
}
pub open spec fn rd_len(total: int, off: int, want: int) -> int {
    if off >= total { 0 } else { z_min(want, total - off) }
}
