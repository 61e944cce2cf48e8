// ---- scanning ------------------------------------------------------------------------
// what is left to be seen: the rest of the items of the cursor, then the slots from slotIndex on
pub open spec fn flat(X: Seq<Seq<Itm>>, a: int, n: int) -> Seq<Itm> decreases n - a { if a >= n { Seq::empty() } else { X[a] + flat(X, a + 1, n) } }
pub open spec fn kv(x: Itm) -> (Seq<u8>, Seq<u8>) { (x.k, x.v) }
pub open spec fn curP(h: Heap, hm: T_HashMap, c: T_Cursor) -> bool {
    &&& 0 <= c.slotIndex <= hm.slotCount && 0 <= c.itemIndex && its_ok(h, c.items) && c.items.ep == 0
    &&& forall|j: int| 0 <= j < c.items.len ==> (#[trigger] it_at(h, c.items, j)).Key.ep == 0 && it_at(h, c.items, j).Value.ep == 0
}
pub open spec fn todo(h: Heap, hm: T_HashMap, c: T_Cursor) -> Seq<Itm> {
    itms(h, c.items).subrange(z_min(c.itemIndex, c.items.len), c.items.len) + flat(hslots(h, hm), c.slotIndex, hm.slotCount)
}
// a full scan meets every key exactly once, with its value
pub proof fn lem_flat_mem(X: Seq<Seq<Itm>>, a: int, n: int, i: int)
    requires 0 <= a <= n <= X.len(), 0 <= i < flat(X, a, n).len()
    ensures exists|s: int, j: int| a <= s < n && 0 <= j < X[s].len() && #[trigger] X[s][j] == flat(X, a, n)[i]
    decreases n - a
{
    if i < X[a].len() { assert(X[a][i] == flat(X, a, n)[i]); }
    else { lem_flat_mem(X, a + 1, n, i - X[a].len()); let (s, j) = choose|s: int, j: int| a + 1 <= s < n && 0 <= j < X[s].len() && #[trigger] X[s][j] == flat(X, a + 1, n)[i - X[a].len()]; assert(X[s][j] == flat(X, a, n)[i]); }
}
pub proof fn lem_flat_has(X: Seq<Seq<Itm>>, a: int, n: int, s: int, j: int)
    requires 0 <= a <= s < n <= X.len(), 0 <= j < X[s].len()
    ensures exists|i: int| 0 <= i < flat(X, a, n).len() && #[trigger] flat(X, a, n)[i] == X[s][j]
    decreases n - a
{
    if s == a { assert(flat(X, a, n)[j] == X[s][j]); }
    else { lem_flat_has(X, a + 1, n, s, j); let i = choose|i: int| 0 <= i < flat(X, a + 1, n).len() && #[trigger] flat(X, a + 1, n)[i] == X[s][j]; assert(flat(X, a, n)[X[a].len() + i] == X[s][j]); }
}
pub proof fn lem_flat_distinct(X: Seq<Seq<Itm>>, sh: int, a: int)
    requires 0 <= a <= X.len(), conOK(X, sh)
    ensures distinct(flat(X, a, X.len() as int))
    decreases X.len() - a
{
    let n = X.len() as int;
    if a < n {
        lem_flat_distinct(X, sh, a + 1);
        let f = flat(X, a, n); let g = flat(X, a + 1, n); let x = X[a];
        assert(distinct(x) && slotIn(x, a, n, sh));
        assert forall|i: int, j: int| 0 <= i < j < f.len() implies (#[trigger] f[i]).k != (#[trigger] f[j]).k by {
            if j < x.len() { assert(f[i] == x[i] && f[j] == x[j]); }
            else {
                assert(f[j] == g[j - x.len()]);
                lem_flat_mem(X, a + 1, n, j - x.len()); let (s, e) = choose|s: int, e: int| a + 1 <= s < n && 0 <= e < X[s].len() && #[trigger] X[s][e] == g[j - x.len()];
                if i < x.len() { assert(f[i] == x[i]); assert(itOK(x[i])); assert(distinct(X[s]) && slotIn(X[s], s, n, sh)); assert(itOK(X[s][e])); }
                else { assert(f[i] == g[i - x.len()]); }
            }
        }
    }
}
// everything in the table is met by a scan from the start, once, and nothing else
pub proof fn lem_scan_complete(X: Seq<Seq<Itm>>, sh: int)
    requires sh >= 0, p2(sh) <= X.len() < p2(sh + 1), conOK(X, sh)
    ensures ({ let f = flat(X, 0, X.len() as int);
        &&& distinct(f)
        &&& forall|i: int| 0 <= i < f.len() ==> mget(X, sh, (#[trigger] f[i]).k) == Some(f[i].v)
        &&& forall|k: Seq<u8>| (#[trigger] mget(X, sh, k)) is Some ==> hasKey(f, k) })
{
    let n = X.len() as int; let f = flat(X, 0, n);
    lem_flat_distinct(X, sh, 0);
    assert forall|i: int| 0 <= i < f.len() implies mget(X, sh, (#[trigger] f[i]).k) == Some(f[i].v) by {
        lem_flat_mem(X, 0, n, i); let (s, j) = choose|s: int, j: int| 0 <= s < n && 0 <= j < X[s].len() && #[trigger] X[s][j] == f[i];
        assert(distinct(X[s]) && slotIn(X[s], s, n, sh)); assert(itOK(X[s][j])); lem_slk_at(X[s], j);
    }
    assert forall|k: Seq<u8>| (#[trigger] mget(X, sh, k)) is Some implies hasKey(f, k) by {
        lem_fnv(k); lem_sidx(fnv64a(k), n, sh); let s = sidx(fnv64a(k), n, sh);
        let j = choose|j: int| 0 <= j < X[s].len() && (#[trigger] X[s][j]).k == k;
        lem_flat_has(X, 0, n, s, j); let i = choose|i: int| 0 <= i < f.len() && #[trigger] f[i] == X[s][j]; assert(f[i].k == k);
    }
}
pub proof fn lem_flat_empty(X: Seq<Seq<Itm>>, a: int, b: int, n: int)
    requires 0 <= a <= b <= n <= X.len(), forall|s: int| a <= s < b ==> (#[trigger] X[s]).len() == 0
    ensures flat(X, a, n) == flat(X, b, n)
    decreases b - a
{ if a < b { lem_flat_empty(X, a + 1, b, n); assert(X[a].len() == 0); assert(flat(X, a, n) =~= flat(X, a + 1, n)); } }
// ---- creation, destruction, storing and loading -----------------------------------------
pub open spec fn hmNew(hm: T_HashMap, fs: int) -> bool {
    hm.slotDirsAddr == -1 && hm.maxSlotDirCountShift == 0 && hm.slotDirCount == 0 && hm.minSlotCountShift == 0 && hm.slotCount == 0 && hm.itemCount == 0 && hm.payloadSize == 0 && hm.fileStorage == fs
}
pub open spec fn noown() -> spec_fn(int) -> bool { |a: int| false }
// trusted contract of the protobuf code: a message is decoded to what was encoded, whatever follows it
pub uninterp spec fn encmsg_HashMapInfo(i: T_HashMapInfo) -> Seq<u8>;
pub uninterp spec fn decmsg_HashMapInfo(s: Seq<u8>) -> (T_HashMapInfo, int);
pub open spec fn msg_ok(i: T_HashMapInfo) -> bool {
    z_i64ok(i.SlotDirsAddr) && z_i64ok(i.SlotDirCount) && z_i64ok(i.MaxSlotDirCountShift) && z_i64ok(i.SlotCount) && z_i64ok(i.MinSlotCountShift) && z_i64ok(i.ItemCount) && z_i64ok(i.PayloadSize)
}
pub axiom fn ax_msg_codec(i: T_HashMapInfo, rest: Seq<u8>)
    requires msg_ok(i)
    ensures decmsg_HashMapInfo(encmsg_HashMapInfo(i) + rest) == (i, 0int), encmsg_HashMapInfo(i).len() < 0x1_0000;
// the map described by a message
pub open spec fn hmOf(i: T_HashMapInfo, fs: int) -> T_HashMap {
    T_HashMap { fileStorage: fs, slotDirsAddr: i.SlotDirsAddr, maxSlotDirCountShift: i.MaxSlotDirCountShift, slotDirCount: i.SlotDirCount, minSlotCountShift: i.MinSlotCountShift, slotCount: i.SlotCount, itemCount: i.ItemCount, payloadSize: i.PayloadSize }
}
// the map hm lies stored in the file, its description at address a
pub open spec fn hmStored(h: Heap, a: int, hm: T_HashMap) -> bool {
    let d = decmsg_HashMapInfo(h.mem[-1 - a]);
    &&& a > 0 && z_i64ok(a) && h.sp.contains(a) && !own(h, hm, -1, a) && hmP(h, hm)
    &&& d.1 == 0 && msg_ok(d.0) && hmOf(d.0, hm.fileStorage) == hm
}
pub open spec fn hoA(h: Heap, hm: T_HashMap, a: int) -> spec_fn(int) -> bool { |x: int| own(h, hm, -1, x) || x == a }
