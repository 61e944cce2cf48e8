// ---- the content of the table under growing and shrinking ---------------------------
pub proof fn lem_fnv(k: Seq<u8>)
    ensures 0 <= fnv64a(k) < 0x1_0000_0000_0000_0000
{ b_fnv_range(k); }
pub open spec fn bitOf(x: int, sh: int) -> bool { (x / p2(sh)) % 2 == 1 }
pub proof fn lem_hbit(x: Itm, sh: int)
    requires itOK(x), sh >= 0
    ensures hbit(x, p2(sh)) == bitOf(fnv64a(x.k), sh)
{
    lem_fnv(x.k); lem_band_pow(fnv64a(x.k), sh); lem_p2_pos(sh);
    let t = (fnv64a(x.k) / p2(sh)) % 2;
    assert(t == 0 || t == 1) by { assert(fnv64a(x.k) / p2(sh) >= 0) by(nonlinear_arith) requires fnv64a(x.k) >= 0, p2(sh) >= 1; }
    if t == 0 { assert(p2(sh) * t == 0) by(nonlinear_arith) requires t == 0; } else { assert(p2(sh) * t == p2(sh)) by(nonlinear_arith) requires t == 1; }
}
// n slots -> n+1 slots: only the keys of slot n - p2(sh) move, those with bit sh set
pub proof fn lem_sidx_grow(x: int, n: int, sh: int)
    requires x >= 0, sh >= 0, p2(sh) <= n < p2(sh + 1)
    ensures ({ let sh1 = if n + 1 == p2(sh + 1) { sh + 1 } else { sh }; let low = n - p2(sh); let s = sidx(x, n, sh);
        &&& 0 <= low < n && 0 <= s < n
        &&& sidx(x, n + 1, sh1) == (if s == low && bitOf(x, sh) { n } else { s }) })
{
    let m = p2(sh); lem_p2_pos(sh); lem_p2_pos(sh + 1); lem_sidx(x, n, sh);
    assert(p2(sh + 1) == 2 * m && p2(sh + 2) == 2 * p2(sh + 1));
    let i = x % (2 * m);
    lem_mod2(x, m); lem_mod2(x, 2 * m);
    if n + 1 == 2 * m {
        let j = x % (4 * m);
        assert(j == i || j == i + 2 * m);
    }
}
// x % 2m in terms of x % m
pub proof fn lem_mod2(x: int, m: int)
    requires x >= 0, m >= 1
    ensures 0 <= x % m < m, x % (2 * m) == x % m + m * ((x / m) % 2), (x / m) % 2 == 0 || (x / m) % 2 == 1,
        x % (2 * m) == x % m || x % (2 * m) == x % m + m, (x / m) % 2 == 1 <==> x % (2 * m) >= m
{
    let q = x / m; let r = x % m; let b = q % 2; let p = q / 2;
    assert(x == m * q + r && 0 <= r < m && q >= 0) by(nonlinear_arith) requires x >= 0, m >= 1, q == x / m, r == x % m;
    assert(q == 2 * p + b && 0 <= b < 2);
    assert(x == (2 * m) * p + (r + m * b)) by(nonlinear_arith) requires x == m * q + r, q == 2 * p + b;
    assert(m * b == 0 || m * b == m) by(nonlinear_arith) requires b == 0 || b == 1;
    assert(b == 0 ==> m * b == 0) by(nonlinear_arith); assert(b == 1 ==> m * b == m) by(nonlinear_arith);
    lem_divmod(x, 2 * m, p, r + m * b);
}
// ---- filtering ---------------------------------------------------------------------
pub open spec fn filtAt(x: Seq<Itm>, bit: int, on: bool, j: int, p: int, i: int) -> bool { 0 <= i < j && filt(x, bit, on, j)[p] == x[i] && hbit(x[i], bit) == on }
pub open spec fn filtEx(x: Seq<Itm>, bit: int, on: bool, j: int, p: int) -> bool { exists|i: int| #[trigger] filtAt(x, bit, on, j, p, i) }
pub proof fn lem_filt(x: Seq<Itm>, bit: int, on: bool, j: int)
    requires distinct(x), 0 <= j <= x.len()
    ensures ({ let f = filt(x, bit, on, j);
        &&& distinct(f)
        &&& forall|p: int| 0 <= p < f.len() ==> #[trigger] filtEx(x, bit, on, j, p)
        &&& forall|i: int| 0 <= i < j && hbit(#[trigger] x[i], bit) == on ==> hasKey(f, x[i].k) && slk(f, x[i].k) == Some(x[i].v) })
    decreases j
{
    if j > 0 {
        lem_filt(x, bit, on, j - 1);
        let f0 = filt(x, bit, on, j - 1); let f = filt(x, bit, on, j);
        assert forall|p: int| 0 <= p < f0.len() implies (#[trigger] f0[p]).k != x[j - 1].k by { assert(filtEx(x, bit, on, j - 1, p)); let i = choose|i: int| #[trigger] filtAt(x, bit, on, j - 1, p, i); assert(x[i].k != x[j - 1].k); }
        assert forall|a: int, b: int| 0 <= a < b < f.len() implies (#[trigger] f[a]).k != (#[trigger] f[b]).k by { if b < f0.len() { assert(f0[a].k != f0[b].k); } else if a < f0.len() { assert(f0[a].k != x[j - 1].k); } }
        assert forall|p: int| 0 <= p < f.len() implies #[trigger] filtEx(x, bit, on, j, p) by {
            if p < f0.len() { assert(filtEx(x, bit, on, j - 1, p)); let i = choose|i: int| #[trigger] filtAt(x, bit, on, j - 1, p, i); assert(filtAt(x, bit, on, j, p, i)); } else { assert(filtAt(x, bit, on, j, p, j - 1)); }
        }
        assert forall|i: int| 0 <= i < j && hbit(#[trigger] x[i], bit) == on implies hasKey(f, x[i].k) && slk(f, x[i].k) == Some(x[i].v) by {
            let p = if i < j - 1 { assert(hasKey(f0, x[i].k)); let p = choose|p: int| 0 <= p < f0.len() && (#[trigger] f0[p]).k == x[i].k; lem_slk_at(f0, p); p } else { f.len() - 1 };
            assert(f[p].k == x[i].k && f[p].v == x[i].v); lem_slk_at(f, p);
        }
    }
}
pub proof fn lem_filt_key(x: Seq<Itm>, bit: int, on: bool, k: Seq<u8>)
    requires distinct(x)
    ensures ({ let f = filt(x, bit, on, x.len() as int);
        &&& distinct(f)
        &&& hasKey(f, k) == exists|i: int| 0 <= i < x.len() && (#[trigger] x[i]).k == k && hbit(x[i], bit) == on
        &&& hasKey(f, k) ==> slk(f, k) == slk(x, k) && hasKey(x, k) })
{
    let n = x.len() as int; let f = filt(x, bit, on, n); lem_filt(x, bit, on, n);
    if hasKey(f, k) {
        let p = choose|p: int| 0 <= p < f.len() && (#[trigger] f[p]).k == k; assert(filtEx(x, bit, on, n, p)); let i = choose|i: int| #[trigger] filtAt(x, bit, on, n, p, i);
        assert(x[i].k == k); lem_slk_at(x, i);
    }
}
pub proof fn lem_filt_tot(x: Seq<Itm>, bit: int, j: int)
    requires 0 <= j <= x.len()
    ensures filt(x, bit, false, j).len() + filt(x, bit, true, j).len() == j, tota(filt(x, bit, false, j)) + tota(filt(x, bit, true, j)) == tot(x, j)
    decreases j
{
    if j > 0 {
        lem_filt_tot(x, bit, j - 1);
        let on = hbit(x[j - 1], bit);
        lem_tota_push(filt(x, bit, on, j - 1), x[j - 1]);
    }
}
pub proof fn lem_tot_ext(x: Seq<Itm>, y: Seq<Itm>, j: int)
    requires 0 <= j <= x.len(), j <= y.len(), forall|i: int| 0 <= i < j ==> x[i] == y[i]
    ensures tot(x, j) == tot(y, j)
    decreases j
{ if j > 0 { lem_tot_ext(x, y, j - 1); } }
pub open spec fn isz(e: Itm) -> int { e.k.len() as int + e.v.len() as int }
pub proof fn lem_tota_push(x: Seq<Itm>, e: Itm)
    ensures tota(x.push(e)) == tota(x) + isz(e)
{ lem_tot_ext(x, x.push(e), x.len() as int); }
// ---- merging -------------------------------------------------------------------------
pub proof fn lem_merged_src(m: Seq<Itm>, a: Seq<Itm>, b: Seq<Itm>)
    requires merged(m, a, b)
    ensures
        forall|j: int| 0 <= j < m.len() ==> mfrom(m, a, b, #[trigger] m[j], j),
        forall|i: int| 0 <= i < a.len() ==> m.contains(#[trigger] a[i]),
        forall|i: int| 0 <= i < b.len() ==> m.contains(#[trigger] b[i]),
{
    let n = z_min(a.len() as int, b.len() as int);
    assert forall|j: int| 0 <= j < m.len() implies mfrom(m, a, b, #[trigger] m[j], j) by {
        if j < 2 * n { assert(mergePair(m, a, b, j / 2)); }
        else if a.len() > b.len() { assert(m[n + (j - n)] == a[j - n]); } else { assert(m[n + (j - n)] == b[j - n]); }
    }
    assert forall|i: int| 0 <= i < a.len() implies m.contains(#[trigger] a[i]) by { if i < n { assert(mergePair(m, a, b, i)); if m[2 * i] == a[i] { assert(m[2 * i] == a[i]); } else { assert(m[2 * i + 1] == a[i]); } } else { assert(m[n + i] == a[i]); } }
    assert forall|i: int| 0 <= i < b.len() implies m.contains(#[trigger] b[i]) by { if i < n { assert(mergePair(m, a, b, i)); if m[2 * i] == b[i] { assert(m[2 * i] == b[i]); } else { assert(m[2 * i + 1] == b[i]); } } else { assert(m[n + i] == b[i]); } }
}
// where element j of m comes from
pub open spec fn mfrom(m: Seq<Itm>, a: Seq<Itm>, b: Seq<Itm>, e: Itm, j: int) -> bool {
    let n = z_min(a.len() as int, b.len() as int); let i = if j < 2 * n { j / 2 } else { j - n };
    (0 <= i < a.len() && e == a[i] && (j < 2 * n || a.len() > b.len()) && (j < 2 * n ==> m[4 * i + 1 - j] == b[i]))
    || (0 <= i < b.len() && e == b[i] && (j < 2 * n || a.len() <= b.len()) && (j < 2 * n ==> m[4 * i + 1 - j] == a[i]))
}
pub open spec fn disj(a: Seq<Itm>, b: Seq<Itm>) -> bool { forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() ==> (#[trigger] a[i]).k != (#[trigger] b[j]).k }
pub proof fn lem_merged(m: Seq<Itm>, a: Seq<Itm>, b: Seq<Itm>)
    requires merged(m, a, b), distinct(a), distinct(b), disj(a, b)
    ensures distinct(m), forall|k: Seq<u8>| #[trigger] slk(m, k) == (if hasKey(a, k) { slk(a, k) } else { slk(b, k) }),
        forall|j: int| 0 <= j < m.len() ==> a.contains(#[trigger] m[j]) || b.contains(m[j]),
{
    let n = z_min(a.len() as int, b.len() as int);
    lem_merged_src(m, a, b);
    assert forall|x: int, y: int| 0 <= x < y < m.len() implies (#[trigger] m[x]).k != (#[trigger] m[y]).k by {
        assert(mfrom(m, a, b, m[x], x)); assert(mfrom(m, a, b, m[y], y));
        let i = if x < 2 * n { x / 2 } else { x - n }; let j = if y < 2 * n { y / 2 } else { y - n };
        assert(i <= j);
        if i == j { assert(y < 2 * n && y == x + 1 && 4 * i + 1 - x == y); assert(a[i].k != b[i].k); assert((m[x] == a[i] && m[y] == b[i]) || (m[x] == b[i] && m[y] == a[i])); }
        else {
            if j < a.len() { assert(a[i].k != a[j].k); } if j < b.len() { assert(b[i].k != b[j].k); }
            if i < a.len() && j < b.len() { assert(a[i].k != b[j].k); } if i < b.len() && j < a.len() { assert(a[j].k != b[i].k); }
        }
    }
    assert forall|j: int| 0 <= j < m.len() implies a.contains(#[trigger] m[j]) || b.contains(m[j]) by { assert(mfrom(m, a, b, m[j], j)); }
    assert forall|k: Seq<u8>| #[trigger] slk(m, k) == (if hasKey(a, k) { slk(a, k) } else { slk(b, k) }) by {
        if hasKey(a, k) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).k == k; lem_slk_at(a, i); assert(m.contains(a[i])); let j = choose|j: int| 0 <= j < m.len() && m[j] == a[i]; lem_slk_at(m, j); }
        else if hasKey(b, k) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).k == k; lem_slk_at(b, i); assert(m.contains(b[i])); let j = choose|j: int| 0 <= j < m.len() && m[j] == b[i]; lem_slk_at(m, j); }
        else if hasKey(m, k) { let j = choose|j: int| 0 <= j < m.len() && (#[trigger] m[j]).k == k; assert(a.contains(m[j]) || b.contains(m[j]));
            if a.contains(m[j]) { let i = choose|i: int| 0 <= i < a.len() && a[i] == m[j]; assert(a[i].k == k); } else { let i = choose|i: int| 0 <= i < b.len() && b[i] == m[j]; assert(b[i].k == k); } }
    }
}
pub proof fn lem_merged_tot2(m: Seq<Itm>, a: Seq<Itm>, b: Seq<Itm>, i: int)
    requires merged(m, a, b), 0 <= i <= z_min(a.len() as int, b.len() as int)
    ensures tot(m, 2 * i) == tot(a, i) + tot(b, i)
    decreases i
{ if i > 0 { lem_merged_tot2(m, a, b, i - 1); assert(mergePair(m, a, b, i - 1)); assert(tot(m, 2 * i) == tot(m, 2 * i - 1) + isz(m[2 * i - 1])); assert(tot(m, 2 * i - 1) == tot(m, 2 * i - 2) + isz(m[2 * i - 2])); } }
pub proof fn lem_tot_shift(m: Seq<Itm>, a: Seq<Itm>, n: int, i: int)
    requires 0 <= n <= i <= a.len(), n + i <= m.len(), forall|j: int| n <= j < i ==> m[n + j] == #[trigger] a[j]
    ensures tot(m, n + i) - tot(m, 2 * n) == tot(a, i) - tot(a, n)
    decreases i
{ if i > n { lem_tot_shift(m, a, n, i - 1); assert(m[n + i - 1] == a[i - 1]) by { assert(m[n + (i - 1)] == a[i - 1]); } } }
pub proof fn lem_merged_tot(m: Seq<Itm>, a: Seq<Itm>, b: Seq<Itm>)
    requires merged(m, a, b)
    ensures tota(m) == tota(a) + tota(b)
{
    let n = z_min(a.len() as int, b.len() as int);
    lem_merged_tot2(m, a, b, n);
    if a.len() >= b.len() { lem_tot_shift(m, a, n, a.len() as int); } else { lem_tot_shift(m, b, n, b.len() as int); }
}
// ---- sums over slots -------------------------------------------------------------------
pub proof fn lem_sums_ext(X: Seq<Seq<Itm>>, Y: Seq<Seq<Itm>>, n: int)
    requires 0 <= n <= X.len(), n <= Y.len(), forall|s: int| 0 <= s < n ==> X[s] == Y[s]
    ensures nitems(X, n) == nitems(Y, n), npay(X, n) == npay(Y, n)
    decreases n
{ if n > 0 { lem_sums_ext(X, Y, n - 1); } }
pub proof fn lem_sums_upd(X: Seq<Seq<Itm>>, s: int, y: Seq<Itm>, n: int)
    requires 0 <= s < n <= X.len()
    ensures nitems(X.update(s, y), n) == nitems(X, n) - X[s].len() + y.len(), npay(X.update(s, y), n) == npay(X, n) - tota(X[s]) + tota(y)
    decreases n
{ if s == n - 1 { lem_sums_ext(X, X.update(s, y), n - 1); } else { lem_sums_upd(X, s, y, n - 1); } }
// ---- the table before and after one slot was split (or the reverse) ----------------------
// X has n slots, Y has n+1; slot low of X holds what slots low and n of Y hold
pub open spec fn grown(X: Seq<Seq<Itm>>, Y: Seq<Seq<Itm>>, sh: int, sh1: int) -> bool {
    let n = X.len() as int; let low = n - p2(sh);
    &&& sh >= 0 && p2(sh) <= n < p2(sh + 1) && sh1 == (if n + 1 == p2(sh + 1) { sh + 1 } else { sh }) && Y.len() == n + 1
    &&& forall|s: int| 0 <= s < n && s != low ==> X[s] == #[trigger] Y[s]
    &&& nitems(X, n) == nitems(Y, n + 1) && npay(X, n) == npay(Y, n + 1)
}
pub proof fn lem_mget_grown(X: Seq<Seq<Itm>>, Y: Seq<Seq<Itm>>, sh: int, sh1: int)
    requires grown(X, Y, sh, sh1),
        ({ let n = X.len() as int; let low = n - p2(sh);
           forall|k: Seq<u8>| sidx(fnv64a(k), n, sh) == low ==> #[trigger] slk(X[low], k) == slk(if bitOf(fnv64a(k), sh) { Y[n] } else { Y[low] }, k) })
    ensures forall|k: Seq<u8>| #[trigger] mget(X, sh, k) == mget(Y, sh1, k)
{
    let n = X.len() as int; let low = n - p2(sh);
    assert forall|k: Seq<u8>| #[trigger] mget(X, sh, k) == mget(Y, sh1, k) by { lem_fnv(k); lem_sidx_grow(fnv64a(k), n, sh); let s = sidx(fnv64a(k), n, sh); if s == low { assert(slk(X[low], k) == slk(if bitOf(fnv64a(k), sh) { Y[n] } else { Y[low] }, k)); } }
}
pub proof fn lem_expand(X: Seq<Seq<Itm>>, sh: int, sh1: int)
    requires sh >= 0, p2(sh) <= X.len() < p2(sh + 1), conOK(X, sh), sh1 == (if X.len() + 1 == p2(sh + 1) { sh + 1 } else { sh })
    ensures ({ let n = X.len() as int; let low = n - p2(sh); let x = X[low];
        let Y = X.update(low, filt(x, p2(sh), false, x.len() as int)).push(filt(x, p2(sh), true, x.len() as int));
        &&& 0 <= low < n && conOK(Y, sh1) && nitems(Y, n + 1) == nitems(X, n) && npay(Y, n + 1) == npay(X, n)
        &&& forall|k: Seq<u8>| #[trigger] mget(Y, sh1, k) == mget(X, sh, k) })
{
    let n = X.len() as int; let low = n - p2(sh); let b = p2(sh);
    lem_p2_pos(sh); lem_p2_pos(sh + 1); assert(p2(sh + 1) == 2 * p2(sh));
    let x = X[low]; let L = x.len() as int;
    let f = filt(x, b, false, L); let g = filt(x, b, true, L);
    let Z = X.update(low, f); let Y = Z.push(g);
    assert(distinct(x) && slotIn(x, low, n, sh));
    lem_filt(x, b, false, L); lem_filt(x, b, true, L); lem_filt_tot(x, b, L);
    lem_sums_upd(X, low, f, n); lem_sums_ext(Z, Y, n);
    assert forall|s: int| 0 <= s < Y.len() implies distinct(#[trigger] Y[s]) && slotIn(Y[s], s, n + 1, sh1) by { lem_expand_slot(X, sh, sh1, s); }
    assert(grown(X, Y, sh, sh1));
    assert forall|k: Seq<u8>| sidx(fnv64a(k), n, sh) == low implies #[trigger] slk(X[low], k) == slk(if bitOf(fnv64a(k), sh) { Y[n] } else { Y[low] }, k) by {
        lem_filt_key(x, b, false, k); lem_filt_key(x, b, true, k);
        if hasKey(x, k) { let i = choose|i: int| 0 <= i < x.len() && (#[trigger] x[i]).k == k; lem_hbit(x[i], sh); if bitOf(fnv64a(k), sh) { assert(hasKey(g, k)); } else { assert(hasKey(f, k)); } }
    }
    lem_mget_grown(X, Y, sh, sh1);
    assert forall|k: Seq<u8>| #[trigger] mget(Y, sh1, k) == mget(X, sh, k) by { assert(mget(X, sh, k) == mget(Y, sh1, k)); }
}
pub proof fn lem_expand_slot(X: Seq<Seq<Itm>>, sh: int, sh1: int, s: int)
    requires sh >= 0, p2(sh) <= X.len() < p2(sh + 1), conOK(X, sh), sh1 == (if X.len() + 1 == p2(sh + 1) { sh + 1 } else { sh }), 0 <= s <= X.len()
    ensures ({ let n = X.len() as int; let low = n - p2(sh); let x = X[low];
        let Y = X.update(low, filt(x, p2(sh), false, x.len() as int)).push(filt(x, p2(sh), true, x.len() as int));
        distinct(Y[s]) && slotIn(Y[s], s, n + 1, sh1) })
{
    let n = X.len() as int; let low = n - p2(sh); let b = p2(sh); lem_p2_pos(sh); assert(p2(sh + 1) == 2 * p2(sh));
    let x = X[low]; let L = x.len() as int; let f = filt(x, b, false, L); let g = filt(x, b, true, L);
    let y = if s == low { f } else if s == n { g } else { X[s] };
    assert(distinct(x) && slotIn(x, low, n, sh));
    lem_filt(x, b, false, L); lem_filt(x, b, true, L);
    assert(s < n && s != low ==> distinct(X[s]) && slotIn(X[s], s, n, sh));
    assert forall|p: int| 0 <= p < y.len() implies itOK(#[trigger] y[p]) && sidx(fnv64a(y[p].k), n + 1, sh1) == s by {
        lem_fnv(y[p].k); lem_sidx_grow(fnv64a(y[p].k), n, sh);
        if s == low { assert(filtEx(x, b, false, L, p)); let i = choose|i: int| #[trigger] filtAt(x, b, false, L, p, i); assert(itOK(x[i])); lem_hbit(x[i], sh); }
        else if s == n { assert(filtEx(x, b, true, L, p)); let i = choose|i: int| #[trigger] filtAt(x, b, true, L, p, i); assert(itOK(x[i])); lem_hbit(x[i], sh); }
        else { assert(itOK(X[s][p])); }
    }
}
// the reverse: the last slot of Y is merged into slot low
pub proof fn lem_shrink(Y: Seq<Seq<Itm>>, sh: int, sh1: int, m: Seq<Itm>)
    requires Y.len() >= 2, sh >= 0, ({ let n = Y.len() - 1; let low = n - p2(sh);
        p2(sh) <= n < p2(sh + 1) && sh1 == (if n + 1 == p2(sh + 1) { sh + 1 } else { sh }) && conOK(Y, sh1) && merged(m, Y[n], Y[low]) })
    ensures ({ let n = Y.len() - 1; let low = n - p2(sh); let X = Y.drop_last().update(low, m);
        &&& 0 <= low < n && conOK(X, sh) && nitems(X, n) == nitems(Y, n + 1) && npay(X, n) == npay(Y, n + 1)
        &&& forall|k: Seq<u8>| #[trigger] mget(X, sh, k) == mget(Y, sh1, k) })
{
    let n = Y.len() - 1; let low = n - p2(sh); let X = Y.drop_last().update(low, m);
    lem_p2_pos(sh); lem_p2_pos(sh + 1); assert(p2(sh + 1) == 2 * p2(sh));
    let a = Y[n]; let b = Y[low];
    assert(distinct(a) && slotIn(a, n, n + 1, sh1)); assert(distinct(b) && slotIn(b, low, n + 1, sh1));
    assert(disj(a, b)) by { assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() implies (#[trigger] a[i]).k != (#[trigger] b[j]).k by { assert(itOK(a[i])); assert(itOK(b[j])); } }
    lem_merged(m, a, b); lem_merged_tot(m, a, b);
    lem_sums_ext(Y, Y.drop_last(), n); lem_sums_upd(Y.drop_last(), low, m, n);
    assert forall|s: int| 0 <= s < X.len() implies distinct(#[trigger] X[s]) && slotIn(X[s], s, n, sh) by {
        assert(distinct(Y[s]) && slotIn(Y[s], s, n + 1, sh1));
        assert forall|p: int| 0 <= p < X[s].len() implies itOK(#[trigger] X[s][p]) && sidx(fnv64a(X[s][p].k), n, sh) == s by {
            let e = X[s][p]; lem_fnv(e.k); lem_sidx_grow(fnv64a(e.k), n, sh);
            if s == low { assert(a.contains(m[p]) || b.contains(m[p])); if a.contains(m[p]) { let i = choose|i: int| 0 <= i < a.len() && a[i] == m[p]; assert(itOK(a[i])); } else { let i = choose|i: int| 0 <= i < b.len() && b[i] == m[p]; assert(itOK(b[i])); } }
            else { assert(itOK(Y[s][p])); }
        }
    }
    assert(grown(X, Y, sh, sh1));
    assert forall|k: Seq<u8>| sidx(fnv64a(k), n, sh) == low implies #[trigger] slk(X[low], k) == slk(if bitOf(fnv64a(k), sh) { Y[n] } else { Y[low] }, k) by {
        lem_fnv(k); lem_sidx_grow(fnv64a(k), n, sh);
        assert(slk(m, k) == (if hasKey(a, k) { slk(a, k) } else { slk(b, k) }));
        if hasKey(a, k) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).k == k; assert(itOK(a[i])); }
        if hasKey(b, k) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).k == k; assert(itOK(b[i])); }
    }
    lem_mget_grown(X, Y, sh, sh1);
}
