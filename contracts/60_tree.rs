// ---- the tree as a sequence of levels ---------------------------------------------------
//
// Level 0 is the root alone; level d+1 lists the children of the nodes of level d from left
// to right. An entry is the address of a node and the key that separates it from the nodes to
// its left (the empty key for the leftmost node).
pub open spec fn bp(m: Mem, a: int) -> Seq<u8> { m[-1 - a] }
pub open spec fn kidsA(m: Mem, e: Chd) -> Seq<Chd> { rk(cchs(bp(m, e.a)), e.k) }
pub open spec fn exf(m: Mem, x: Seq<Chd>) -> Seq<Chd> decreases x.len() {
    if x.len() == 0 { Seq::<Chd>::empty() } else { exf(m, x.subrange(0, x.len() - 1)) + kidsA(m, x[x.len() - 1]) }
}
pub open spec fn off(m: Mem, x: Seq<Chd>, p: int) -> int { exf(m, x.subrange(0, p)).len() as int }
pub open spec fn root1(root: int) -> Seq<Chd> { seq![Chd { k: ek(), a: root }] }
pub open spec fn lev(m: Mem, root: int, d: int) -> Seq<Chd> decreases d {
    if d <= 0 { root1(root) } else { exf(m, lev(m, root, d - 1)) }
}
pub open spec fn levs(m: Mem, root: int, n: int) -> Seq<Seq<Chd>> { Seq::new(n as nat, |d: int| lev(m, root, d)) }
pub open spec fn rep1(m: Mem, L: Seq<Seq<Chd>>, d: int) -> bool { L[d + 1] == exf(m, L[d]) }
pub open spec fn rep(m: Mem, root: int, L: Seq<Seq<Chd>>) -> bool {
    &&& L.len() >= 1 && L[0] == root1(root)
    &&& forall|d: int| 0 <= d < L.len() - 1 ==> #[trigger] rep1(m, L, d)
}
pub proof fn lem_levs(m: Mem, root: int, n: int)
    requires n >= 1
    ensures rep(m, root, levs(m, root, n)), levs(m, root, n).len() == n
{
    let L = levs(m, root, n);
    assert forall|d: int| 0 <= d < L.len() - 1 implies #[trigger] rep1(m, L, d) by { assert(L[d] == lev(m, root, d)); assert(L[d + 1] == lev(m, root, d + 1)); }
}
pub proof fn lem_rep_at(m: Mem, root: int, L: Seq<Seq<Chd>>, d: int)
    requires rep(m, root, L), 0 <= d < L.len()
    ensures L[d] == lev(m, root, d)
    decreases d
{ if d > 0 { lem_rep_at(m, root, L, d - 1); assert(rep1(m, L, d - 1)); } }
pub proof fn lem_rep(m: Mem, root: int, L: Seq<Seq<Chd>>)
    requires rep(m, root, L)
    ensures L == levs(m, root, L.len() as int)
{
    assert forall|d: int| 0 <= d < L.len() implies L[d] == levs(m, root, L.len() as int)[d] by { lem_rep_at(m, root, L, d); }
    assert(L =~= levs(m, root, L.len() as int));
}
pub proof fn lem_exf_cat(m: Mem, x: Seq<Chd>, y: Seq<Chd>)
    ensures exf(m, x + y) == exf(m, x) + exf(m, y)
    decreases y.len()
{
    if y.len() == 0 { assert(x + y =~= x); assert(exf(m, x) + exf(m, y) =~= exf(m, x)); }
    else {
        let n = y.len() - 1; let z = x + y;
        lem_exf_cat(m, x, y.subrange(0, n));
        assert(z.subrange(0, z.len() - 1) =~= x + y.subrange(0, n));
        assert(z[z.len() - 1] == y[n]);
        assert(exf(m, z) =~= exf(m, x) + exf(m, y));
    }
}
pub proof fn lem_exf1(m: Mem, e: Chd)
    ensures exf(m, seq![e]) == kidsA(m, e)
{ assert(seq![e].subrange(0, 0) =~= Seq::<Chd>::empty()); assert(seq![e].subrange(0, seq![e].len() - 1) =~= Seq::<Chd>::empty()); assert(exf(m, Seq::<Chd>::empty()) =~= Seq::<Chd>::empty()); assert(seq![e][0] == e); assert(exf(m, seq![e]) == exf(m, seq![e].subrange(0, seq![e].len() - 1)) + kidsA(m, e)); assert(exf(m, seq![e]) =~= kidsA(m, e)); }
pub proof fn lem_exf_same(m0: Mem, m: Mem, x: Seq<Chd>)
    requires forall|j: int| 0 <= j < x.len() ==> bp(m, #[trigger] x[j].a) == bp(m0, x[j].a)
    ensures exf(m, x) == exf(m0, x)
    decreases x.len()
{
    if x.len() > 0 {
        let y = x.subrange(0, x.len() - 1);
        assert forall|j: int| 0 <= j < y.len() implies bp(m, #[trigger] y[j].a) == bp(m0, y[j].a) by { assert(y[j] == x[j]); }
        lem_exf_same(m0, m, y); assert(bp(m, x[x.len() - 1].a) == bp(m0, x[x.len() - 1].a));
    }
}
// the children of node p of a level within the next level
pub proof fn lem_exf_at(m: Mem, x: Seq<Chd>, p: int)
    requires 0 <= p < x.len()
    ensures ({ let n = x.len() as int; let F = exf(m, x); let o = off(m, x, p); let c = kidsA(m, x[p]);
        0 <= o && o + c.len() <= F.len() && F.subrange(0, o) == exf(m, x.subrange(0, p)) && F.subrange(o, o + c.len()) == c
        && F.subrange(o + c.len(), F.len() as int) == exf(m, x.subrange(p + 1, n)) && off(m, x, p + 1) == o + c.len() && (forall|j: int| 0 <= j < c.len() ==> F[o + j] == #[trigger] c[j]) })
{
    let n = x.len() as int; let u = x.subrange(0, p); let v = x.subrange(p + 1, n); let e = seq![x[p]];
    assert(x =~= u + (e + v)); lem_exf_cat(m, u, e + v); lem_exf_cat(m, e, v); lem_exf1(m, x[p]); lem_exf_cat(m, u, e);
    assert(x.subrange(0, p + 1) =~= u + e);
    let F = exf(m, x); let c = kidsA(m, x[p]); let o = off(m, x, p);
    assert(F == exf(m, u) + (c + exf(m, v)));
    assert(F.subrange(0, o) =~= exf(m, u)); assert(F.subrange(o, o + c.len()) =~= c); assert(F.subrange(o + c.len(), F.len() as int) =~= exf(m, v));
    assert forall|j: int| 0 <= j < c.len() implies F[o + j] == #[trigger] c[j] by { assert(F.subrange(o, o + c.len())[j] == F[o + j]); }
}
pub open spec fn winr(F: Seq<Chd>, a: int, b: int, w: Seq<Chd>) -> Seq<Chd> { F.subrange(0, a) + w + F.subrange(b, F.len() as int) }
// the children of one node change
pub proof fn lem_pwin(m0: Mem, m: Mem, x: Seq<Chd>, p: int, lo: int, hi: int, w: Seq<Chd>)
    requires 0 <= p < x.len(), forall|j: int| 0 <= j < x.len() && j != p ==> bp(m, #[trigger] x[j].a) == bp(m0, x[j].a),
        0 <= lo <= hi <= kidsA(m0, x[p]).len(), kidsA(m, x[p]) == winr(kidsA(m0, x[p]), lo, hi, w),
    ensures ({ let o = off(m0, x, p); let F = exf(m0, x); 0 <= o && o + hi <= F.len() && exf(m, x) == winr(F, o + lo, o + hi, w) && F.subrange(o + lo, o + hi) == kidsA(m0, x[p]).subrange(lo, hi) })
{
    let n = x.len() as int; let u = x.subrange(0, p); let v = x.subrange(p + 1, n);
    lem_exf_at(m0, x, p); lem_exf_at(m, x, p);
    assert forall|j: int| 0 <= j < u.len() implies bp(m, #[trigger] u[j].a) == bp(m0, u[j].a) by { assert(u[j] == x[j]); }
    assert forall|j: int| 0 <= j < v.len() implies bp(m, #[trigger] v[j].a) == bp(m0, v[j].a) by { assert(v[j] == x[p + 1 + j]); }
    lem_exf_same(m0, m, u); lem_exf_same(m0, m, v);
    let o = off(m0, x, p); let F = exf(m0, x); let G = exf(m, x); let c = kidsA(m0, x[p]); let d = kidsA(m, x[p]);
    assert(F.subrange(o + lo, o + hi) =~= c.subrange(lo, hi)) by { assert forall|j: int| 0 <= j < hi - lo implies F.subrange(o + lo, o + hi)[j] == c.subrange(lo, hi)[j] by { assert(F[o + (lo + j)] == c[lo + j]); } }
    assert(G =~= G.subrange(0, o) + d + G.subrange(o + d.len(), G.len() as int)) by { }
    assert(F.subrange(0, o) + c.subrange(0, lo) =~= F.subrange(0, o + lo)) by { assert forall|j: int| o <= j < o + lo implies F[j] == c.subrange(0, lo)[j - o] by { assert(F[o + (j - o)] == c[j - o]); } }
    assert(c.subrange(hi, c.len() as int) + F.subrange(o + c.len(), F.len() as int) =~= F.subrange(o + hi, F.len() as int)) by { assert forall|j: int| hi <= j < c.len() implies F[o + j] == c[j] by { } }
    assert(G =~= winr(F, o + lo, o + hi, w));
}
// a window of a level is replaced by nodes with the same children
pub proof fn lem_down(m0: Mem, m: Mem, F: Seq<Chd>, a: int, b: int, w: Seq<Chd>)
    requires 0 <= a <= b <= F.len(), exf(m, w) == exf(m0, F.subrange(a, b)),
        forall|j: int| 0 <= j < F.len() && !(a <= j < b) ==> bp(m, #[trigger] F[j].a) == bp(m0, F[j].a),
    ensures exf(m, winr(F, a, b, w)) == exf(m0, F)
{
    let u = F.subrange(0, a); let v = F.subrange(b, F.len() as int); let w0 = F.subrange(a, b);
    assert forall|j: int| 0 <= j < u.len() implies bp(m, #[trigger] u[j].a) == bp(m0, u[j].a) by { assert(u[j] == F[j]); }
    assert forall|j: int| 0 <= j < v.len() implies bp(m, #[trigger] v[j].a) == bp(m0, v[j].a) by { assert(v[j] == F[b + j]); }
    lem_exf_same(m0, m, u); lem_exf_same(m0, m, v);
    lem_exf_cat(m, u + w, v); lem_exf_cat(m, u, w);
    assert(F =~= u + w0 + v); lem_exf_cat(m0, u + w0, v); lem_exf_cat(m0, u, w0);
}
// ---- the pages of the tree are distinct and are all that is allocated ---------------------
pub open spec fn adr(L: Seq<Seq<Chd>>, d: int, j: int) -> int { L[d][j].a }
pub open spec fn inL(L: Seq<Seq<Chd>>, d: int, j: int) -> bool { 0 <= d < L.len() && 0 <= j < L[d].len() }
pub open spec fn at(L: Seq<Seq<Chd>>, d: int, j: int, a: int) -> bool { inL(L, d, j) && adr(L, d, j) == a }
pub open spec fn inLev(L: Seq<Seq<Chd>>, a: int) -> bool { exists|d: int, j: int| #[trigger] at(L, d, j, a) }
#[verifier::opaque]
pub open spec fn dist(L: Seq<Seq<Chd>>) -> bool {
    forall|d1: int, j1: int, d2: int, j2: int| inL(L, d1, j1) && inL(L, d2, j2) && #[trigger] adr(L, d1, j1) == #[trigger] adr(L, d2, j2) ==> d1 == d2 && j1 == j2
}
pub open spec fn alive(L: Seq<Seq<Chd>>, al: Set<int>) -> bool { forall|d: int, j: int| inL(L, d, j) ==> al.contains(#[trigger] adr(L, d, j)) }
pub open spec fn exact(L: Seq<Seq<Chd>>, al: Set<int>) -> bool { forall|a: int| #[trigger] al.contains(a) ==> inLev(L, a) }
pub open spec fn tight(L: Seq<Seq<Chd>>, al: Set<int>) -> bool { dist(L) && alive(L, al) && exact(L, al) }
pub proof fn lem_dist(L: Seq<Seq<Chd>>, d1: int, j1: int, d2: int, j2: int)
    requires dist(L), inL(L, d1, j1), inL(L, d2, j2), L[d1][j1].a == L[d2][j2].a
    ensures d1 == d2 && j1 == j2
{ reveal(dist); assert(adr(L, d1, j1) == adr(L, d2, j2)); }
pub proof fn lem_tight_same(L: Seq<Seq<Chd>>, K: Seq<Seq<Chd>>, al: Set<int>)
    requires tight(L, al), K.len() == L.len(), forall|d: int| 0 <= d < L.len() ==> (#[trigger] K[d]).len() == L[d].len(),
        forall|d: int, j: int| inL(L, d, j) ==> (#[trigger] K[d][j]).a == L[d][j].a
    ensures tight(K, al)
{
    assert forall|d: int, j: int| inL(K, d, j) implies inL(L, d, j) && #[trigger] adr(K, d, j) == adr(L, d, j) by { assert(K[d].len() == L[d].len()); assert(K[d][j].a == L[d][j].a); }
    assert(dist(K)) by { reveal(dist); }
    assert forall|a: int| #[trigger] al.contains(a) implies inLev(K, a) by {
        assert(inLev(L, a)); let (d, j) = choose|d: int, j: int| #[trigger] at(L, d, j, a);
        assert(K[d].len() == L[d].len()); assert(K[d][j].a == L[d][j].a); assert(at(K, d, j, a));
    }
}
pub proof fn lem_tight_ins(L: Seq<Seq<Chd>>, i: int, q: int, e: Chd, al: Set<int>)
    requires tight(L, al), 0 <= i < L.len(), 0 <= q <= L[i].len(), !al.contains(e.a)
    ensures tight(L.update(i, L[i].insert(q, e)), al.insert(e.a))
{
    let K = L.update(i, L[i].insert(q, e)); let al2 = al.insert(e.a);
    assert(K[i].len() == L[i].len() + 1);
    // where an entry of K comes from
    assert forall|d: int, j: int| inL(K, d, j) implies (if d == i && j == q { #[trigger] adr(K, d, j) == e.a } else { let j2 = if d == i && j > q { j - 1 } else { j }; inL(L, d, j2) && adr(K, d, j) == adr(L, d, j2) && al.contains(adr(K, d, j)) }) by {
        let j2 = if d == i && j > q { j - 1 } else { j };
        if d == i { if j < q { assert(K[d][j] == L[d][j]); } else if j > q { assert(K[d][j] == L[d][j - 1]); } else { assert(K[d][j] == e); } }
        if !(d == i && j == q) { assert(inL(L, d, j2)); assert(adr(K, d, j) == adr(L, d, j2)); }
    }
    assert(dist(K)) by {
        reveal(dist);
        assert forall|d1: int, j1: int, d2: int, j2: int| inL(K, d1, j1) && inL(K, d2, j2) && #[trigger] adr(K, d1, j1) == #[trigger] adr(K, d2, j2) implies d1 == d2 && j1 == j2 by {
            let k1 = if d1 == i && j1 > q { j1 - 1 } else { j1 }; let k2 = if d2 == i && j2 > q { j2 - 1 } else { j2 };
            if d1 == i && j1 == q { } else if d2 == i && j2 == q { } else { assert(adr(L, d1, k1) == adr(L, d2, k2)); }
        }
    }
    assert forall|a: int| #[trigger] al2.contains(a) implies inLev(K, a) by {
        if a == e.a { assert(at(K, i, q, a)); }
        else { assert(inLev(L, a)); let (d, j) = choose|d: int, j: int| #[trigger] at(L, d, j, a); let k = if d == i && j >= q { j + 1 } else { j };
            if d == i { assert(K[d][k] == L[d][j]); } assert(at(K, d, k, a)); }
    }
}
pub proof fn lem_tight_rem(L: Seq<Seq<Chd>>, i: int, q: int, al: Set<int>)
    requires tight(L, al), 0 <= i < L.len(), 0 <= q < L[i].len()
    ensures tight(L.update(i, L[i].remove(q)), al.remove(L[i][q].a))
{
    let K = L.update(i, L[i].remove(q)); let x = L[i][q].a; let al2 = al.remove(x);
    assert(K[i].len() == L[i].len() - 1);
    assert(adr(L, i, q) == x);
    assert forall|d: int, j: int| inL(K, d, j) implies ({ let j2 = if d == i && j >= q { j + 1 } else { j }; inL(L, d, j2) && #[trigger] adr(K, d, j) == adr(L, d, j2) && al2.contains(adr(K, d, j)) }) by {
        let j2 = if d == i && j >= q { j + 1 } else { j };
        if d == i { assert(K[d][j] == L[d][j2]); }
        assert(inL(L, d, j2)); assert(adr(K, d, j) == adr(L, d, j2));
        if adr(L, d, j2) == x { lem_dist(L, d, j2, i, q); }
    }
    assert(dist(K)) by {
        reveal(dist);
        assert forall|d1: int, j1: int, d2: int, j2: int| inL(K, d1, j1) && inL(K, d2, j2) && #[trigger] adr(K, d1, j1) == #[trigger] adr(K, d2, j2) implies d1 == d2 && j1 == j2 by {
            let k1 = if d1 == i && j1 >= q { j1 + 1 } else { j1 }; let k2 = if d2 == i && j2 >= q { j2 + 1 } else { j2 };
            assert(adr(L, d1, k1) == adr(L, d2, k2));
        }
    }
    assert forall|a: int| #[trigger] al2.contains(a) implies inLev(K, a) by {
        assert(al.contains(a)); assert(inLev(L, a)); let (d, j) = choose|d: int, j: int| #[trigger] at(L, d, j, a); let k = if d == i && j > q { j - 1 } else { j };
        if d == i { assert(j != q); assert(K[d][k] == L[d][j]); } assert(at(K, d, k, a));
    }
}
pub proof fn lem_tight_raise(L: Seq<Seq<Chd>>, r: int, al: Set<int>)
    requires tight(L, al), !al.contains(r)
    ensures tight(seq![root1(r)] + L, al.insert(r))
{
    let K = seq![root1(r)] + L; let al2 = al.insert(r);
    assert(K[0] == root1(r));
    assert forall|d: int, j: int| inL(K, d, j) implies (if d == 0 { j == 0 && #[trigger] adr(K, d, j) == r } else { inL(L, d - 1, j) && adr(K, d, j) == adr(L, d - 1, j) && al.contains(adr(K, d, j)) }) by {
        if d > 0 { assert(K[d] == L[d - 1]); assert(adr(K, d, j) == adr(L, d - 1, j)); }
    }
    assert(dist(K)) by {
        reveal(dist);
        assert forall|d1: int, j1: int, d2: int, j2: int| inL(K, d1, j1) && inL(K, d2, j2) && #[trigger] adr(K, d1, j1) == #[trigger] adr(K, d2, j2) implies d1 == d2 && j1 == j2 by {
            if d1 > 0 && d2 > 0 { assert(adr(L, d1 - 1, j1) == adr(L, d2 - 1, j2)); }
        }
    }
    assert forall|a: int| #[trigger] al2.contains(a) implies inLev(K, a) by {
        if a == r { assert(at(K, 0, 0, a)); }
        else { assert(inLev(L, a)); let (d, j) = choose|d: int, j: int| #[trigger] at(L, d, j, a); assert(K[d + 1] == L[d]); assert(at(K, d + 1, j, a)); }
    }
}
pub proof fn lem_tight_lower(L: Seq<Seq<Chd>>, al: Set<int>)
    requires tight(L, al), L.len() >= 1, L[0].len() == 1
    ensures tight(L.subrange(1, L.len() as int), al.remove(L[0][0].a))
{
    let K = L.subrange(1, L.len() as int); let r = L[0][0].a; let al2 = al.remove(r);
    assert forall|d: int, j: int| inL(K, d, j) implies inL(L, d + 1, j) && #[trigger] adr(K, d, j) == adr(L, d + 1, j) && al2.contains(adr(K, d, j)) by {
        assert(K[d] == L[d + 1]); assert(adr(K, d, j) == adr(L, d + 1, j)); if adr(L, d + 1, j) == r { lem_dist(L, d + 1, j, 0, 0); }
    }
    assert(dist(K)) by {
        reveal(dist);
        assert forall|d1: int, j1: int, d2: int, j2: int| inL(K, d1, j1) && inL(K, d2, j2) && #[trigger] adr(K, d1, j1) == #[trigger] adr(K, d2, j2) implies d1 == d2 && j1 == j2 by { assert(adr(L, d1 + 1, j1) == adr(L, d2 + 1, j2)); }
    }
    assert forall|a: int| #[trigger] al2.contains(a) implies inLev(K, a) by {
        assert(al.contains(a)); assert(inLev(L, a)); let (d, j) = choose|d: int, j: int| #[trigger] at(L, d, j, a);
        assert(d != 0); assert(K[d - 1] == L[d]); assert(at(K, d - 1, j, a));
    }
}
