// ---- one rebalancing step --------------------------------------------------------------
// a page that is not in use, or is that of an index node
pub open spec fn ixPage(L: Seq<Seq<Chd>>, al: Set<int>, a: int) -> bool { !al.contains(a) || exists|d: int, j: int| #[trigger] at(L, d, j, a) && d < L.len() - 1 }
pub proof fn lem_ixF(h0: Heap, h: Heap, L: Seq<Seq<Chd>>, a: int, b: int, c: int)
    requires z_heap_ok(h0), tight(L, h0.al), L.len() >= 1, h.sp == h0.sp, mem_kept3(h0, h, -1 - a, -1 - b, -1 - c), a >= 0, b >= 0, c >= 0,
        ixPage(L, h0.al, a), ixPage(L, h0.al, b), ixPage(L, h0.al, c), !h0.sp.contains(a), !h0.sp.contains(b), !h0.sp.contains(c),
    ensures ixF(h0, h, L[L.len() - 1])
{
    let E = L[L.len() - 1]; let n = L.len() - 1;
    assert forall|j: int| 0 <= j < E.len() implies h.mem[-1 - (#[trigger] E[j]).a] == h0.mem[-1 - E[j].a] by {
        let x = E[j].a; assert(inL(L, n, j)); assert(h0.al.contains(adr(L, n, j)));
        if x == a { let (d, q) = choose|d: int, q: int| #[trigger] at(L, d, q, a) && d < L.len() - 1; lem_dist(L, d, q, n, j); }
        if x == b { let (d, q) = choose|d: int, q: int| #[trigger] at(L, d, q, b) && d < L.len() - 1; lem_dist(L, d, q, n, j); }
        if x == c { let (d, q) = choose|d: int, q: int| #[trigger] at(L, d, q, c) && d < L.len() - 1; lem_dist(L, d, q, n, j); }
    }
}
pub proof fn lem_ixF_trans(h0: Heap, h1: Heap, h: Heap, E: Seq<Chd>)
    requires ixF(h0, h1, E), ixF(h1, h, E), h0.nxt <= h1.nxt
    ensures ixF(h0, h, E)
{
    assert forall|j: int| 0 <= j < E.len() implies h.mem[-1 - (#[trigger] E[j]).a] == h0.mem[-1 - E[j].a] by { assert(h1.mem[-1 - E[j].a] == h0.mem[-1 - E[j].a]); }
}
pub proof fn lem_cnt_upd(L: Seq<Seq<Chd>>, i: int, x: Seq<Chd>, n: int)
    requires 0 <= i < L.len(), 0 <= n <= L.len()
    ensures cnt(L.update(i, x), n) == cnt(L, n) + (if i < n { x.len() - L[i].len() } else { 0 })
    decreases n
{ if n > 0 { lem_cnt_upd(L, i, x, n - 1); } }
pub proof fn lem_rk_cat(x: Seq<Chd>, y: Seq<Chd>, k: Seq<u8>)
    requires x.len() >= 1
    ensures rk(x + y, k) == rk(x, k) + y
{ assert(rk(x + y, k) =~= rk(x, k) + y); }
pub proof fn lem_exf2(m: Mem, e: Chd, f: Chd)
    ensures exf(m, seq![e, f]) == kidsA(m, e) + kidsA(m, f)
{ assert(seq![e, f] =~= seq![e] + seq![f]); lem_exf_cat(m, seq![e], seq![f]); lem_exf1(m, e); lem_exf1(m, f); }
// what is the same in all steps
pub open spec fn step_pre(h0: Heap, h: Heap, t0: T_BPTree, P: Seq<T_recordPathComponent>, i: int, xa: int, xb: int) -> bool {
    &&& z_heap_ok(h0) && ixT(h0, t0, xa, xb) && pathOK(h0.mem, t0.rootAddr, P, t0.height) && 1 <= i < t0.height && h.sp == h0.sp
    &&& bp(h.mem, P[i - 1].NodeAddr).len() == 8192 && cok(bp(h.mem, P[i - 1].NodeAddr))
}
pub open spec fn stepC(h0: Heap, t0: T_BPTree, P: Seq<T_recordPathComponent>, i: int) -> Seq<Chd> { cchs(bp(h0.mem, P[i - 1].NodeAddr)) }
pub open spec fn pathQ(m: Mem, P: Seq<T_recordPathComponent>, Q: Seq<T_recordPathComponent>, i: int, n: int) -> bool {
    &&& Q.len() == P.len() && (forall|d: int| 0 <= d < P.len() && d != i && d != i - 1 ==> #[trigger] Q[d] == P[d])
    &&& Q[i - 1].NodeAddr == P[i - 1].NodeAddr && pstep(m, Q, i - 1) && (i < n - 1 ==> pstep(m, Q, i))
}
pub open spec fn stepK(h0: Heap, t0: T_BPTree, P: Seq<T_recordPathComponent>, i: int, lo: int, hi: int, w: Seq<Chd>) -> Seq<Seq<Chd>> { rebL(h0.mem, tL(h0, t0), i, pos(h0.mem, tL(h0, t0), P, i - 1), lo, hi, w) }
pub proof fn lem_step(h0: Heap, h: Heap, t0: T_BPTree, P: Seq<T_recordPathComponent>, Q: Seq<T_recordPathComponent>, i: int, xa: int, xb: int, lo: int, hi: int, w: Seq<Chd>, a: int, b: int)
    requires step_pre(h0, h, t0, P, i, xa, xb), 0 <= lo < hi <= stepC(h0, t0, P, i).len(), pathQ(h.mem, P, Q, i, t0.height), lo <= P[i - 1].RecordOrNonLeafChildIndex < hi,
        mem_kept3(h0, h, -1 - P[i - 1].NodeAddr, -1 - a, -1 - b),
        !h0.al.contains(a) || exists|k: int| lo <= k < hi && #[trigger] stepC(h0, t0, P, i)[k].a == a,
        !h0.al.contains(b) || exists|k: int| lo <= k < hi && #[trigger] stepC(h0, t0, P, i)[k].a == b,
        ({ let p = pos(h0.mem, tL(h0, t0), P, i - 1); let e = tL(h0, t0)[i - 1][p]; let C = kidsA(h0.mem, e);
           kidsA(h.mem, e) == winr(C, lo, hi, w) && (i < t0.height - 1 ==> exf(h.mem, w) == exf(h0.mem, C.subrange(lo, hi))) }),
        xa == noix() || xa == P[i - 1].NodeAddr || exists|k: int| lo <= k < hi && #[trigger] stepC(h0, t0, P, i)[k].a == xa,
        xb == noix() || xb == P[i - 1].NodeAddr || exists|k: int| lo <= k < hi && #[trigger] stepC(h0, t0, P, i)[k].a == xb,
        nOK(h.mem, P[i - 1].NodeAddr), i < t0.height - 1 ==> forall|k: int| 0 <= k < w.len() ==> nodeP(h.mem, (#[trigger] w[k]).a, i, noix(), noix()),
    ensures ({ let L = tL(h0, t0); let p = pos(h0.mem, L, P, i - 1); let o = off(h0.mem, L[i - 1], p); let C = kidsA(h0.mem, L[i - 1][p]); let K = stepK(h0, t0, P, i, lo, hi, w);
        K == L.update(i, winr(L[i], o + lo, o + hi, w)) && rep(h.mem, t0.rootAddr, K) && ixOK(h.mem, K, P[i - 1].NodeAddr, noix()) && pathOK(h.mem, t0.rootAddr, Q, t0.height)
        && 0 <= o && o + hi <= L[i].len() && L[i].subrange(o + lo, o + hi) == C.subrange(lo, hi) && inL(L, i - 1, p) && L[i - 1][p].a == P[i - 1].NodeAddr && C.len() == stepC(h0, t0, P, i).len()
        && C == rk(stepC(h0, t0, P, i), L[i - 1][p].k) && (forall|k: int| lo <= k < hi ==> L[i][o + k] == #[trigger] C[k]) })
{
    let L = tL(h0, t0); let m0 = h0.mem; let m = h.mem; let root = t0.rootAddr; lem_levs(m0, root, t0.height);
    lem_pos(m0, root, L, P, i - 1); let p = pos(m0, L, P, i - 1); let e = L[i - 1][p]; let C = kidsA(m0, e); let c = stepC(h0, t0, P, i); let pa = e.a;
    assert(nodeP(m0, adr(L, i - 1, p), i - 1, xa, xb)); assert(C == rk(c, e.k)); assert(C.len() == c.len());
    assert forall|k: int| 0 <= k < c.len() implies (#[trigger] C[k]).a == c[k].a by { }
    if h0.al.contains(a) { let k = choose|k: int| lo <= k < hi && #[trigger] c[k].a == a; assert(C[k].a == a); }
    if h0.al.contains(b) { let k = choose|k: int| lo <= k < hi && #[trigger] c[k].a == b; assert(C[k].a == b); }
    if xa != noix() && xa != pa { let k = choose|k: int| lo <= k < hi && #[trigger] c[k].a == xa; assert(C[k].a == xa); }
    if xb != noix() && xb != pa { let k = choose|k: int| lo <= k < hi && #[trigger] c[k].a == xb; assert(C[k].a == xb); }
    lem_others(h0, h, root, L, i, p, lo, hi, a, b);
    assert(reb_pre(m0, m, root, L, i, p, lo, hi, w));
    lem_reb(m0, m, root, L, i, p, lo, hi, w);
    if i < L.len() - 1 { assert forall|k: int| 0 <= k < w.len() implies nodeP(m, (#[trigger] w[k]).a, i, pa, noix()) by { assert(nodeP(m, w[k].a, i, noix(), noix())); } }
    lem_reb_ix(m0, m, root, L, i, p, lo, hi, w, xa, xb, pa, noix());
    lem_reb_path(m0, m, root, L, i, lo, hi, P, Q);
    let o = off(m0, L[i - 1], p);
    assert forall|k: int| lo <= k < hi implies L[i][o + k] == #[trigger] C[k] by { assert(L[i].subrange(o + lo, o + hi)[k - lo] == C.subrange(lo, hi)[k - lo]); }
}
// children move between two neighbours, and the key of the right one changes to k
pub open spec fn shift_pre(h0: Heap, h: Heap, t0: T_BPTree, P: Seq<T_recordPathComponent>, i: int, jl: int, k: Seq<u8>) -> bool {
    let c = stepC(h0, t0, P, i); let pa = P[i - 1].NodeAddr; let a = c[jl].a; let b = c[jl + 1].a;
    &&& 0 <= jl && jl + 1 < c.len() && jl <= P[i - 1].RecordOrNonLeafChildIndex <= jl + 1 && h.al == h0.al && mem_kept3(h0, h, -1 - pa, -1 - a, -1 - b)
    &&& cchs(bp(h.mem, pa)) == c.update(jl + 1, Chd { k: k, a: b })
}
pub open spec fn near(c: Seq<Chd>, pa: int, jl: int, x: int) -> bool { x == noix() || x == pa || x == c[jl].a || x == c[jl + 1].a }
pub proof fn lem_shift_win(m0: Mem, m: Mem, e: Chd, jl: int, k: Seq<u8>)
    requires ({ let c = cchs(bp(m0, e.a)); let a = c[jl].a; let b = c[jl + 1].a; 0 <= jl && jl + 1 < c.len() && cchs(bp(m, e.a)) == c.update(jl + 1, Chd { k: k, a: b })
        && cchs(bp(m0, a)).len() >= 1 && cchs(bp(m, a)).len() >= 1 && cchs(bp(m, a)) + rk(cchs(bp(m, b)), k) == cchs(bp(m0, a)) + rk(cchs(bp(m0, b)), c[jl + 1].k) }),
    ensures ({ let c = cchs(bp(m0, e.a)); let C = kidsA(m0, e); let w = seq![C[jl], Chd { k: k, a: c[jl + 1].a }];
        C == rk(c, e.k) && C.len() == c.len() && C[jl].a == c[jl].a && C[jl + 1] == c[jl + 1] && kidsA(m, e) == winr(C, jl, jl + 2, w) && exf(m, w) == exf(m0, C.subrange(jl, jl + 2)) && (cchs(bp(m0, e.a))[0].k.len() == 0 ==> cchs(bp(m, e.a))[0].k.len() == 0) })
{
    let c = cchs(bp(m0, e.a)); let C = kidsA(m0, e); let a = c[jl].a; let b = c[jl + 1].a; let f = Chd { k: k, a: b }; let w = seq![C[jl], f];
    assert(kidsA(m, e) =~= winr(C, jl, jl + 2, w));
    let A0 = cchs(bp(m0, a)); let A1 = cchs(bp(m, a)); let B0 = cchs(bp(m0, b)); let B1 = cchs(bp(m, b)); let ka = C[jl].k;
    lem_rk_cat(A0, rk(B0, c[jl + 1].k), ka); lem_rk_cat(A1, rk(B1, k), ka);
    lem_exf2(m, C[jl], f); assert(C.subrange(jl, jl + 2) =~= seq![C[jl], C[jl + 1]]); lem_exf2(m0, C[jl], C[jl + 1]);
}
pub proof fn lem_ix_shift(h0: Heap, h: Heap, t0: T_BPTree, P: Seq<T_recordPathComponent>, Q: Seq<T_recordPathComponent>, i: int, jl: int, k: Seq<u8>, xa: int, xb: int)
    requires step_pre(h0, h, t0, P, i, xa, xb), i < t0.height - 1, shift_pre(h0, h, t0, P, i, jl, k), pathQ(h.mem, P, Q, i, t0.height),
        near(stepC(h0, t0, P, i), P[i - 1].NodeAddr, jl, xa), near(stepC(h0, t0, P, i), P[i - 1].NodeAddr, jl, xb),
        ({ let c = stepC(h0, t0, P, i); let a = c[jl].a; let b = c[jl + 1].a; let A0 = cchs(bp(h0.mem, a)); let A1 = cchs(bp(h.mem, a)); let B0 = cchs(bp(h0.mem, b)); let B1 = cchs(bp(h.mem, b));
           A0.len() >= 1 && A1.len() >= 1 && A1 + rk(B1, k) == A0 + rk(B0, c[jl + 1].k) && nodeP(h.mem, a, i, noix(), noix()) && nodeP(h.mem, b, i, noix(), noix()) }),
    ensures ixT(h, t0, P[i - 1].NodeAddr, noix()), tE(h, t0) == tE(h0, t0), pathOK(h.mem, t0.rootAddr, Q, t0.height), ixF(h0, h, tE(h0, t0)), nOK(h.mem, P[i - 1].NodeAddr)
{
    let L = tL(h0, t0); let m0 = h0.mem; let m = h.mem; let root = t0.rootAddr; lem_levs(m0, root, t0.height);
    lem_pos(m0, root, L, P, i - 1); let p = pos(m0, L, P, i - 1); let e = L[i - 1][p]; let c = stepC(h0, t0, P, i); let pa = e.a;
    assert(nodeP(m0, adr(L, i - 1, p), i - 1, xa, xb));
    lem_shift_win(m0, m, e, jl, k);
    let C = kidsA(m0, e); let a = c[jl].a; let b = c[jl + 1].a; let f = Chd { k: k, a: b }; let w = seq![C[jl], f];
    assert(nOK(m, pa)) by { assert(cchs(bp(m, pa)).len() == c.len()); }
    assert(w[0].a == a && w[1].a == b);
    assert(forall|q: int| 0 <= q < w.len() ==> nodeP(m, (#[trigger] w[q]).a, i, noix(), noix()));
    lem_step(h0, h, t0, P, Q, i, xa, xb, jl, jl + 2, w, a, b);
    lem_shift_end(h0, h, t0, P, Q, i, jl, k);
}
pub proof fn lem_shift_end(h0: Heap, h: Heap, t0: T_BPTree, P: Seq<T_recordPathComponent>, Q: Seq<T_recordPathComponent>, i: int, jl: int, k: Seq<u8>)
    requires z_heap_ok(h0), ixS(h0, tL(h0, t0), t0), pathOK(h0.mem, t0.rootAddr, P, t0.height), 1 <= i < t0.height - 1, shift_pre(h0, h, t0, P, i, jl, k), h.sp == h0.sp,
        ({ let L = tL(h0, t0); let p = pos(h0.mem, L, P, i - 1); let o = off(h0.mem, L[i - 1], p); let c = stepC(h0, t0, P, i); let C = kidsA(h0.mem, L[i - 1][p]); let K = stepK(h0, t0, P, i, jl, jl + 2, seq![C[jl], Chd { k: k, a: c[jl + 1].a }]);
           rep(h.mem, t0.rootAddr, K) && ixOK(h.mem, K, P[i - 1].NodeAddr, noix()) && 0 <= o && o + jl + 2 <= L[i].len() && inL(L, i - 1, p) && L[i - 1][p].a == P[i - 1].NodeAddr && C.len() == c.len() && C == rk(c, L[i - 1][p].k)
           && L[i][o + jl] == C[jl] && L[i][o + (jl + 1)] == C[jl + 1] }),
    ensures ixT(h, t0, P[i - 1].NodeAddr, noix()), tE(h, t0) == tE(h0, t0), ixF(h0, h, tE(h0, t0))
{
    let L = tL(h0, t0); let m0 = h0.mem; let m = h.mem; let p = pos(m0, L, P, i - 1); let o = off(m0, L[i - 1], p); let c = stepC(h0, t0, P, i); let C = kidsA(m0, L[i - 1][p]);
    let a = c[jl].a; let b = c[jl + 1].a; let w = seq![C[jl], Chd { k: k, a: b }]; let K = stepK(h0, t0, P, i, jl, jl + 2, w); let pa = L[i - 1][p].a;
    lem_rep(m, t0.rootAddr, K);
    let X = winr(L[i], o + jl, o + jl + 2, w);
    assert(X.len() == L[i].len());
    assert forall|j: int| 0 <= j < X.len() implies (#[trigger] X[j]).a == L[i][j].a by { if j == o + jl { assert(X[j] == w[0]); } else if j == o + jl + 1 { assert(X[j] == w[1]); } }
    lem_tight_same(L, K, h0.al); lem_cnt_upd(L, i, X, t0.height - 1);
    assert(at(L, i - 1, p, pa)); assert(at(L, i, o + jl, a)); assert(at(L, i, o + (jl + 1), b));
    assert(h0.al.contains(adr(L, i - 1, p)) && h0.al.contains(adr(L, i, o + jl)) && h0.al.contains(adr(L, i, o + (jl + 1))));
    lem_ixF(h0, h, L, pa, a, b);
}
// a new neighbour ns with the key k takes some of the children of the node
pub open spec fn split_pre(h0: Heap, h: Heap, t0: T_BPTree, P: Seq<T_recordPathComponent>, i: int, jl: int, k: Seq<u8>, ns: int) -> bool {
    let c = stepC(h0, t0, P, i); let pa = P[i - 1].NodeAddr; let a = c[jl].a;
    &&& 0 <= jl < c.len() && P[i - 1].RecordOrNonLeafChildIndex == jl && h.al == h0.al.insert(ns) && !h0.al.contains(ns) && !h0.sp.contains(ns) && ns > 0 && mem_kept3(h0, h, -1 - pa, -1 - a, -1 - ns)
    &&& cchs(bp(h.mem, pa)) == c.insert(jl + 1, Chd { k: k, a: ns })
}
pub proof fn lem_ix_split(h0: Heap, h: Heap, t0: T_BPTree, t: T_BPTree, P: Seq<T_recordPathComponent>, Q: Seq<T_recordPathComponent>, i: int, jl: int, k: Seq<u8>, ns: int, xa: int, xb: int)
    requires step_pre(h0, h, t0, P, i, xa, xb), i < t0.height - 1, split_pre(h0, h, t0, P, i, jl, k, ns), pathQ(h.mem, P, Q, i, t0.height),
        t == (T_BPTree { nonLeafCount: t0.nonLeafCount + 1, ..t0 }),
        ({ let c = stepC(h0, t0, P, i); let pa = P[i - 1].NodeAddr; (xa == noix() || xa == pa || xa == c[jl].a) && (xb == noix() || xb == pa || xb == c[jl].a) }),
        ({ let c = stepC(h0, t0, P, i); let a = c[jl].a; let A0 = cchs(bp(h0.mem, a)); let A1 = cchs(bp(h.mem, a)); let B1 = cchs(bp(h.mem, ns));
           A0.len() >= 1 && A1.len() >= 1 && A1 + rk(B1, k) == A0 && nodeP(h.mem, a, i, noix(), noix()) && nodeP(h.mem, ns, i, noix(), noix()) }),
    ensures ixT(h, t, P[i - 1].NodeAddr, noix()), tE(h, t) == tE(h0, t0), pathOK(h.mem, t0.rootAddr, Q, t0.height), ixF(h0, h, tE(h0, t0)), nOK(h.mem, P[i - 1].NodeAddr)
{
    let L = tL(h0, t0); let m0 = h0.mem; let m = h.mem; let root = t0.rootAddr; lem_levs(m0, root, t0.height);
    lem_pos(m0, root, L, P, i - 1); let p = pos(m0, L, P, i - 1); let e = L[i - 1][p]; let C = kidsA(m0, e); let c = stepC(h0, t0, P, i); let pa = e.a;
    assert(nodeP(m0, adr(L, i - 1, p), i - 1, xa, xb));
    let a = c[jl].a; let f = Chd { k: k, a: ns }; let w = seq![C[jl], f];
    assert(C[jl].a == a);
    assert(kidsA(m, e) =~= winr(C, jl, jl + 1, w));
    let A0 = cchs(bp(m0, a)); let A1 = cchs(bp(m, a)); let B1 = cchs(bp(m, ns)); let ka = C[jl].k;
    lem_rk_cat(A1, rk(B1, k), ka);
    lem_exf2(m, C[jl], f); assert(C.subrange(jl, jl + 1) =~= seq![C[jl]]); lem_exf1(m0, C[jl]);
    assert(nOK(m, pa)) by { assert(cchs(bp(m, pa)).len() == c.len() + 1); assert(cchs(bp(m, pa))[0].k.len() == 0); }
    assert(w[0].a == a && w[1].a == ns);
    lem_step(h0, h, t0, P, Q, i, xa, xb, jl, jl + 1, w, a, ns); let K = stepK(h0, t0, P, i, jl, jl + 1, w);
    lem_rep(m, root, K);
    let o = off(m0, L[i - 1], p); let X = winr(L[i], o + jl, o + jl + 1, w);
    assert(L[i][o + jl] == C[jl]);
    assert(X =~= L[i].insert(o + jl + 1, f));
    lem_tight_ins(L, i, o + jl + 1, f, h0.al); lem_cnt_upd(L, i, X, t0.height - 1);
    assert(at(L, i - 1, p, pa)); assert(at(L, i, o + jl, a));
    assert(h0.al.contains(adr(L, i - 1, p)) && h0.al.contains(adr(L, i, o + jl)));
    lem_ixF(h0, h, L, pa, a, ns);
}
// a node takes all the children of its right neighbour
pub open spec fn merge_pre(h0: Heap, h: Heap, t0: T_BPTree, P: Seq<T_recordPathComponent>, i: int, jl: int) -> bool {
    let c = stepC(h0, t0, P, i); let pa = P[i - 1].NodeAddr; let a = c[jl].a; let b = c[jl + 1].a;
    &&& 0 <= jl && jl + 1 < c.len() && jl <= P[i - 1].RecordOrNonLeafChildIndex <= jl + 1 && h.al == h0.al.remove(b) && mem_kept3(h0, h, -1 - pa, -1 - a, -1 - b)
    &&& cchs(bp(h.mem, pa)) == c.remove(jl + 1)
}
pub proof fn lem_ix_merge(h0: Heap, h: Heap, t0: T_BPTree, t: T_BPTree, P: Seq<T_recordPathComponent>, Q: Seq<T_recordPathComponent>, i: int, jl: int, xa: int, xb: int)
    requires step_pre(h0, h, t0, P, i, xa, xb), i < t0.height - 1, merge_pre(h0, h, t0, P, i, jl), pathQ(h.mem, P, Q, i, t0.height),
        t == (T_BPTree { nonLeafCount: t0.nonLeafCount - 1, ..t0 }),
        near(stepC(h0, t0, P, i), P[i - 1].NodeAddr, jl, xa), near(stepC(h0, t0, P, i), P[i - 1].NodeAddr, jl, xb),
        ({ let c = stepC(h0, t0, P, i); let a = c[jl].a; let b = c[jl + 1].a; let A0 = cchs(bp(h0.mem, a)); let A1 = cchs(bp(h.mem, a)); let B0 = cchs(bp(h0.mem, b));
           A0.len() >= 1 && A1 == A0 + rk(B0, c[jl + 1].k) && nodeP(h.mem, a, i, noix(), noix()) }),
    ensures ixT(h, t, P[i - 1].NodeAddr, noix()), tE(h, t) == tE(h0, t0), pathOK(h.mem, t0.rootAddr, Q, t0.height), ixF(h0, h, tE(h0, t0)), nOK(h.mem, P[i - 1].NodeAddr)
{
    let L = tL(h0, t0); let m0 = h0.mem; let m = h.mem; let root = t0.rootAddr; lem_levs(m0, root, t0.height);
    lem_pos(m0, root, L, P, i - 1); let p = pos(m0, L, P, i - 1); let e = L[i - 1][p]; let C = kidsA(m0, e); let c = stepC(h0, t0, P, i); let pa = e.a;
    assert(nodeP(m0, adr(L, i - 1, p), i - 1, xa, xb));
    let a = c[jl].a; let b = c[jl + 1].a; let w = seq![C[jl]];
    assert(C[jl].a == a && C[jl + 1] == c[jl + 1]);
    assert(kidsA(m, e) =~= winr(C, jl, jl + 2, w));
    let A0 = cchs(bp(m0, a)); let B0 = cchs(bp(m0, b)); let ka = C[jl].k;
    lem_rk_cat(A0, rk(B0, c[jl + 1].k), ka);
    lem_exf1(m, C[jl]); assert(C.subrange(jl, jl + 2) =~= seq![C[jl], C[jl + 1]]); lem_exf2(m0, C[jl], C[jl + 1]);
    assert(nOK(m, pa)) by { assert(cchs(bp(m, pa)).len() == c.len() - 1); assert(cchs(bp(m, pa))[0].k.len() == 0); }
    assert(w[0].a == a);
    lem_step(h0, h, t0, P, Q, i, xa, xb, jl, jl + 2, w, a, b); let K = stepK(h0, t0, P, i, jl, jl + 2, w);
    lem_rep(m, root, K);
    let o = off(m0, L[i - 1], p); let X = winr(L[i], o + jl, o + jl + 2, w);
    assert(L[i][o + jl] == C[jl] && L[i][o + (jl + 1)] == C[jl + 1]);
    assert(X =~= L[i].remove(o + jl + 1));
    lem_tight_rem(L, i, o + jl + 1, h0.al); lem_cnt_upd(L, i, X, t0.height - 1);
    assert(at(L, i - 1, p, pa)); assert(at(L, i, o + jl, a)); assert(at(L, i, o + jl + 1, b));
    assert(h0.al.contains(adr(L, i - 1, p)) && h0.al.contains(adr(L, i, o + jl)) && h0.al.contains(adr(L, i, o + jl + 1)));
    lem_ixF(h0, h, L, pa, a, b);
}
