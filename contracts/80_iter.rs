// ---- iterators ----------------------------------------------------------------------------------------
// an iterator at record o whose last one is e
pub open spec fn itS(h: Heap, t: T_BPTree, it: T_iterator, o: int, e: int) -> bool {
    tP(h, t) && !it.isAtEnd && atR(h, t, it.currentLeafAddr, it.currentRecordIndex, o) && atR(h, t, it.lastLeafAddr, it.lastRecordIndex, e)
}
pub open spec fn bitOK(h: Heap, it: T_iterator) -> bool { it.isAtEnd || exists|t: T_BPTree, o: int, e: int| #[trigger] itS(h, t, it, o, e) }
pub open spec fn itRec(h: Heap, it: T_iterator) -> Rec { lrecs(bp(h.mem, it.currentLeafAddr))[it.currentRecordIndex] }
// what an iterator may use
pub open spec fn itU(h: Heap, it: T_iterator) -> bool {
    let q = bp(h.mem, it.currentLeafAddr); lfU(h, it.currentLeafAddr) && 0 <= it.currentRecordIndex < ln(q) && lrecs(q).len() == ln(q) && fmtOK(h, itRec(h, it).k, kP()) && fmtOK(h, itRec(h, it).v, vP())
}
pub proof fn lem_it(h: Heap, it: T_iterator)
    requires z_heap_ok(h), bitOK(h, it), !it.isAtEnd
    ensures itU(h, it), forall|t: T_BPTree, o: int, e: int| #[trigger] itS(h, t, it, o, e) ==> 0 <= o < tC(h, t).len() && 0 <= e < tC(h, t).len() && tC(h, t)[o] == raw1(h.mem, itRec(h, it))
{
    let (t, o, e) = choose|t: T_BPTree, o: int, e: int| #[trigger] itS(h, t, it, o, e); lem_atU(h, t, it.currentLeafAddr, it.currentRecordIndex, o);
    assert forall|t: T_BPTree, o: int, e: int| #[trigger] itS(h, t, it, o, e) implies 0 <= o < tC(h, t).len() && 0 <= e < tC(h, t).len() && tC(h, t)[o] == raw1(h.mem, itRec(h, it)) by {
        lem_atU(h, t, it.currentLeafAddr, it.currentRecordIndex, o); lem_atU(h, t, it.lastLeafAddr, it.lastRecordIndex, e); }
}
// the iteration ends behind record e, on the way up or down
pub proof fn lem_it_step(h: Heap, it: T_iterator)
    requires z_heap_ok(h), bitOK(h, it), !it.isAtEnd
    ensures itU(h, it), forall|t: T_BPTree, o: int, e: int| #[trigger] itS(h, t, it, o, e) ==> ((it.currentLeafAddr == it.lastLeafAddr && it.currentRecordIndex == it.lastRecordIndex) <==> o == e) && 0 <= o < tC(h, t).len() && 0 <= e < tC(h, t).len()
        && (o + 1 < tC(h, t).len() ==> if it.currentRecordIndex < ln(bp(h.mem, it.currentLeafAddr)) - 1 { atR(h, t, it.currentLeafAddr, it.currentRecordIndex + 1, o + 1) } else { atR(h, t, nxq(bp(h.mem, it.currentLeafAddr)), 0, o + 1) })
        && (o >= 1 ==> if it.currentRecordIndex >= 1 { atR(h, t, it.currentLeafAddr, it.currentRecordIndex - 1, o - 1) } else { let b = pvq(bp(h.mem, it.currentLeafAddr)); lfU(h, b) && atR(h, t, b, ln(bp(h.mem, b)) - 1, o - 1) })
{
    lem_it(h, it);
    assert forall|t: T_BPTree, o: int, e: int| #[trigger] itS(h, t, it, o, e) implies ((it.currentLeafAddr == it.lastLeafAddr && it.currentRecordIndex == it.lastRecordIndex) <==> o == e)
        && (o + 1 < tC(h, t).len() ==> if it.currentRecordIndex < ln(bp(h.mem, it.currentLeafAddr)) - 1 { atR(h, t, it.currentLeafAddr, it.currentRecordIndex + 1, o + 1) } else { atR(h, t, nxq(bp(h.mem, it.currentLeafAddr)), 0, o + 1) })
        && (o >= 1 ==> if it.currentRecordIndex >= 1 { atR(h, t, it.currentLeafAddr, it.currentRecordIndex - 1, o - 1) } else { let b = pvq(bp(h.mem, it.currentLeafAddr)); lfU(h, b) && atR(h, t, b, ln(bp(h.mem, b)) - 1, o - 1) }) by {
        lem_atR_inj(h, t, it.currentLeafAddr, it.currentRecordIndex, o, it.lastLeafAddr, it.lastRecordIndex, e);
        if o + 1 < tC(h, t).len() { lem_atR_next(h, t, it.currentLeafAddr, it.currentRecordIndex, o); }
        if o >= 1 { lem_atR_prev(h, t, it.currentLeafAddr, it.currentRecordIndex, o); }
    }
}
// an iterator that can go on in the given direction
pub open spec fn fitOK(h: Heap, it: T_iterator) -> bool { it.isAtEnd || exists|t: T_BPTree, o: int, e: int| #[trigger] itS(h, t, it, o, e) && o <= e }
pub open spec fn bitB(h: Heap, it: T_iterator) -> bool { it.isAtEnd || exists|t: T_BPTree, o: int, e: int| #[trigger] itS(h, t, it, o, e) && e <= o }
// a new iterator over records l..u
pub open spec fn itRun(h: Heap, t: T_BPTree, it: T_iterator, l: int, u: int, fwd: bool) -> bool {
    if tC(h, t).len() > 0 && l <= u { if fwd { itS(h, t, it, l, u) } else { itS(h, t, it, u, l) } } else { it.isAtEnd }
}
