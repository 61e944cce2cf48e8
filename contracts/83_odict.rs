// ---- ordered dictionaries -------------------------------------------------------------------------------
pub open spec fn odP(h: Heap, d: T_OrderedDict) -> bool { tP(h, d.bpTree) && d.bpTree.fileStorage == 0 }
// nothing is allocated in the file but what the tree uses (ixT says so of the pages)
pub open spec fn odTight(h: Heap, d: T_OrderedDict) -> bool { forall|a: int| #[trigger] h.sp.contains(a) ==> isOv(tR(h, d.bpTree), a) }
pub open spec fn odC(h: Heap, d: T_OrderedDict) -> Seq<KV> { tC(h, d.bpTree) }
// the file holds the tree t and nothing else
pub open spec fn odFile(h: Heap, t: T_BPTree) -> bool {
    btStored(h, h.prim, t) && t.fileStorage == 0 && forall|a: int| #[trigger] h.sp.contains(a) ==> isOv(tR(h, t), a) || a == h.prim
}
