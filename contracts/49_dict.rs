// ---- dictionaries -----------------------------------------------------------------------
pub open spec fn dP(h: Heap, d: T_Dict) -> bool { hmP(h, d.hashMap) && d.hashMap.fileStorage == 0 }
pub open spec fn noal(h: Heap) -> bool { forall|a: int| !#[trigger] h.al.contains(a) }
// the file holds the hash map m and nothing else
pub open spec fn dFile(h: Heap, m: T_HashMap) -> bool {
    hmStored(h, h.prim, m) && m.fileStorage == 0 && noal(h) && forall|a: int| #[trigger] h.sp.contains(a) ==> hoA(h, m, h.prim)(a)
}
pub open spec fn dNoFile(h: Heap) -> bool { h.prim < 0 && noal(h) && forall|a: int| !#[trigger] h.sp.contains(a) }
// nothing is allocated in the file but what the map uses
pub open spec fn dTight(h: Heap, d: T_Dict) -> bool { noal(h) && forall|a: int| #[trigger] h.sp.contains(a) ==> own(h, d.hashMap, -1, a) }
