func bptree.BPTree.Init(bpt, fs) (me)
 props C05
 modifies bpt
 ensures @C05 new: bpt.fileStorage == fs && bpt.rootAddr == -1 && bpt.leafList == (T_leafList { tailAddr: -1, headAddr: -1 }) && bpt == (T_BPTree { fileStorage: fs, rootAddr: -1, leafList: bpt.leafList, ..bpt0 }) && me == bpt

func bptree.BPTree.Create(bpt)
 props C02 C05 C08 C09 C10 C13
 requires btNew(bpt, bpt.fileStorage) && noal(h)
 modifies mem fs bpt
 ensures tree: tP(h, bpt) && bpt.fileStorage == bpt0.fileStorage
 ensures @C02 @C10 empty: tR(h, bpt).len() == 0 && tC(h, bpt).len() == 0
 ensures @C09 space: h.sp == h0.sp && h.mem == h0.mem.insert(-1 - bpt.rootAddr, h.mem[-1 - bpt.rootAddr]) && !h0.sp.contains(bpt.rootAddr) && bpt.rootAddr > 0
 at call createLeaf after { let q1 = bp(h.mem, bpt.rootAddr); }
 at exit { let a = bpt.rootAddr; let q = bp(h.mem, a); assert(dataSame(q1, q)); lem_dataSame(q1, q); assert(h.al =~= Set::<int>::empty().insert(a)); lem_tree0(h, bpt); }

func bptree.BPTree.Destroy(bpt)
 props C02 C05 C08 C09 C10
 requires tP(h, bpt) && bpt.recordCount == 0
 modifies mem fs bpt
 ensures @C10 reset: btNew(bpt, bpt0.fileStorage)
 ensures @C09 freed: noal(h) && h.sp == h0.sp && forall|a: int| #[trigger] h0.sp.contains(a) ==> h.mem[-1 - a] == h0.mem[-1 - a]
 ensures @C11 frame: goF(h0, h)
 hide ixT lfT tR isOv kvOK asc ovD
 at entry { lem_none(h, bpt); split; }

func bptree.BPTree.Store(bpt) (a)
 props C02 C05 C08 C09 C10
 requires tP(h, bpt)
 modifies mem alloc fs bpt
 ensures @C05 @C10 stored: btStored(h, a, bpt0)
 ensures @C05 same: tC(h, bpt0) == tC(h0, bpt0) && tR(h, bpt0) == tR(h0, bpt0)
 ensures reset: btNew(bpt, bpt0.fileStorage)
 ensures @C09 space: h.al == h0.al && !h0.sp.contains(a) && h.sp == h0.sp.insert(a) && forall|x: int| #[trigger] h0.sp.contains(x) ==> h.mem[-1 - x] == h0.mem[-1 - x]
 ensures @C11 frame: goF(h0, h)
 hide ixT lfT tR isOv kvOK asc ovD dec_bpTreeInfo
 at entry { lem_height(h, bpt); lem_isOv_sp(h, tR(h, bpt)); let M = T_bpTreeInfo { RootAddr: bpt.rootAddr, Height: bpt.height, LeafListTailAddr: bpt.leafList.tailAddr, LeafListHeadAddr: bpt.leafList.headAddr, LeafCount: bpt.leafCount, NonLeafCount: bpt.nonLeafCount, RecordCount: bpt.recordCount, PayloadSize: bpt.payloadSize }; split; }
 at call AllocateSpace before { let B = buffer; lem_codec_bpTreeInfo(M, Seq::empty()); assert(B =~= enc_bpTreeInfo(M)); split; }
 at exit { let q = h.mem[-1 - a]; assert(q.subrange(0, B.len() as int) =~= B); let rest = q.subrange(B.len() as int, q.len() as int); assert(q =~= B + rest); split; lem_codec_bpTreeInfo(M, rest); assert(btOf(M, bpt0.fileStorage) == bpt0); split; assert(h.mem.dom() =~= ISet::<int>::full()); assert(h.sp.disjoint(h.al)); assert(z_heap_ok(h)); assert(goF(h0, h)); assert forall|x: int| #[trigger] h0.al.contains(x) implies h.mem[-1 - x] == h0.mem[-1 - x] by { } assert forall|x: int| #[trigger] isOv(tR(h0, bpt0), x) implies h.sp.contains(x) && h.mem[-1 - x] == h0.mem[-1 - x] by { assert(h0.sp.contains(x)); } split; lem_tP_sp(h0, h, bpt0); split; }

func bptree.BPTree.Load(bpt, a)
 props C02 C05 C08 C09 C10
 requires btNew(bpt, bpt.fileStorage) && exists|t: T_BPTree| #[trigger] btStored(h, a, t) && t.fileStorage == bpt.fileStorage
 modifies mem fs bpt
 ensures @C05 @C08 @C10 loaded: btStored(h0, a, bpt) && tP(h, bpt) && bpt.fileStorage == bpt0.fileStorage
 ensures @C05 same: tC(h, bpt) == tC(h0, bpt) && tR(h, bpt) == tR(h0, bpt)
 ensures @C09 space: h.al == h0.al && h.sp == h0.sp.remove(a) && forall|x: int| #[trigger] h0.sp.contains(x) && x != a ==> h.mem[-1 - x] == h0.mem[-1 - x]
 ensures @C11 frame: goF(h0, h)
 hide ixT lfT tR isOv kvOK asc ovD dec_bpTreeInfo
 at entry { let t = choose|t: T_BPTree| #[trigger] btStored(h, a, t) && t.fileStorage == bpt.fileStorage; let ga = a; lem_isOv_sp(h, tR(h, t)); split; }
 at exit { assert(bpt == t); split; assert(h.mem.dom() =~= ISet::<int>::full()); assert(h.sp.disjoint(h.al)); assert(z_heap_ok(h)); assert(goF(h0, h)); assert forall|x: int| #[trigger] h0.al.contains(x) implies h.mem[-1 - x] == h0.mem[-1 - x] by { } assert forall|x: int| #[trigger] isOv(tR(h0, t), x) implies h.sp.contains(x) && h.mem[-1 - x] == h0.mem[-1 - x] by { assert(h0.sp.contains(x)); } split; lem_tP_sp(h0, h, t); split; }

func bptree.BPTree.Height(bpt) (n)
 props C10
 requires tP(h, bpt)
 ensures @C10 exact: n == tL(h, bpt).len()

func bptree.BPTree.NumberOfLeafs(bpt) (n)
 props C10
 requires tP(h, bpt)
 ensures @C10 exact: n == tE(h, bpt).len()

func bptree.BPTree.NumberOfNonLeafs(bpt) (n)
 props C10
 requires tP(h, bpt)
 ensures @C10 exact: n == cnt(tL(h, bpt), tL(h, bpt).len() - 1)

func bptree.BPTree.NumberOfRecords(bpt) (n)
 props C10
 requires tP(h, bpt)
 ensures @C10 exact: n == tC(h, bpt).len()

func bptree.BPTree.PayloadSize(bpt) (n)
 props C10
 requires tP(h, bpt)
 ensures @C10 exact: n == psz(tC(h, bpt))
