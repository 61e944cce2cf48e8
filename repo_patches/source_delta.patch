From 76dea8eaf736cf66abf0cb4382b86a1610e0c5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:42 +0000
Subject: [PATCH 1/6] fix: bptree: read the first key of a range from the leaf
 the range starts in

When the lower bound of a range falls past the last record of a leaf, the
search moved on to the next leaf but went on reading keys from the old one,
so a range lying inside the gap between two leaves iterated over the whole
tree instead of being empty.
---
 bptree/bptree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index 014004e..deb92d2 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -765,6 +765,7 @@ func (bpt *BPTree) search(minKey []byte, maxKey []byte) (int64, int, int64, int,
 			}
 
 			minLeafAddr = leafHeader(minLeafController).NextAddr()
+			minLeafController = bpt.getLeafController(minLeafAddr)
 			minRecordIndex = 0
 		}
 	}
-- 
2.43.0


From 203b5e21d85cd9a646f4f5ee5f3448d8896c4e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:42 +0000
Subject: [PATCH 2/6] fix: bptree: a range from an absent key to the same key
 is empty

SearchForward/SearchBackward(k, k) returned the record following k when
there was no record with the key k.
---
 bptree/bptree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index deb92d2..4ccbf12 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -759,6 +759,10 @@ func (bpt *BPTree) search(minKey []byte, maxKey []byte) (int64, int, int64, int,
 	minLeafAddr, minLeafController, minRecordIndex := bpt.locateRecord(minRecordPath)
 
 	if !ok3 {
+		if d == 0 {
+			return 0, 0, 0, 0, false
+		}
+
 		if minRecordIndex == minLeafController.NumberOfRecords() {
 			if minLeafAddr == bpt.leafList.TailAddr() {
 				return 0, 0, 0, 0, false
-- 
2.43.0


From 401e34e6dc406cc032c2650e43546830bc662a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:42 +0000
Subject: [PATCH 3/6] fix: hashmap: don't write through an invalidated accessor
 in Create

The accessor of the slot directories was used after a second allocation,
which may remap the file: on a file storage whose first pooled block is
nearly full, Create wrote to unmapped memory.
---
 hashmap/hashmap.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hashmap/hashmap.go b/hashmap/hashmap.go
index dd3a259..332d132 100644
--- a/hashmap/hashmap.go
+++ b/hashmap/hashmap.go
@@ -34,8 +34,9 @@ func (hm *HashMap) Init(fileStorage *fsm.FileStorage) *HashMap {
 
 // Create creates the hash map on the file storage.
 func (hm *HashMap) Create() {
-	slotDirsAddr, buffer1 := hm.fileStorage.AllocateSpace(8 << minMaxSlotDirCountShift)
+	slotDirsAddr, _ := hm.fileStorage.AllocateSpace(8 << minMaxSlotDirCountShift)
 	slotDirAddr, buffer2 := hm.fileStorage.AllocateSpace(8 << slotDirLengthShift)
+	buffer1 := hm.fileStorage.AccessSpace(slotDirsAddr)
 	binary.BigEndian.PutUint64(buffer1, uint64(slotDirAddr))
 	binary.BigEndian.PutUint64(buffer2, ^uint64(0))
 	hm.slotDirsAddr = slotDirsAddr
-- 
2.43.0


From be33edc1e7a4aebcb0bc901888a9883b0b9fd031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:07 +0000
Subject: [PATCH 4/6] fix: bptree: don't count the record that would overshoot
 when shifting leaf records

---
 bptree/leaf.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bptree/leaf.go b/bptree/leaf.go
index a0c3bd8..beb8082 100644
--- a/bptree/leaf.go
+++ b/bptree/leaf.go
@@ -206,6 +206,8 @@ func (lc leafController) CountRecordsForShiftingToLeft(leftSibling leafControlle
 		loadSize2 += recordSize
 
 		if loadSize1 < leafUnderloadThreshold || loadSize2 > leafOverloadThreshold {
+			loadSize1 += recordSize
+			loadSize2 -= recordSize
 			break
 		}
 
@@ -240,6 +242,8 @@ func (lc leafController) CountRecordsForShiftingToRight(rightSibling leafControl
 		loadSize2 += recordSize
 
 		if loadSize1 < leafUnderloadThreshold || loadSize2 > leafOverloadThreshold {
+			loadSize1 += recordSize
+			loadSize2 -= recordSize
 			break
 		}
 
-- 
2.43.0


From 794f71471a3332aac8220913637509e6eb918390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:08 +0000
Subject: [PATCH 5/6] fix: bptree: account for the separator keys moved through
 the parent when shifting non-leaf children

---
 bptree/bptree.go  |  8 ++++----
 bptree/nonleaf.go | 47 +++++++++++++++++++++++++++--------------------
 2 files changed, 31 insertions(+), 24 deletions(-)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index 4ccbf12..eb72e69 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -494,7 +494,7 @@ func (bpt *BPTree) ensureNotOverloadNonLeaf(recordPath *recordPath, i int) {
 		nonLeafRSiblingAddr := nonLeafParentController.GetChildAddr(nonLeafIndex + 1)
 		nonLeafRSiblingController := bpt.getNonLeafController(nonLeafRSiblingAddr)
 
-		if numberOfChildren := nonLeafController1.CountChildrenForShiftingToRight(nonLeafRSiblingController); numberOfChildren >= 1 {
+		if numberOfChildren := nonLeafController1.CountChildrenForShiftingToRight(nonLeafParentController, nonLeafIndex, nonLeafRSiblingController); numberOfChildren >= 1 {
 			m := nonLeafController1.NumberOfChildren() - numberOfChildren
 			nonLeafController1.ShiftToRight(numberOfChildren, nonLeafParentController, nonLeafIndex, nonLeafRSiblingController)
 
@@ -516,7 +516,7 @@ func (bpt *BPTree) ensureNotOverloadNonLeaf(recordPath *recordPath, i int) {
 		nonLeafLSiblingAddr := nonLeafParentController.GetChildAddr(nonLeafIndex - 1)
 		nonLeafLSiblingController := bpt.getNonLeafController(nonLeafLSiblingAddr)
 
-		if numberOfChildren := nonLeafController1.CountChildrenForShiftingToLeft(nonLeafLSiblingController); numberOfChildren >= 1 {
+		if numberOfChildren := nonLeafController1.CountChildrenForShiftingToLeft(nonLeafParentController, nonLeafIndex, nonLeafLSiblingController); numberOfChildren >= 1 {
 			m := nonLeafLSiblingController.NumberOfChildren()
 			nonLeafController1.ShiftToLeft(numberOfChildren, nonLeafParentController, nonLeafIndex, nonLeafLSiblingController)
 
@@ -661,7 +661,7 @@ func (bpt *BPTree) ensureNotUnderloadNonLeaf(recordPath *recordPath, i int) {
 		nonLeafRSiblingAddr = nonLeafParentController.GetChildAddr(nonLeafIndex + 1)
 		nonLeafRSiblingController = bpt.getNonLeafController(nonLeafRSiblingAddr)
 
-		if numberOfChildren := nonLeafController1.CountChildrenForUnshiftingFromRight(nonLeafRSiblingController); numberOfChildren >= 1 {
+		if numberOfChildren := nonLeafController1.CountChildrenForUnshiftingFromRight(nonLeafParentController, nonLeafIndex, nonLeafRSiblingController); numberOfChildren >= 1 {
 			nonLeafController1.UnshiftFromRight(numberOfChildren, nonLeafParentController, nonLeafIndex, nonLeafRSiblingController)
 			bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
 			bpt.ensureNotOverloadNonLeaf(recordPath, i-1)
@@ -675,7 +675,7 @@ func (bpt *BPTree) ensureNotUnderloadNonLeaf(recordPath *recordPath, i int) {
 		nonLeafLSiblingAddr = nonLeafParentController.GetChildAddr(nonLeafIndex - 1)
 		nonLeafLSiblingController = bpt.getNonLeafController(nonLeafLSiblingAddr)
 
-		if numberOfChildren := nonLeafController1.CountChildrenForUnshiftingFromLeft(nonLeafLSiblingController); numberOfChildren >= 1 {
+		if numberOfChildren := nonLeafController1.CountChildrenForUnshiftingFromLeft(nonLeafParentController, nonLeafIndex, nonLeafLSiblingController); numberOfChildren >= 1 {
 			nonLeafController1.UnshiftFromLeft(numberOfChildren, nonLeafParentController, nonLeafIndex, nonLeafLSiblingController)
 			// >>> fix record path begin
 			(*recordPath)[i].RecordOrNonLeafChildIndex = numberOfChildren + nonLeafChildIndex
diff --git a/bptree/nonleaf.go b/bptree/nonleaf.go
index f3c0f4d..0bbd0f3 100644
--- a/bptree/nonleaf.go
+++ b/bptree/nonleaf.go
@@ -202,13 +202,20 @@ func (nlc nonLeafController) MergeFromRight(parent nonLeafController, index int,
 	nlc.InsertChildren(nlc.NumberOfChildren(), children)
 }
 
-func (nlc nonLeafController) CountChildrenForShiftingToLeft(leftSibling nonLeafController) int {
-	loadSize1 := nlc.GetLoadSize() - (nonLeafChildHeaderSize + len(nlc.GetKey(0)))
-	loadSize2 := leftSibling.GetLoadSize() + nonLeafChildHeaderSize
+func (nlc nonLeafController) CountChildrenForShiftingToLeft(parent nonLeafController, index int, leftSibling nonLeafController) int {
+	loadSize1 := nlc.GetLoadSize()
+	loadSize2 := leftSibling.GetLoadSize()
+	keySize := len(parent.GetKey(index))
 	childCount := 0
 
 	for i := 1; ; i++ {
+		nextKeySize := len(nlc.GetKey(i))
+		loadSize1 -= nonLeafChildHeaderSize + nextKeySize
+		loadSize2 += nonLeafChildHeaderSize + keySize
+
 		if loadSize1 < nonLeafUnderloadThreshold || loadSize2 > nonLeafOverloadThreshold {
+			loadSize1 += nonLeafChildHeaderSize + nextKeySize
+			loadSize2 -= nonLeafChildHeaderSize + keySize
 			break
 		}
 
@@ -218,9 +225,7 @@ func (nlc nonLeafController) CountChildrenForShiftingToLeft(leftSibling nonLeafC
 			break
 		}
 
-		childSize := nonLeafChildHeaderSize + len(nlc.GetKey(i))
-		loadSize1 -= childSize
-		loadSize2 += childSize
+		keySize = nextKeySize
 	}
 
 	if loadSize1 > nonLeafOverloadThreshold || loadSize2 < nonLeafUnderloadThreshold {
@@ -238,15 +243,20 @@ func (nlc nonLeafController) ShiftToLeft(numberOfChildren int, parent nonLeafCon
 	leftSibling.InsertChildren(leftSibling.NumberOfChildren(), children)
 }
 
-func (nlc nonLeafController) CountChildrenForShiftingToRight(rightSibling nonLeafController) int {
-	n := nlc.NumberOfChildren()
-	lastChildSize := nonLeafChildHeaderSize + len(nlc.GetKey(n-1))
-	loadSize1 := nlc.GetLoadSize() - lastChildSize
-	loadSize2 := rightSibling.GetLoadSize() + nonLeafChildHeaderSize
+func (nlc nonLeafController) CountChildrenForShiftingToRight(parent nonLeafController, index int, rightSibling nonLeafController) int {
+	loadSize1 := nlc.GetLoadSize()
+	loadSize2 := rightSibling.GetLoadSize()
+	keySize := len(parent.GetKey(index + 1))
 	childCount := 0
 
-	for i := n - 2; ; i-- {
+	for i := nlc.NumberOfChildren() - 1; ; i-- {
+		nextKeySize := len(nlc.GetKey(i))
+		loadSize1 -= nonLeafChildHeaderSize + nextKeySize
+		loadSize2 += nonLeafChildHeaderSize + keySize
+
 		if loadSize1 < nonLeafUnderloadThreshold || loadSize2 > nonLeafOverloadThreshold {
+			loadSize1 += nonLeafChildHeaderSize + nextKeySize
+			loadSize2 -= nonLeafChildHeaderSize + keySize
 			break
 		}
 
@@ -256,10 +266,7 @@ func (nlc nonLeafController) CountChildrenForShiftingToRight(rightSibling nonLea
 			break
 		}
 
-		childSize := nonLeafChildHeaderSize + len(nlc.GetKey(i))
-		loadSize1 -= childSize
-		loadSize2 += lastChildSize
-		lastChildSize = childSize
+		keySize = nextKeySize
 	}
 
 	if loadSize1 > nonLeafOverloadThreshold || loadSize2 < nonLeafUnderloadThreshold {
@@ -277,16 +284,16 @@ func (nlc nonLeafController) ShiftToRight(numberOfChildren int, parent nonLeafCo
 	rightSibling.InsertChildren(0, children)
 }
 
-func (nlc nonLeafController) CountChildrenForUnshiftingFromLeft(leftSibling nonLeafController) int {
-	return leftSibling.CountChildrenForShiftingToRight(nlc)
+func (nlc nonLeafController) CountChildrenForUnshiftingFromLeft(parent nonLeafController, index int, leftSibling nonLeafController) int {
+	return leftSibling.CountChildrenForShiftingToRight(parent, index-1, nlc)
 }
 
 func (nlc nonLeafController) UnshiftFromLeft(numberOfChildren int, parent nonLeafController, index int, leftSibling nonLeafController) {
 	leftSibling.ShiftToRight(numberOfChildren, parent, index-1, nlc)
 }
 
-func (nlc nonLeafController) CountChildrenForUnshiftingFromRight(rightSibling nonLeafController) int {
-	return rightSibling.CountChildrenForShiftingToLeft(nlc)
+func (nlc nonLeafController) CountChildrenForUnshiftingFromRight(parent nonLeafController, index int, rightSibling nonLeafController) int {
+	return rightSibling.CountChildrenForShiftingToLeft(parent, index+1, nlc)
 }
 
 func (nlc nonLeafController) UnshiftFromRight(numberOfChildren int, parent nonLeafController, index int, rightSibling nonLeafController) {
-- 
2.43.0


From 985977725f46e178ce2df24a66b90af3f6a30f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:52 +0000
Subject: [PATCH 6/6] fix: bptree: fix a non-leaf in one direction only, as the
 height may change in between

---
 bptree/bptree.go | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index eb72e69..e97c3e6 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -358,8 +358,7 @@ func (bpt *BPTree) syncKey(recordPath *recordPath) {
 		if nonLeafChildIndex >= 1 {
 			nonLeafController := bpt.getNonLeafController((*recordPath)[i].NodeAddr)
 			nonLeafController.SetKey(nonLeafChildIndex, leafController.GetKey(0))
-			bpt.ensureNotUnderloadNonLeaf(recordPath, i)
-			bpt.ensureNotOverloadNonLeaf(recordPath, i)
+			bpt.ensureNotOverloadOrUnderloadNonLeaf(recordPath, i)
 			return
 		}
 	}
@@ -409,8 +408,7 @@ func (bpt *BPTree) ensureNotOverloadLeaf(recordPath *recordPath) {
 				// <<< fix record path end
 			}
 
-			bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
-			bpt.ensureNotOverloadNonLeaf(recordPath, i-1)
+			bpt.ensureNotOverloadOrUnderloadNonLeaf(recordPath, i-1)
 			return
 		}
 	}
@@ -435,8 +433,7 @@ func (bpt *BPTree) ensureNotOverloadLeaf(recordPath *recordPath) {
 				// <<< fix record path end
 			}
 
-			bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
-			bpt.ensureNotOverloadNonLeaf(recordPath, i-1)
+			bpt.ensureNotOverloadOrUnderloadNonLeaf(recordPath, i-1)
 			return
 		}
 	}
@@ -506,8 +503,7 @@ func (bpt *BPTree) ensureNotOverloadNonLeaf(recordPath *recordPath, i int) {
 				// <<< fix record path end
 			}
 
-			bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
-			bpt.ensureNotOverloadNonLeaf(recordPath, i-1)
+			bpt.ensureNotOverloadOrUnderloadNonLeaf(recordPath, i-1)
 			return
 		}
 	}
@@ -532,8 +528,7 @@ func (bpt *BPTree) ensureNotOverloadNonLeaf(recordPath *recordPath, i int) {
 				// <<< fix record path end
 			}
 
-			bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
-			bpt.ensureNotOverloadNonLeaf(recordPath, i-1)
+			bpt.ensureNotOverloadOrUnderloadNonLeaf(recordPath, i-1)
 			return
 		}
 	}
@@ -586,8 +581,7 @@ func (bpt *BPTree) ensureNotUnderloadLeaf(recordPath *recordPath) {
 
 		if numberOfRecords := leafController1.CountRecordsForUnshiftingFromRight(leafRSiblingController); numberOfRecords >= 1 {
 			leafController1.UnshiftFromRight(numberOfRecords, leafParentController, leafIndex, leafRSiblingController)
-			bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
-			bpt.ensureNotOverloadNonLeaf(recordPath, i-1)
+			bpt.ensureNotOverloadOrUnderloadNonLeaf(recordPath, i-1)
 			return
 		}
 	} else {
@@ -603,8 +597,7 @@ func (bpt *BPTree) ensureNotUnderloadLeaf(recordPath *recordPath) {
 			// >>> fix record path begin
 			(*recordPath)[i].RecordOrNonLeafChildIndex = numberOfRecords + recordIndex
 			// <<< fix record path end
-			bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
-			bpt.ensureNotOverloadNonLeaf(recordPath, i-1)
+			bpt.ensureNotOverloadOrUnderloadNonLeaf(recordPath, i-1)
 			return
 		}
 	} else {
@@ -663,8 +656,7 @@ func (bpt *BPTree) ensureNotUnderloadNonLeaf(recordPath *recordPath, i int) {
 
 		if numberOfChildren := nonLeafController1.CountChildrenForUnshiftingFromRight(nonLeafParentController, nonLeafIndex, nonLeafRSiblingController); numberOfChildren >= 1 {
 			nonLeafController1.UnshiftFromRight(numberOfChildren, nonLeafParentController, nonLeafIndex, nonLeafRSiblingController)
-			bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
-			bpt.ensureNotOverloadNonLeaf(recordPath, i-1)
+			bpt.ensureNotOverloadOrUnderloadNonLeaf(recordPath, i-1)
 			return
 		}
 	} else {
@@ -680,8 +672,7 @@ func (bpt *BPTree) ensureNotUnderloadNonLeaf(recordPath *recordPath, i int) {
 			// >>> fix record path begin
 			(*recordPath)[i].RecordOrNonLeafChildIndex = numberOfChildren + nonLeafChildIndex
 			// <<< fix record path end
-			bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
-			bpt.ensureNotOverloadNonLeaf(recordPath, i-1)
+			bpt.ensureNotOverloadOrUnderloadNonLeaf(recordPath, i-1)
 			return
 		}
 	} else {
@@ -705,6 +696,19 @@ func (bpt *BPTree) ensureNotUnderloadNonLeaf(recordPath *recordPath, i int) {
 	bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
 }
 
+// ensureNotOverloadOrUnderloadNonLeaf fixes the non-leaf at the given depth
+// in either direction but never in both: fixing it in one direction may change
+// the height, which makes the depth stale.
+func (bpt *BPTree) ensureNotOverloadOrUnderloadNonLeaf(recordPath *recordPath, i int) {
+	nonLeafController := bpt.getNonLeafController((*recordPath)[i].NodeAddr)
+
+	if nonLeafController.GetLoadSize() > nonLeafOverloadThreshold {
+		bpt.ensureNotOverloadNonLeaf(recordPath, i)
+	} else {
+		bpt.ensureNotUnderloadNonLeaf(recordPath, i)
+	}
+}
+
 func (bpt *BPTree) increaseHeight() {
 	rootAddr, rootController := bpt.createNonLeaf()
 	rootController.InsertChildren(0, []nonLeafChild{{nil, bpt.rootAddr}})
-- 
2.43.0

