From 0a9a9a0f86e8c43c9db131a91edb4aa116baa03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:30 +0000
Subject: [PATCH 01/11] fix: bptree range search compares against the wrong
 leaf's key

When the lower bound falls behind the last record of a leaf, search moves on
to the next leaf but kept reading the lower key from the previous one. A range
lying entirely between two leafs was then taken for non-empty, and iterating
over it walked around the whole leaf list.
---
 bptree/bptree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index 014004e..deb92d2 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -765,6 +765,7 @@ func (bpt *BPTree) search(minKey []byte, maxKey []byte) (int64, int, int64, int,
 			}
 
 			minLeafAddr = leafHeader(minLeafController).NextAddr()
+			minLeafController = bpt.getLeafController(minLeafAddr)
 			minRecordIndex = 0
 		}
 	}
-- 
2.43.0


From 1ce251dce1cc59138f902fe1a1782551cb00fee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:30 +0000
Subject: [PATCH 02/11] fix: bptree range search of a single absent key returns
 its successor

Searching the range [k...k] returned the record following k when k is not in
the tree.
---
 bptree/bptree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index deb92d2..4ccbf12 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -759,6 +759,10 @@ func (bpt *BPTree) search(minKey []byte, maxKey []byte) (int64, int, int64, int,
 	minLeafAddr, minLeafController, minRecordIndex := bpt.locateRecord(minRecordPath)
 
 	if !ok3 {
+		if d == 0 {
+			return 0, 0, 0, 0, false
+		}
+
 		if minRecordIndex == minLeafController.NumberOfRecords() {
 			if minLeafAddr == bpt.leafList.TailAddr() {
 				return 0, 0, 0, 0, false
-- 
2.43.0


From 12b91ce4970f1f68ce55aadd96ecec70c831ca5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:12 +0000
Subject: [PATCH 03/11] fix: bptree leaf shifting counts a record it does not
 move

CountRecordsForShiftingToLeft/Right subtracted the record that made them
stop before checking whether the shift brings the leaf back within its
load limits. An overloaded leaf could so be left overloaded, and a later
insertion into it overwrote its record headers (panic or lost records).
---
 bptree/leaf.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bptree/leaf.go b/bptree/leaf.go
index a0c3bd8..412cbe5 100644
--- a/bptree/leaf.go
+++ b/bptree/leaf.go
@@ -202,13 +202,13 @@ func (lc leafController) CountRecordsForShiftingToLeft(leftSibling leafControlle
 
 	for i := 0; ; i++ {
 		recordSize := recordHeaderSize + len(lc.GetKey(i)) + len(lc.GetValue(i))
-		loadSize1 -= recordSize
-		loadSize2 += recordSize
 
-		if loadSize1 < leafUnderloadThreshold || loadSize2 > leafOverloadThreshold {
+		if loadSize1-recordSize < leafUnderloadThreshold || loadSize2+recordSize > leafOverloadThreshold {
 			break
 		}
 
+		loadSize1 -= recordSize
+		loadSize2 += recordSize
 		recordCount++
 
 		if loadSize1 <= loadSize2 {
@@ -236,13 +236,13 @@ func (lc leafController) CountRecordsForShiftingToRight(rightSibling leafControl
 
 	for i := lc.NumberOfRecords() - 1; ; i-- {
 		recordSize := recordHeaderSize + len(lc.GetKey(i)) + len(lc.GetValue(i))
-		loadSize1 -= recordSize
-		loadSize2 += recordSize
 
-		if loadSize1 < leafUnderloadThreshold || loadSize2 > leafOverloadThreshold {
+		if loadSize1-recordSize < leafUnderloadThreshold || loadSize2+recordSize > leafOverloadThreshold {
 			break
 		}
 
+		loadSize1 -= recordSize
+		loadSize2 += recordSize
 		recordCount++
 
 		if loadSize1 <= loadSize2 {
-- 
2.43.0


From 907e036c56bff4474eb56bea3837229bcacf277a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:04 +0000
Subject: [PATCH 04/11] fix: bptree non-leaf shifting miscounts the sizes of
 the moved children

CountChildrenForShiftingToLeft/Right had the loads include the child that
made them stop, and ignored that the first moved child takes over its key
from the parent. Non-leafs could so stay or become overloaded, and a later
insertion into one overwrote its child headers (panic or lost records).
---
 bptree/bptree.go  |  8 +++----
 bptree/nonleaf.go | 57 +++++++++++++++++++++++++++--------------------
 2 files changed, 37 insertions(+), 28 deletions(-)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index 4ccbf12..eb72e69 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -494,7 +494,7 @@ func (bpt *BPTree) ensureNotOverloadNonLeaf(recordPath *recordPath, i int) {
 		nonLeafRSiblingAddr := nonLeafParentController.GetChildAddr(nonLeafIndex + 1)
 		nonLeafRSiblingController := bpt.getNonLeafController(nonLeafRSiblingAddr)
 
-		if numberOfChildren := nonLeafController1.CountChildrenForShiftingToRight(nonLeafRSiblingController); numberOfChildren >= 1 {
+		if numberOfChildren := nonLeafController1.CountChildrenForShiftingToRight(nonLeafParentController, nonLeafIndex, nonLeafRSiblingController); numberOfChildren >= 1 {
 			m := nonLeafController1.NumberOfChildren() - numberOfChildren
 			nonLeafController1.ShiftToRight(numberOfChildren, nonLeafParentController, nonLeafIndex, nonLeafRSiblingController)
 
@@ -516,7 +516,7 @@ func (bpt *BPTree) ensureNotOverloadNonLeaf(recordPath *recordPath, i int) {
 		nonLeafLSiblingAddr := nonLeafParentController.GetChildAddr(nonLeafIndex - 1)
 		nonLeafLSiblingController := bpt.getNonLeafController(nonLeafLSiblingAddr)
 
-		if numberOfChildren := nonLeafController1.CountChildrenForShiftingToLeft(nonLeafLSiblingController); numberOfChildren >= 1 {
+		if numberOfChildren := nonLeafController1.CountChildrenForShiftingToLeft(nonLeafParentController, nonLeafIndex, nonLeafLSiblingController); numberOfChildren >= 1 {
 			m := nonLeafLSiblingController.NumberOfChildren()
 			nonLeafController1.ShiftToLeft(numberOfChildren, nonLeafParentController, nonLeafIndex, nonLeafLSiblingController)
 
@@ -661,7 +661,7 @@ func (bpt *BPTree) ensureNotUnderloadNonLeaf(recordPath *recordPath, i int) {
 		nonLeafRSiblingAddr = nonLeafParentController.GetChildAddr(nonLeafIndex + 1)
 		nonLeafRSiblingController = bpt.getNonLeafController(nonLeafRSiblingAddr)
 
-		if numberOfChildren := nonLeafController1.CountChildrenForUnshiftingFromRight(nonLeafRSiblingController); numberOfChildren >= 1 {
+		if numberOfChildren := nonLeafController1.CountChildrenForUnshiftingFromRight(nonLeafParentController, nonLeafIndex, nonLeafRSiblingController); numberOfChildren >= 1 {
 			nonLeafController1.UnshiftFromRight(numberOfChildren, nonLeafParentController, nonLeafIndex, nonLeafRSiblingController)
 			bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
 			bpt.ensureNotOverloadNonLeaf(recordPath, i-1)
@@ -675,7 +675,7 @@ func (bpt *BPTree) ensureNotUnderloadNonLeaf(recordPath *recordPath, i int) {
 		nonLeafLSiblingAddr = nonLeafParentController.GetChildAddr(nonLeafIndex - 1)
 		nonLeafLSiblingController = bpt.getNonLeafController(nonLeafLSiblingAddr)
 
-		if numberOfChildren := nonLeafController1.CountChildrenForUnshiftingFromLeft(nonLeafLSiblingController); numberOfChildren >= 1 {
+		if numberOfChildren := nonLeafController1.CountChildrenForUnshiftingFromLeft(nonLeafParentController, nonLeafIndex, nonLeafLSiblingController); numberOfChildren >= 1 {
 			nonLeafController1.UnshiftFromLeft(numberOfChildren, nonLeafParentController, nonLeafIndex, nonLeafLSiblingController)
 			// >>> fix record path begin
 			(*recordPath)[i].RecordOrNonLeafChildIndex = numberOfChildren + nonLeafChildIndex
diff --git a/bptree/nonleaf.go b/bptree/nonleaf.go
index f3c0f4d..44aaa20 100644
--- a/bptree/nonleaf.go
+++ b/bptree/nonleaf.go
@@ -202,25 +202,31 @@ func (nlc nonLeafController) MergeFromRight(parent nonLeafController, index int,
 	nlc.InsertChildren(nlc.NumberOfChildren(), children)
 }
 
-func (nlc nonLeafController) CountChildrenForShiftingToLeft(leftSibling nonLeafController) int {
-	loadSize1 := nlc.GetLoadSize() - (nonLeafChildHeaderSize + len(nlc.GetKey(0)))
-	loadSize2 := leftSibling.GetLoadSize() + nonLeafChildHeaderSize
+func (nlc nonLeafController) CountChildrenForShiftingToLeft(parent nonLeafController, index int, leftSibling nonLeafController) int {
+	loadSize1 := nlc.GetLoadSize()
+	loadSize2 := leftSibling.GetLoadSize()
+	keySize := len(parent.GetKey(index))
 	childCount := 0
 
 	for i := 1; ; i++ {
-		if loadSize1 < nonLeafUnderloadThreshold || loadSize2 > nonLeafOverloadThreshold {
+		nextKeySize := len(nlc.GetKey(i))
+		// the key of the next child moves to the parent, from which
+		// the child takes the key over
+		newLoadSize1 := loadSize1 - (nonLeafChildHeaderSize + nextKeySize)
+		newLoadSize2 := loadSize2 + (nonLeafChildHeaderSize + keySize)
+
+		if newLoadSize1 < nonLeafUnderloadThreshold || newLoadSize2 > nonLeafOverloadThreshold {
 			break
 		}
 
+		loadSize1 = newLoadSize1
+		loadSize2 = newLoadSize2
+		keySize = nextKeySize
 		childCount++
 
 		if loadSize1 <= loadSize2 {
 			break
 		}
-
-		childSize := nonLeafChildHeaderSize + len(nlc.GetKey(i))
-		loadSize1 -= childSize
-		loadSize2 += childSize
 	}
 
 	if loadSize1 > nonLeafOverloadThreshold || loadSize2 < nonLeafUnderloadThreshold {
@@ -238,28 +244,31 @@ func (nlc nonLeafController) ShiftToLeft(numberOfChildren int, parent nonLeafCon
 	leftSibling.InsertChildren(leftSibling.NumberOfChildren(), children)
 }
 
-func (nlc nonLeafController) CountChildrenForShiftingToRight(rightSibling nonLeafController) int {
-	n := nlc.NumberOfChildren()
-	lastChildSize := nonLeafChildHeaderSize + len(nlc.GetKey(n-1))
-	loadSize1 := nlc.GetLoadSize() - lastChildSize
-	loadSize2 := rightSibling.GetLoadSize() + nonLeafChildHeaderSize
+func (nlc nonLeafController) CountChildrenForShiftingToRight(parent nonLeafController, index int, rightSibling nonLeafController) int {
+	loadSize1 := nlc.GetLoadSize()
+	loadSize2 := rightSibling.GetLoadSize()
+	keySize := len(parent.GetKey(index + 1))
 	childCount := 0
 
-	for i := n - 2; ; i-- {
-		if loadSize1 < nonLeafUnderloadThreshold || loadSize2 > nonLeafOverloadThreshold {
+	for i := nlc.NumberOfChildren() - 1; ; i-- {
+		nextKeySize := len(nlc.GetKey(i))
+		// the key of the child moves to the parent, from which
+		// the next child takes the key over
+		newLoadSize1 := loadSize1 - (nonLeafChildHeaderSize + nextKeySize)
+		newLoadSize2 := loadSize2 + (nonLeafChildHeaderSize + keySize)
+
+		if newLoadSize1 < nonLeafUnderloadThreshold || newLoadSize2 > nonLeafOverloadThreshold {
 			break
 		}
 
+		loadSize1 = newLoadSize1
+		loadSize2 = newLoadSize2
+		keySize = nextKeySize
 		childCount++
 
 		if loadSize1 <= loadSize2 {
 			break
 		}
-
-		childSize := nonLeafChildHeaderSize + len(nlc.GetKey(i))
-		loadSize1 -= childSize
-		loadSize2 += lastChildSize
-		lastChildSize = childSize
 	}
 
 	if loadSize1 > nonLeafOverloadThreshold || loadSize2 < nonLeafUnderloadThreshold {
@@ -277,16 +286,16 @@ func (nlc nonLeafController) ShiftToRight(numberOfChildren int, parent nonLeafCo
 	rightSibling.InsertChildren(0, children)
 }
 
-func (nlc nonLeafController) CountChildrenForUnshiftingFromLeft(leftSibling nonLeafController) int {
-	return leftSibling.CountChildrenForShiftingToRight(nlc)
+func (nlc nonLeafController) CountChildrenForUnshiftingFromLeft(parent nonLeafController, index int, leftSibling nonLeafController) int {
+	return leftSibling.CountChildrenForShiftingToRight(parent, index-1, nlc)
 }
 
 func (nlc nonLeafController) UnshiftFromLeft(numberOfChildren int, parent nonLeafController, index int, leftSibling nonLeafController) {
 	leftSibling.ShiftToRight(numberOfChildren, parent, index-1, nlc)
 }
 
-func (nlc nonLeafController) CountChildrenForUnshiftingFromRight(rightSibling nonLeafController) int {
-	return rightSibling.CountChildrenForShiftingToLeft(nlc)
+func (nlc nonLeafController) CountChildrenForUnshiftingFromRight(parent nonLeafController, index int, rightSibling nonLeafController) int {
+	return rightSibling.CountChildrenForShiftingToLeft(parent, index+1, nlc)
 }
 
 func (nlc nonLeafController) UnshiftFromRight(numberOfChildren int, parent nonLeafController, index int, rightSibling nonLeafController) {
-- 
2.43.0


From cca5c8ed1b7d8908cf908eea929554fc2c73b063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:46 +0000
Subject: [PATCH 05/11] fix: hashmap Create writes through an accessor made
 stale by an allocation

AllocateSpace may remap the file, so the accessor of the slot directories
has to be obtained after the slot directory is allocated. Creating a hash
map in a file storage that had to grow in between crashed.
---
 hashmap/hashmap.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hashmap/hashmap.go b/hashmap/hashmap.go
index dd3a259..332d132 100644
--- a/hashmap/hashmap.go
+++ b/hashmap/hashmap.go
@@ -34,8 +34,9 @@ func (hm *HashMap) Init(fileStorage *fsm.FileStorage) *HashMap {
 
 // Create creates the hash map on the file storage.
 func (hm *HashMap) Create() {
-	slotDirsAddr, buffer1 := hm.fileStorage.AllocateSpace(8 << minMaxSlotDirCountShift)
+	slotDirsAddr, _ := hm.fileStorage.AllocateSpace(8 << minMaxSlotDirCountShift)
 	slotDirAddr, buffer2 := hm.fileStorage.AllocateSpace(8 << slotDirLengthShift)
+	buffer1 := hm.fileStorage.AccessSpace(slotDirsAddr)
 	binary.BigEndian.PutUint64(buffer1, uint64(slotDirAddr))
 	binary.BigEndian.PutUint64(buffer2, ^uint64(0))
 	hm.slotDirsAddr = slotDirsAddr
-- 
2.43.0


From 8bf312ae02b88488000fa384cdf380f893e24270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 06/11] fix: bptree iterators panic reading a long key or value
 at a huge offset

The sum of the offset and the buffer size overflowed, so that a read past
the end of the data sliced out of range instead of returning no bytes.
---
 bptree/key.go   | 2 +-
 bptree/value.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bptree/key.go b/bptree/key.go
index d8f8c1f..bfc3d9d 100644
--- a/bptree/key.go
+++ b/bptree/key.go
@@ -86,7 +86,7 @@ func (kf keyFactory) ReadKey(key key, dataOffset int, buffer []byte) int {
 		return copy(buffer, key[dataOffset:])
 	}
 
-	if dataOffset+len(buffer) <= keyPrefixSize {
+	if dataOffset <= keyPrefixSize && dataOffset+len(buffer) <= keyPrefixSize {
 		return copy(buffer, key[dataOffset:])
 	}
 
diff --git a/bptree/value.go b/bptree/value.go
index 373d116..b1f0756 100644
--- a/bptree/value.go
+++ b/bptree/value.go
@@ -49,7 +49,7 @@ func (vf valueFactory) ReadValue(value value, dataOffset int, buffer []byte) int
 		return copy(buffer, value[dataOffset:])
 	}
 
-	if dataOffset+len(buffer) <= valuePrefixSize {
+	if dataOffset <= valuePrefixSize && dataOffset+len(buffer) <= valuePrefixSize {
 		return copy(buffer, value[dataOffset:])
 	}
 
-- 
2.43.0


From cb8f9684a4893f7772f9af001cb0a29f69cfcaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:52 +0000
Subject: [PATCH 07/11] fix: destroying a non-empty bptree or hashmap leaks the
 space it holds

Destroy released only the root leaf, respectively one slot directory.
---
 bptree/bptree.go   | 23 ++++++++++++++++++++++-
 hashmap/hashmap.go | 10 ++++++++--
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index eb72e69..aa9cf22 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -38,7 +38,7 @@ func (bpt *BPTree) Create() {
 
 // Destroy destroys the B+ tree on the file storage.
 func (bpt *BPTree) Destroy() {
-	bpt.destroyLeaf(bpt.rootAddr)
+	bpt.destroySubtree(bpt.rootAddr, bpt.height)
 	*bpt = *new(BPTree).Init(bpt.fileStorage)
 }
 
@@ -705,6 +705,27 @@ func (bpt *BPTree) ensureNotUnderloadNonLeaf(recordPath *recordPath, i int) {
 	bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
 }
 
+func (bpt *BPTree) destroySubtree(nodeAddr int64, height int) {
+	if height == 1 {
+		leafController := bpt.getLeafController(nodeAddr)
+
+		if numberOfRecords := leafController.NumberOfRecords(); numberOfRecords >= 1 {
+			for _, record := range leafController.RemoveRecords(0, numberOfRecords) {
+				bpt.destroyRecord(record, false)
+			}
+		}
+
+		bpt.destroyLeaf(nodeAddr)
+		return
+	}
+
+	for i := bpt.getNonLeafController(nodeAddr).NumberOfChildren() - 1; i >= 0; i-- {
+		bpt.destroySubtree(bpt.getNonLeafController(nodeAddr).GetChildAddr(i), height-1)
+	}
+
+	bpt.destroyNonLeaf(nodeAddr)
+}
+
 func (bpt *BPTree) increaseHeight() {
 	rootAddr, rootController := bpt.createNonLeaf()
 	rootController.InsertChildren(0, []nonLeafChild{{nil, bpt.rootAddr}})
diff --git a/hashmap/hashmap.go b/hashmap/hashmap.go
index 332d132..01124a7 100644
--- a/hashmap/hashmap.go
+++ b/hashmap/hashmap.go
@@ -47,9 +47,15 @@ func (hm *HashMap) Create() {
 
 // Destroy destroys the hash map on the file storage.
 func (hm *HashMap) Destroy() {
-	slotDirAddr := int64(binary.BigEndian.Uint64(hm.fileStorage.AccessSpace(hm.slotDirsAddr)))
+	for i := 0; i < hm.slotCount; i++ {
+		hm.eraseSlot(hm.locateSlotAddr(i).Get(hm.fileStorage))
+	}
+
+	for i := 0; i < hm.slotDirCount; i++ {
+		hm.fileStorage.FreeSpace(hm.locateSlotDirAddr(i).Get(hm.fileStorage))
+	}
+
 	hm.fileStorage.FreeSpace(hm.slotDirsAddr)
-	hm.fileStorage.FreeSpace(slotDirAddr)
 	*hm = *new(HashMap).Init(hm.fileStorage)
 }
 
-- 
2.43.0


From 72b0a7584e9119578f49711e15cea5713a1f949c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:48 +0000
Subject: [PATCH 08/11] fix: bptree rebalancing takes a leaf for a non-leaf
 after the height decreases

After ensureNotUnderloadNonLeaf removed the root from the record path, the
following ensureNotOverloadNonLeaf with the same index looked at the node one
level below the intended one, at a leaf at the lowest level. In a file larger
than 4 GiB the leaf's link was taken for a number of children: panics or a
damaged tree.
---
 bptree/bptree.go | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index aa9cf22..3d5ce93 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -358,8 +358,7 @@ func (bpt *BPTree) syncKey(recordPath *recordPath) {
 		if nonLeafChildIndex >= 1 {
 			nonLeafController := bpt.getNonLeafController((*recordPath)[i].NodeAddr)
 			nonLeafController.SetKey(nonLeafChildIndex, leafController.GetKey(0))
-			bpt.ensureNotUnderloadNonLeaf(recordPath, i)
-			bpt.ensureNotOverloadNonLeaf(recordPath, i)
+			bpt.ensureNotUnderloadOrOverloadNonLeaf(recordPath, i)
 			return
 		}
 	}
@@ -409,8 +408,7 @@ func (bpt *BPTree) ensureNotOverloadLeaf(recordPath *recordPath) {
 				// <<< fix record path end
 			}
 
-			bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
-			bpt.ensureNotOverloadNonLeaf(recordPath, i-1)
+			bpt.ensureNotUnderloadOrOverloadNonLeaf(recordPath, i-1)
 			return
 		}
 	}
@@ -435,8 +433,7 @@ func (bpt *BPTree) ensureNotOverloadLeaf(recordPath *recordPath) {
 				// <<< fix record path end
 			}
 
-			bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
-			bpt.ensureNotOverloadNonLeaf(recordPath, i-1)
+			bpt.ensureNotUnderloadOrOverloadNonLeaf(recordPath, i-1)
 			return
 		}
 	}
@@ -506,8 +503,7 @@ func (bpt *BPTree) ensureNotOverloadNonLeaf(recordPath *recordPath, i int) {
 				// <<< fix record path end
 			}
 
-			bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
-			bpt.ensureNotOverloadNonLeaf(recordPath, i-1)
+			bpt.ensureNotUnderloadOrOverloadNonLeaf(recordPath, i-1)
 			return
 		}
 	}
@@ -532,8 +528,7 @@ func (bpt *BPTree) ensureNotOverloadNonLeaf(recordPath *recordPath, i int) {
 				// <<< fix record path end
 			}
 
-			bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
-			bpt.ensureNotOverloadNonLeaf(recordPath, i-1)
+			bpt.ensureNotUnderloadOrOverloadNonLeaf(recordPath, i-1)
 			return
 		}
 	}
@@ -586,8 +581,7 @@ func (bpt *BPTree) ensureNotUnderloadLeaf(recordPath *recordPath) {
 
 		if numberOfRecords := leafController1.CountRecordsForUnshiftingFromRight(leafRSiblingController); numberOfRecords >= 1 {
 			leafController1.UnshiftFromRight(numberOfRecords, leafParentController, leafIndex, leafRSiblingController)
-			bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
-			bpt.ensureNotOverloadNonLeaf(recordPath, i-1)
+			bpt.ensureNotUnderloadOrOverloadNonLeaf(recordPath, i-1)
 			return
 		}
 	} else {
@@ -603,8 +597,7 @@ func (bpt *BPTree) ensureNotUnderloadLeaf(recordPath *recordPath) {
 			// >>> fix record path begin
 			(*recordPath)[i].RecordOrNonLeafChildIndex = numberOfRecords + recordIndex
 			// <<< fix record path end
-			bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
-			bpt.ensureNotOverloadNonLeaf(recordPath, i-1)
+			bpt.ensureNotUnderloadOrOverloadNonLeaf(recordPath, i-1)
 			return
 		}
 	} else {
@@ -663,8 +656,7 @@ func (bpt *BPTree) ensureNotUnderloadNonLeaf(recordPath *recordPath, i int) {
 
 		if numberOfChildren := nonLeafController1.CountChildrenForUnshiftingFromRight(nonLeafParentController, nonLeafIndex, nonLeafRSiblingController); numberOfChildren >= 1 {
 			nonLeafController1.UnshiftFromRight(numberOfChildren, nonLeafParentController, nonLeafIndex, nonLeafRSiblingController)
-			bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
-			bpt.ensureNotOverloadNonLeaf(recordPath, i-1)
+			bpt.ensureNotUnderloadOrOverloadNonLeaf(recordPath, i-1)
 			return
 		}
 	} else {
@@ -680,8 +672,7 @@ func (bpt *BPTree) ensureNotUnderloadNonLeaf(recordPath *recordPath, i int) {
 			// >>> fix record path begin
 			(*recordPath)[i].RecordOrNonLeafChildIndex = numberOfChildren + nonLeafChildIndex
 			// <<< fix record path end
-			bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
-			bpt.ensureNotOverloadNonLeaf(recordPath, i-1)
+			bpt.ensureNotUnderloadOrOverloadNonLeaf(recordPath, i-1)
 			return
 		}
 	} else {
@@ -705,6 +696,16 @@ func (bpt *BPTree) ensureNotUnderloadNonLeaf(recordPath *recordPath, i int) {
 	bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
 }
 
+func (bpt *BPTree) ensureNotUnderloadOrOverloadNonLeaf(recordPath *recordPath, i int) {
+	n := len(*recordPath)
+	bpt.ensureNotUnderloadNonLeaf(recordPath, i)
+	i -= n - len(*recordPath) // the height may have been decreased
+
+	if i >= 0 {
+		bpt.ensureNotOverloadNonLeaf(recordPath, i)
+	}
+}
+
 func (bpt *BPTree) destroySubtree(nodeAddr int64, height int) {
 	if height == 1 {
 		leafController := bpt.getLeafController(nodeAddr)
-- 
2.43.0


From e9fd9e966052ac2d4ba48b01662bf27148d8aa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:28 +0000
Subject: [PATCH 09/11] fix: hashmap scan results share one backing array,
 appending to one overwrites the next

---
 hashmap/hashmap.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hashmap/hashmap.go b/hashmap/hashmap.go
index 01124a7..0f4de9e 100644
--- a/hashmap/hashmap.go
+++ b/hashmap/hashmap.go
@@ -623,14 +623,14 @@ func unpackSlot(slot *protocol.HashSlot) []hashItem {
 		itemInfo := &slot.ItemInfos[j]
 		item := &items[j]
 		item.KeySum = itemInfo.KeySum
-		item.Key = slot.Bin[i : i+int(itemInfo.KeySize)]
-		i += int(itemInfo.KeySize)
-		item.Value = slot.Bin[i : i+int(itemInfo.ValueSize)]
-		i += int(itemInfo.ValueSize)
+		k := i + int(itemInfo.KeySize)
+		item.Key = slot.Bin[i:k:k]
+		i = k + int(itemInfo.ValueSize)
+		item.Value = slot.Bin[k:i:i]
 	}
 
 	// cost of optimization for binary size
-	items[n-1].Value = slot.Bin[i:]
+	items[n-1].Value = slot.Bin[i:len(slot.Bin):len(slot.Bin)]
 	return items
 }
 
-- 
2.43.0


From 3b8df272ab5045215df8de26227c57135d091c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 10/11] fix: a descriptor released while the file still refers
 to it let what a killed session left open as another dictionary

---
 bptree/bptree.go   | 26 +++++++++++++++++++++++---
 hashmap/hashmap.go | 21 +++++++++++++++++++--
 2 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index 3d5ce93..ad2930f 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -11,6 +11,7 @@ import (
 // BPTree represents a B+ tree on disk.
 type BPTree struct {
 	fileStorage  *fsm.FileStorage
+	infoAddr     int64
 	rootAddr     int64
 	height       int
 	leafList     leafList
@@ -23,6 +24,7 @@ type BPTree struct {
 // Init initializes the B+ tree with the given file storage and returns it.
 func (bpt *BPTree) Init(fileStorage *fsm.FileStorage) *BPTree {
 	bpt.fileStorage = fileStorage
+	bpt.infoAddr = -1
 	bpt.rootAddr = -1
 	bpt.leafList.Set(-1, -1)
 	return bpt
@@ -39,6 +41,7 @@ func (bpt *BPTree) Create() {
 // Destroy destroys the B+ tree on the file storage.
 func (bpt *BPTree) Destroy() {
 	bpt.destroySubtree(bpt.rootAddr, bpt.height)
+	bpt.freeInfo()
 	*bpt = *new(BPTree).Init(bpt.fileStorage)
 }
 
@@ -64,6 +67,7 @@ func (bpt *BPTree) Store() int64 {
 
 	infoAddr, buffer2 := bpt.fileStorage.AllocateSpace(buffer.Len())
 	copy(buffer2, buffer.Bytes())
+	bpt.freeInfo()
 	*bpt = *new(BPTree).Init(bpt.fileStorage)
 	return infoAddr
 }
@@ -71,14 +75,24 @@ func (bpt *BPTree) Store() int64 {
 // Load loads the B+ tree from the file storage with the
 // given info address.
 func (bpt *BPTree) Load(infoAddr int64) {
-	data := bytes.NewReader(bpt.fileStorage.AccessSpace(infoAddr))
+	data := bpt.fileStorage.AccessSpace(infoAddr)
 	var info bpTreeInfo
 
-	if err := binary.Read(data, binary.BigEndian, &info); err != nil {
+	if err := binary.Read(bytes.NewReader(data), binary.BigEndian, &info); err != nil {
 		panic(err)
 	}
 
-	bpt.fileStorage.FreeSpace(infoAddr)
+	if info.Height < 1 {
+		panic(errCorrupted)
+	}
+
+	// The info gets out of date, keep its space and make it unreadable, so that
+	// the B+ tree won't be loaded with it if it's not stored again.
+	for i := range data {
+		data[i] = 0xFF
+	}
+
+	bpt.infoAddr = infoAddr
 	bpt.rootAddr = info.RootAddr
 	bpt.height = int(info.Height)
 	bpt.leafList.Set(info.LeafListTailAddr, info.LeafListHeadAddr)
@@ -226,6 +240,12 @@ func (bpt *BPTree) PayloadSize() int {
 	return bpt.payloadSize
 }
 
+func (bpt *BPTree) freeInfo() {
+	if bpt.infoAddr >= 0 {
+		bpt.fileStorage.FreeSpace(bpt.infoAddr)
+	}
+}
+
 func (bpt *BPTree) insertRecord(recordPath recordPath, record1 record) {
 	_, leafController, recordIndex := bpt.locateRecord(recordPath)
 	leafController.InsertRecords(recordIndex, []record{record1})
diff --git a/hashmap/hashmap.go b/hashmap/hashmap.go
index 0f4de9e..6a60887 100644
--- a/hashmap/hashmap.go
+++ b/hashmap/hashmap.go
@@ -16,6 +16,7 @@ import (
 // HashMap represents a hash map on disk.
 type HashMap struct {
 	fileStorage          *fsm.FileStorage
+	infoAddr             int64
 	slotDirsAddr         int64
 	maxSlotDirCountShift int
 	slotDirCount         int
@@ -28,6 +29,7 @@ type HashMap struct {
 // Init initializes the hash map with the given file storage and returns it.
 func (hm *HashMap) Init(fileStorage *fsm.FileStorage) *HashMap {
 	hm.fileStorage = fileStorage
+	hm.infoAddr = -1
 	hm.slotDirsAddr = -1
 	return hm
 }
@@ -56,6 +58,7 @@ func (hm *HashMap) Destroy() {
 	}
 
 	hm.fileStorage.FreeSpace(hm.slotDirsAddr)
+	hm.freeInfo()
 	*hm = *new(HashMap).Init(hm.fileStorage)
 }
 
@@ -76,6 +79,7 @@ func (hm *HashMap) Store() int64 {
 
 	infoAddr, buffer2 := hm.fileStorage.AllocateSpace(len(buffer.Bytes()))
 	copy(buffer2, buffer.Bytes())
+	hm.freeInfo()
 	*hm = *new(HashMap).Init(hm.fileStorage)
 	return infoAddr
 }
@@ -83,14 +87,21 @@ func (hm *HashMap) Store() int64 {
 // Load loads the hash map from the file storage with the
 // given info address.
 func (hm *HashMap) Load(infoAddr int64) {
-	buffer := proto.NewBuffer(hm.fileStorage.AccessSpace(infoAddr))
+	data := hm.fileStorage.AccessSpace(infoAddr)
+	buffer := proto.NewBuffer(data)
 	var info protocol.HashMapInfo
 
 	if err := buffer.DecodeMessage(&info); err != nil {
 		panic(errCorrupted)
 	}
 
-	hm.fileStorage.FreeSpace(infoAddr)
+	// The info gets out of date, keep its space and make it unreadable, so that
+	// the hash map won't be loaded with it if it's not stored again.
+	for i := range data {
+		data[i] = 0xFF
+	}
+
+	hm.infoAddr = infoAddr
 	hm.slotDirsAddr = info.SlotDirsAddr
 	hm.maxSlotDirCountShift = int(info.MaxSlotDirCountShift)
 	hm.slotDirCount = int(info.SlotDirCount)
@@ -250,6 +261,12 @@ func (hm *HashMap) PayloadSize() int {
 	return hm.payloadSize
 }
 
+func (hm *HashMap) freeInfo() {
+	if hm.infoAddr >= 0 {
+		hm.fileStorage.FreeSpace(hm.infoAddr)
+	}
+}
+
 func (hm *HashMap) locateItem(key []byte, keySum uint64) (*items, int) {
 	var items items
 	items.SlotAddrRef = hm.locateSlotAddr(hm.calculateSlotIndex(keySum))
-- 
2.43.0


From 1e3245f11fad70743b1c8309ddddbcc188f2fa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:31 +0000
Subject: [PATCH 11/11] fix: a scan going on from a copy of its cursor returned
 the same slices again, with what the caller had written to them

---
 hashmap/hashmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hashmap/hashmap.go b/hashmap/hashmap.go
index 6a60887..fe4ee05 100644
--- a/hashmap/hashmap.go
+++ b/hashmap/hashmap.go
@@ -209,7 +209,7 @@ func (hm *HashMap) FetchItem(cursor *Cursor) ([]byte, []byte, bool) {
 	if cursor.itemIndex < len(cursor.items) {
 		item := &cursor.items[cursor.itemIndex]
 		cursor.itemIndex++
-		return item.Key, item.Value, true
+		return copyBytes(item.Key), copyBytes(item.Value), true
 	}
 
 	for cursor.slotIndex < hm.slotCount {
@@ -221,7 +221,7 @@ func (hm *HashMap) FetchItem(cursor *Cursor) ([]byte, []byte, bool) {
 		if len(cursor.items) >= 1 {
 			item := &cursor.items[0]
 			cursor.itemIndex = 1
-			return item.Key, item.Value, true
+			return copyBytes(item.Key), copyBytes(item.Value), true
 		}
 	}
 
-- 
2.43.0

