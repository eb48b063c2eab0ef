From fa2b916a69ec34d2ca4eac6f0522c74f6c5c10f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:15 +0000
Subject: [PATCH 01/24] fix: KeyCompare returns -1/+1 for differing types, as
 documented

---
 pkg/btrfs/btrfs.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/btrfs/btrfs.go b/pkg/btrfs/btrfs.go
index b08d79f..638f02c 100644
--- a/pkg/btrfs/btrfs.go
+++ b/pkg/btrfs/btrfs.go
@@ -282,8 +282,11 @@ const KeyLen = 8 + 1 + 8
 // KeyCompare compares two BTRFS keys lexicographically. It returns 0 if
 // a==b, -1 if a < b and +1 if a > b.
 func KeyCompare(a, b Key) int {
-	if r := int(a.Type) - int(b.Type); r != 0 {
-		return r
+	if a.Type < b.Type {
+		return -1
+	}
+	if a.Type > b.Type {
+		return 1
 	}
 	if a.ObjectID < b.ObjectID {
 		return -1
-- 
2.43.0


From 7688757fa1613f203f8773d83af36ae8990fc63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:15 +0000
Subject: [PATCH 02/24] fix: full backref extent flag is bit 8 in the BTRFS
 format

---
 pkg/btrfs/btrfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/btrfs/btrfs.go b/pkg/btrfs/btrfs.go
index 638f02c..30c53f0 100644
--- a/pkg/btrfs/btrfs.go
+++ b/pkg/btrfs/btrfs.go
@@ -804,7 +804,7 @@ func (r RootRef) Name() string {
 const (
 	ExtentFlagData = 1 << iota
 	ExtentFlagTreeBlock
-	ExtentFlagFullBackref = 0x80
+	ExtentFlagFullBackref = 1 << 8
 )
 
 // Items in the extent btree are used to record the objectid of the
-- 
2.43.0


From 48ceff02ba4a7fa53a83cb605f29e7c7c12bfb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:19 +0000
Subject: [PATCH 03/24] fix: items of a corrupted leaf are read within the leaf

---
 pkg/btrfs/leaf.go  | 12 +++---------
 pkg/btrfs/slice.go | 12 ++++++++++++
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/pkg/btrfs/leaf.go b/pkg/btrfs/leaf.go
index 42e0752..6839e29 100644
--- a/pkg/btrfs/leaf.go
+++ b/pkg/btrfs/leaf.go
@@ -69,7 +69,7 @@ func (l Leaf) Header() Header { return Header(l) }
 // Len returns the number of items in this leaf.
 func (l Leaf) Len() int {
 	// Clamp maximum number of items to avoid OOM in case NrItems is corrupted.
-	maxItems := cap(l) / ItemLen
+	maxItems := (len(l) - HeaderLen) / ItemLen
 	numItems := l.Header().NrItems()
 	if numItems > uint32(maxItems) {
 		numItems = uint32(maxItems)
@@ -96,12 +96,6 @@ func (l Leaf) Key(i int) Key {
 
 func (l Leaf) Data(i int) []byte {
 	item := l.Item(i)
-	o := HeaderLen + item.Offset()
-	// Guard against invalid Item lengths.
-	leafLen := uint32(len(l))
-	e := o + item.Size()
-	if e > leafLen {
-		e = leafLen
-	}
-	return l[o:e]
+	// Guard against invalid Item offsets and lengths.
+	return clip(l[HeaderLen:], uint64(item.Offset()), uint64(item.Size()))
 }
diff --git a/pkg/btrfs/slice.go b/pkg/btrfs/slice.go
index edcb022..7bf949a 100644
--- a/pkg/btrfs/slice.go
+++ b/pkg/btrfs/slice.go
@@ -16,6 +16,18 @@ func SliceUint16LE(b []byte) uint16 { return binary.LittleEndian.Uint16(b[:2]) }
 func SliceUint32LE(b []byte) uint32 { return binary.LittleEndian.Uint32(b[:4]) }
 func SliceUint64LE(b []byte) uint64 { return binary.LittleEndian.Uint64(b[:8]) }
 
+// clip returns the n bytes of b starting at o, cut off at the end of b.
+func clip(b []byte, o, n uint64) []byte {
+	l := uint64(len(b))
+	if o > l {
+		o = l
+	}
+	if n > l-o {
+		n = l - o
+	}
+	return b[o : o+n]
+}
+
 func SliceUUID(b []byte) uuid.UUID {
 	u := uuid.UUID{}
 	copy(u[:], b[:uuid.UUIDSize])
-- 
2.43.0


From a4d9d73a97d5bb0ae0a8fb001751b972179f6cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:21 +0000
Subject: [PATCH 04/24] fix: names and data of items are cut off at the end of
 the item

---
 pkg/btrfs/btrfs.go | 14 +++++++-------
 pkg/btrfs/leaf.go  |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/btrfs/btrfs.go b/pkg/btrfs/btrfs.go
index 30c53f0..a648549 100644
--- a/pkg/btrfs/btrfs.go
+++ b/pkg/btrfs/btrfs.go
@@ -520,7 +520,7 @@ func (i InodeRefItem) Name() string {
 	if l > 255 {
 		l = 255
 	}
-	return string(i[inodeRefItemName : inodeRefItemName+l])
+	return string(clip(i, inodeRefItemName, uint64(l)))
 }
 
 // Directory item type
@@ -560,12 +560,12 @@ func (d DirItem) Name() string {
 	if l > 255 {
 		l = 255
 	}
-	return string(d[dirItemName : dirItemName+l])
+	return string(clip(d, dirItemName, uint64(l)))
 }
 
 func (d DirItem) Data() string {
-	o := dirItemName + d.NameLen()
-	return string(d[o : o+d.DataLen()])
+	o := dirItemName + uint64(d.NameLen())
+	return string(clip(d, o, uint64(d.DataLen())))
 }
 
 func (d DirItem) IsDir() bool       { return d.Type() == FtDir }
@@ -667,11 +667,11 @@ func (i FileExtentItem) IsInline() bool { return i.Type() == FileExtentInline }
 
 // The data returned is only valid if Type == FileExtentInline:
 func (i FileExtentItem) Data() string {
-	l := int(i.RAMBytes())
+	l := i.RAMBytes()
 	if l > DefaultBlockSize {
 		l = DefaultBlockSize
 	}
-	return string(i[fileExtentItemDiskByteNr : fileExtentItemDiskByteNr+l])
+	return string(clip(i, fileExtentItemDiskByteNr, l))
 }
 
 type CSumItem []byte
@@ -797,7 +797,7 @@ func (r RootRef) Name() string {
 	if l > 255 {
 		l = 255
 	}
-	return string(r[rootRefName : rootRefName+l])
+	return string(clip(r, rootRefName, uint64(l)))
 }
 
 // Extent item flags
diff --git a/pkg/btrfs/leaf.go b/pkg/btrfs/leaf.go
index 6839e29..e782dfa 100644
--- a/pkg/btrfs/leaf.go
+++ b/pkg/btrfs/leaf.go
@@ -60,7 +60,7 @@ const (
 func (i Item) Key() Key       { return SliceKey(i[itemKey:]) }
 func (i Item) Offset() uint32 { return SliceUint32LE(i[itemOffset:]) }
 func (i Item) Size() uint32   { return SliceUint32LE(i[itemSize:]) }
-func (i Item) Data() []byte   { return i[ItemLen : ItemLen+i.Size()] }
+func (i Item) Data() []byte   { return clip(i[ItemLen:], 0, uint64(i.Size())) }
 
 type Leaf []byte
 
-- 
2.43.0


From 39785f8913e78b610ca1a75db03b5dc16a24f45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:21 +0000
Subject: [PATCH 05/24] fix: offset of later chunk stripes does not wrap at 64
 KiB

---
 pkg/btrfs/btrfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/btrfs/btrfs.go b/pkg/btrfs/btrfs.go
index a648549..a3b0013 100644
--- a/pkg/btrfs/btrfs.go
+++ b/pkg/btrfs/btrfs.go
@@ -449,7 +449,7 @@ func (c Chunk) SubStripes() uint16 { return SliceUint16LE(c[chunkSubStripes:]) }
 
 // Stripe returns the ith stripe of this chunk.
 func (c Chunk) Stripe(i uint16) Stripe {
-	return Stripe(c[chunkStripes+i*stripeEnd:])
+	return Stripe(c[chunkStripes+int(i)*stripeEnd:])
 }
 
 type InodeItem []byte
-- 
2.43.0


From c9a6ab6146d82423adb3c06104b41501687eabe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:17 +0000
Subject: [PATCH 06/24] fix: ReadBlockAt succeeds exactly when the whole block
 was read

---
 pkg/ioutil/ioutil.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/ioutil/ioutil.go b/pkg/ioutil/ioutil.go
index 4be2863..4cbf1af 100644
--- a/pkg/ioutil/ioutil.go
+++ b/pkg/ioutil/ioutil.go
@@ -13,10 +13,12 @@ import (
 //
 // It always either reads a full block or reports an error.
 func ReadBlockAt(r io.ReaderAt, block []byte, offset uint64) error {
-	if read, err := r.ReadAt(block, int64(offset)); err != nil {
-		return err
-	} else if read == len(block) {
+	read, err := r.ReadAt(block, int64(offset))
+	if read == len(block) {
 		return nil // Never return EOF if read succeeded
 	}
-	return nil
+	if err == nil {
+		err = io.ErrUnexpectedEOF
+	}
+	return err
 }
-- 
2.43.0


From 5cb0b4d1ec4a1dd9441d617b193450d473fabc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:04 +0000
Subject: [PATCH 07/24] fix: index lookups return the newest version not newer
 than the view

Looking up a key could return a newer version, another object or crash, and
iterating a range skipped or repeated objects with several generations.
---
 pkg/btrfs/index/index_store.go | 95 ++++++++++++++++------------------
 1 file changed, 44 insertions(+), 51 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index c87f6bb..a0247bc 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -259,63 +259,56 @@ func (ix *Index) RawTx(fn func(db *bbolt.DB, tx *bbolt.Tx,
 	return ix.Commit()
 }
 
-// lowerBound finds an FS key under a given owner and only up to a prefix
-// length. It find the key with the highest generation number smaller than or
-// equal to the index generation.
-// For example, to search for (256 DIR_INDEX ?) owned by the FS tree object:
-//   lowerBound(FSTreeObjectID, KF(DIR_INDEX, 256), keyV2Offset)
-func lowerBound(c *bbolt.Cursor, owner uint64, k btrfs.Key, gen uint64,
-	prefix int) btrfs.Key {
-	var cur, next keyV2
-	search := newIndexKey(owner, k, 0)[:prefix]
-	cur, _ = c.Seek(search)
-	if cur == nil || !bytes.Equal(cur[:prefix], search) {
-		return KL()
-	}
-
-	for {
-		curKeyPrefix := cur[:keyV2Generation]
-		next, _ = c.Next()
-		if next != nil && bytes.Equal(next[:keyV2Generation], curKeyPrefix) {
-			if next.Generation() > gen {
-				return cur.Key()
-			}
-			cur = next
-			continue
-		}
-		return cur.Key()
-	}
-}
-
+// find looks up the version of a FS key with the highest generation smaller
+// than or equal to the specified one. If there are only newer versions, the
+// oldest one is returned, and nothing if the key is not stored at all.
 func find(c *bbolt.Cursor, owner uint64, k btrfs.Key, generation uint64) (
 	keyV2, btrfs.Item) {
 	search := newIndexKey(owner, k, generation)
-	var found keyV2
+	prefix := search[:keyV2Generation]
 	found, v := c.Seek(search)
-	if bytes.Compare(found[:keyV2Generation],
-		search[:keyV2Generation]) <= 0 {
+	if found != nil && bytes.Equal(found, search) {
 		return found, v
 	}
-	if found, v = c.Prev(); len(found) > 0 && bytes.Equal(
-		found[:keyV2Generation], search[:keyV2Generation]) {
+	// The next older version, if any, sorts right before the search key
+	if found, v = c.Prev(); found != nil && bytes.Equal(
+		found[:keyV2Generation], prefix) {
+		return found, v
+	}
+	if found, v = c.Seek(search); found != nil && bytes.Equal(
+		found[:keyV2Generation], prefix) {
 		return found, v
 	}
 	return nil, nil
 }
 
-func findNext(c *bbolt.Cursor, ik, end keyV2) (keyV2, btrfs.Item) {
-	search := newIndexKey(ik.Owner(), ik.Key(), ^uint64(0))
-	var found keyV2
-	if found, _ = c.Seek(search); found != nil {
-		search = newIndexKey(ik.Owner(), found.Key(), ik.Generation())
-		var v btrfs.Item
-		if found, v = c.Seek(search); bytes.Compare(found, search) <= 0 {
-			return found, v
-		} else if end != nil && bytes.Compare(found, end) <= 0 {
-			return found, v
-		}
+// findFirst finds the first FS object stored in the range [start, end], looked
+// up at the specified generation.
+func findFirst(c *bbolt.Cursor, start, end keyV2, generation uint64) (keyV2,
+	btrfs.Item) {
+	found, _ := c.Seek(start)
+	if found == nil || bytes.Compare(found, end) > 0 {
+		return nil, nil
 	}
-	return nil, nil
+	ik := keyV2(found)
+	return find(c, ik.Owner(), ik.Key(), generation)
+}
+
+// findNext finds the FS object stored after the one with the specified key and
+// up to the end key, looked up at the specified generation.
+func findNext(c *bbolt.Cursor, ik, end keyV2, generation uint64) (keyV2,
+	btrfs.Item) {
+	// Skip the remaining versions of the current object
+	last := newIndexKey(ik.Owner(), ik.Key(), ^uint64(0))
+	found, _ := c.Seek(last)
+	if found != nil && bytes.Equal(found, last) {
+		found, _ = c.Next()
+	}
+	if found == nil || bytes.Compare(found, end) > 0 {
+		return nil, nil
+	}
+	next := keyV2(found)
+	return find(c, next.Owner(), next.Key(), generation)
 }
 
 // Range encapsulates a generic index range. Internally, it holds a cursor of
@@ -336,7 +329,8 @@ func (r *Range) HasNext() bool {
 }
 
 func (r *Range) Next() []byte {
-	if r.key, r.value = findNext(r.cursor, r.key, nil); r.key != nil {
+	if r.key, r.value = findNext(r.cursor, r.key, r.end,
+		r.ix.Generation); r.key != nil {
 		return r.value.Data()
 	}
 	return nil
@@ -347,16 +341,15 @@ func (r *Range) Key() btrfs.Key     { return r.key.Key() }
 func (r *Range) Generation() uint64 { return r.key.Generation() }
 func (r *Range) Item() btrfs.Item   { return r.value }
 
-// Range returns an index range [first, last) for the given keys.
+// Range returns an index range [first, last] for the given keys.
 func (ix *Index) Range(owner uint64, first, last btrfs.Key) (Range, []byte) {
 	r := Range{
 		ix:     ix,
 		cursor: ix.bucket.Cursor(),
-		end:    newIndexKey(owner, last, ix.Generation),
+		end:    newIndexKey(owner, last, ^uint64(0)),
 	}
-	lowerFirst := lowerBound(r.cursor, owner, first, ix.Generation,
-		keyV2Offset)
-	r.key, r.value = find(r.cursor, owner, lowerFirst, ix.Generation)
+	r.key, r.value = findFirst(r.cursor, newIndexKey(owner, first, 0), r.end,
+		ix.Generation)
 	if r.key != nil {
 		return r, r.value.Data()
 	}
-- 
2.43.0


From c743139d5585e63fbcc72e5af40f4230220c0059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:06 +0000
Subject: [PATCH 08/24] fix: walking the whole index ends without its metadata
 record

---
 pkg/btrfs/index/index_store.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index a0247bc..4ebbf98 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -365,25 +365,32 @@ type FullRange struct {
 	Range
 }
 
-func (r *FullRange) Next() []byte {
-	if r.key, r.value = r.cursor.Next(); r.key != nil && !bytes.Equal(r.key,
-		r.end) {
+// set makes the specified entry the current one, skipping index metadata.
+func (r *FullRange) set(key, value []byte) []byte {
+	if key != nil && bytes.Equal(key, metadataKey) {
+		key, value = r.cursor.Next()
+	}
+	if r.key, r.value = key, value; r.key != nil {
 		return r.value.Data()
 	}
 	return nil
 }
 
+func (r *FullRange) HasNext() bool { return r.key != nil }
+
+func (r *FullRange) Next() []byte {
+	return r.set(r.cursor.Next())
+}
+
 // FullRange returns an index range for all items in the index regardless of
 // generation. This is mainly useful for debugging.
 func (ix *Index) FullRange() (FullRange, []byte) {
 	r := FullRange{Range{
 		ix:     ix,
 		cursor: ix.bucket.Cursor(),
-		end:    newIndexKey(^uint64(0), KL(), ix.Generation),
 	}}
-	// No check, since openIndex should fail if there's no data
-	r.key, r.value = r.cursor.First()
-	return r, r.value.Data()
+	data := r.set(r.cursor.First())
+	return r, data
 }
 
 // Subvolumes returns an index range containing all of the subvolumes. Note that
-- 
2.43.0


From 02ddf697dcb12b500a57ca3592c5a66f2dc0f664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:09 +0000
Subject: [PATCH 09/24] fix: mapping an address without any chunk does not
 crash

---
 pkg/btrfs/index/index_store.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 4ebbf98..4af705c 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -479,6 +479,10 @@ func (ix *Index) Physical(logical uint64) (devID uint64, offset uint64) {
 	}
 
 	stripeMapLen := len(ix.stripeMap)
+	if stripeMapLen == 0 {
+		// No usable chunks, so there is nothing to map to
+		return 0, 0
+	}
 	// Index structure entries are sorted
 	i := sort.Search(stripeMapLen, func(i int) bool {
 		return ix.stripeMap[i].logical >= logical
-- 
2.43.0


From 830957a34cb8af328189a5330c9880028c6d8d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 10/24] fix: an index that is refused is closed again

---
 pkg/btrfs/index/index_store.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 4af705c..63d81e0 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -114,10 +114,11 @@ func openIndex(path string, m os.FileMode, o *Options) (*Index, error) {
 		ReadOnly: o.ReadOnly}); err != nil {
 		return nil, err
 	}
-	if err = ix.checkUpdateMetadata(o); err != nil {
-		return nil, err
+	if err = ix.checkUpdateMetadata(o); err == nil {
+		err = ix.ensureTx(!o.ReadOnly)
 	}
-	if err = ix.ensureTx(!o.ReadOnly); err != nil {
+	if err != nil {
+		ix.db.Close() // Release the lock on the file
 		return nil, err
 	}
 	return ix, nil
-- 
2.43.0


From 1678bfbdeb4d93b75d790b8e47e0d25e3954a071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:21 +0000
Subject: [PATCH 11/24] fix: the first block of a filesystem counts for its
 block size guess

---
 internal/identify/collector.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/identify/collector.go b/internal/identify/collector.go
index 3026fa8..645b981 100644
--- a/internal/identify/collector.go
+++ b/internal/identify/collector.go
@@ -41,6 +41,7 @@ func (a fsEntries) Sort()         { sort.Sort(a) }
 type histEntry struct {
 	Count        uint
 	BlockSizeSum uint64
+	BlockSizeNum uint64
 }
 
 type FSIDCollecter struct {
@@ -66,13 +67,15 @@ func (c *FSIDCollecter) CollectBlock(block []byte) {
 	if !ok {
 		entry = &histEntry{}
 		c.hist[fsid] = entry
-	} else if h.NrItems() > 0 {
+	}
+	if h.NrItems() > 0 {
 		item := btrfs.Item(block[btrfs.HeaderLen:])
 		// Since item headers and their data grow towards each other, the
 		// first item's offset will be the largest. In order to guess the
 		// actual block size, sum offsets for all entries belonging to an
 		// FSID to compute the average later.
 		entry.BlockSizeSum += uint64(item.Offset())
+		entry.BlockSizeNum++
 	}
 	entry.Count++
 }
@@ -84,9 +87,12 @@ func (c *FSIDCollecter) Entries(minOccurrence uint) []FSEntry {
 	for uuid, entry := range c.hist {
 		if entry.Count >= minOccurrence {
 			// Compute average and round to nearest 4KiB.
-			guess := uint32(float64(entry.BlockSizeSum)/float64(entry.Count)+
-				btrfs.X86RegularPageSize) / btrfs.X86RegularPageSize *
-				btrfs.X86RegularPageSize
+			guess := uint32(btrfs.X86RegularPageSize)
+			if n := entry.BlockSizeNum; n > 0 {
+				guess = uint32(entry.BlockSizeSum/n+
+					btrfs.X86RegularPageSize) / btrfs.X86RegularPageSize *
+					btrfs.X86RegularPageSize
+			}
 			occ = append(occ, FSEntry{uuid, entry.Count,
 				coding.ShannonEntropy(uuid[:]), guess})
 		}
-- 
2.43.0


From b506a5240cdb7111ced6ef208b699e2036e1e6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:34 +0000
Subject: [PATCH 12/24] fix: sample the blocks after each superblock copy that
 are on the device

---
 internal/identify/identify.go | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/internal/identify/identify.go b/internal/identify/identify.go
index c89d88b..7b8347a 100644
--- a/internal/identify/identify.go
+++ b/internal/identify/identify.go
@@ -30,18 +30,15 @@ func (a Uint64Array) Sort()              { sort.Sort(a) }
 
 func MakeSampleOffsets(devSize, blockSize, numSamples uint64) []uint64 {
 	sampleSet := make(map[uint64]bool)
-	for i := 0; i < 100; i++ {
-		sampleSet[btrfs.SuperInfoOffset+uint64(i)*blockSize] = true
-		sampleSet[btrfs.SuperInfoOffset2+uint64(i+100)*blockSize] = true
-	}
-	if devSize >= btrfs.SuperInfoOffset3 {
-		for i := 0; i < 100; i++ {
-			sampleSet[btrfs.SuperInfoOffset3+uint64(i+200)*blockSize] = true
-		}
-		if devSize >= btrfs.SuperInfoOffset4 {
-			// For completeness, handle huge devices
-			for i := 0; i < 100; i++ {
-				sampleSet[btrfs.SuperInfoOffset3+uint64(i+300)*blockSize] = true
+	for _, super := range []uint64{btrfs.SuperInfoOffset,
+		btrfs.SuperInfoOffset2, btrfs.SuperInfoOffset3,
+		btrfs.SuperInfoOffset4} {
+		for i := uint64(0); i < 100; i++ {
+			offset := super + i*blockSize
+			// Skip blocks that are (partially) beyond the end of the device
+			if offset+blockSize <= devSize &&
+				uint64(len(sampleSet)) < numSamples {
+				sampleSet[offset] = true
 			}
 		}
 	}
-- 
2.43.0


From c5628272f4aea1669dfff7aa4c45914aa77a5513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:37 +0000
Subject: [PATCH 13/24] fix: identify ends on devices with fewer blocks than
 samples

---
 internal/identify/identify.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/identify/identify.go b/internal/identify/identify.go
index 7b8347a..5849a44 100644
--- a/internal/identify/identify.go
+++ b/internal/identify/identify.go
@@ -88,6 +88,9 @@ func IdentifyFS(filename string, options IdentifyFSOptions) {
 	} else if numSamples > options.MaxBlocks {
 		numSamples = options.MaxBlocks
 	}
+	if numBlocks := uint(devSize / bs); numSamples > numBlocks {
+		numSamples = numBlocks // Cannot sample more blocks than there are
+	}
 
 	cliutil.Verbosef("sampling %d blocks...\n", numSamples)
 
-- 
2.43.0


From b06723057ebb2bbfd3da9539f3e1db26c719f323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:15 +0000
Subject: [PATCH 14/24] fix: mounted files read the bytes of all extents of the
 request

---
 internal/rescuefs/files.go | 68 ++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 40 deletions(-)

diff --git a/internal/rescuefs/files.go b/internal/rescuefs/files.go
index fc6f0d2..816efde 100644
--- a/internal/rescuefs/files.go
+++ b/internal/rescuefs/files.go
@@ -8,8 +8,6 @@
 package rescuefs
 
 import (
-	"io"
-
 	cliutil "blichmann.eu/code/btrfscue/cmd/btrfscue/app/util"
 	"github.com/hanwen/go-fuse/v2/fuse"
 	"github.com/hanwen/go-fuse/v2/fuse/nodefs"
@@ -97,63 +95,53 @@ func (f *extentFile) Read(buf []byte, off int64) (res fuse.ReadResult, code fuse
 		return nil, fuse.EINVAL
 	}
 
-	bytesRead := 0
-	bufLen := len(buf)
+	reqStart := uint64(off)
+	reqEnd := reqStart + uint64(len(buf))
+	end := reqStart // End of the result, the request may go beyond the last extent
+
+	// Positions that are not covered by any extent read as zeros
+	for i := range buf {
+		buf[i] = 0
+	}
 
 	for _, entry := range f.extentMap {
-		if off >= int64(entry.fileOffset+entry.length) {
+		extentStart := entry.fileOffset
+		extentEnd := extentStart + entry.length
+		if extentEnd < extentStart || extentEnd <= reqStart {
 			continue
 		}
-		if off+int64(bufLen-bytesRead) <= int64(entry.fileOffset) {
-			break
+		if end < extentEnd {
+			end = extentEnd
+		}
+		if extentStart >= reqEnd {
+			continue
 		}
 
 		// Calculate overlap between the requested range and the current extent
-		extentStart := int64(entry.fileOffset)
-		extentEnd := int64(entry.fileOffset + entry.length)
-
-		readStart := off
+		readStart := reqStart
 		if readStart < extentStart {
 			readStart = extentStart
 		}
-
-		readEnd := off + int64(bufLen-bytesRead)
+		readEnd := reqEnd
 		if readEnd > extentEnd {
 			readEnd = extentEnd
 		}
 
-		if readEnd <= readStart {
+		if entry.diskByteNr == 0 || f.fs.dev == nil {
+			// Sparse hole or no device file provided: leave zeros
 			continue
 		}
-
-		chunkSize := readEnd - readStart
-		destOffset := readStart - off
-
-		if entry.diskByteNr == 0 {
-			// Sparse hole: fill with zeros
-			for i := int64(0); i < chunkSize; i++ {
-				buf[destOffset+i] = 0
-			}
-		} else {
-			// Read from physical device
-			physReadOffset := int64(entry.physOffset) + (readStart - extentStart)
-			if f.fs.dev == nil {
-				// No device file provided: return zeroes
-				for i := int64(0); i < chunkSize; i++ {
-					buf[destOffset+i] = 0
-				}
-			} else {
-				if _, err := f.fs.dev.ReadAt(buf[destOffset:destOffset+chunkSize], physReadOffset); err != nil && err != io.EOF {
-					cliutil.Warnf("read error at physical offset %d: %v\n", physReadOffset, err)
-					return nil, fuse.EIO
-				}
-			}
+		// Read from physical device
+		chunk := buf[readStart-reqStart : readEnd-reqStart]
+		physReadOffset := int64(entry.physOffset + (readStart - extentStart))
+		if n, err := f.fs.dev.ReadAt(chunk, physReadOffset); n < len(chunk) {
+			cliutil.Warnf("read error at physical offset %d: %v\n", physReadOffset, err)
+			return nil, fuse.EIO
 		}
-		bytesRead += int(chunkSize)
 	}
 
-	if bytesRead < bufLen {
-		return fuse.ReadResultData(buf[:bytesRead]), fuse.OK
+	if end < reqEnd {
+		return fuse.ReadResultData(buf[:end-reqStart]), fuse.OK
 	}
 	return fuse.ReadResultData(buf), fuse.OK
 }
-- 
2.43.0


From f4ee00265954e9f4b65f35563d938fddb518f3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:16 +0000
Subject: [PATCH 15/24] fix: the mounted metadata file is only opened for
 reading

---
 internal/rescuefs/nodefs.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index 892283d..d8f4943 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -75,7 +75,8 @@ func newMetadataNode(fs *rescueFS) *metadataNode {
 
 func (n *metadataNode) Open(flags uint32, context *fuse.Context) (
 	nodefs.File, fuse.Status) {
-	if f, err := os.OpenFile(n.fs.metadata, int(flags), 0555); err != nil {
+	// The metadata is only ever handed out for reading
+	if f, err := os.Open(n.fs.metadata); err != nil {
 		return nil, fuse.ToStatus(err)
 	} else {
 		return nodefs.NewReadOnlyFile(nodefs.NewLoopbackFile(f)), fuse.OK
-- 
2.43.0


From 04970e52039cd0778f60c140e320192e41f66e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:37 +0000
Subject: [PATCH 16/24] fix: failing device reads and truncations fail the file

---
 cmd/recover.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index 25bdd46..eb35be1 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -7,7 +7,6 @@ package cmd
 
 import (
 	"fmt"
-	"io"
 	"os"
 	"path/filepath"
 	"strings"
@@ -156,7 +155,7 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 	r, e := ix.FileExtentItems(owner, inode)
 	if !r.HasNext() {
 		if ii != nil {
-			_ = f.Truncate(int64(fileSize))
+			return f.Truncate(int64(fileSize))
 		}
 		return nil
 	}
@@ -203,11 +202,8 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 						}
 						bytesCopied += uint64(n)
 					}
-					if err != nil {
-						if err == io.EOF && bytesCopied < numBytes {
-							return fmt.Errorf("unexpected EOF reading device/image: %w", err)
-						}
-						break
+					if err != nil && bytesCopied < numBytes {
+						return fmt.Errorf("failed to read device/image: %w", err)
 					}
 				}
 			}
-- 
2.43.0


From 3a3297cb857b9119744e4f5c1fff5fb025903ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:39 +0000
Subject: [PATCH 17/24] fix: holes of recovered files need no memory

---
 cmd/recover.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index eb35be1..9097645 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -177,9 +177,12 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 		} else {
 			numBytes := e.NumBytes()
 			if e.DiskByteNr() == 0 {
-				zeros := make([]byte, numBytes)
-				if _, err := f.WriteAt(zeros, int64(fileOffset)); err != nil {
-					return fmt.Errorf("write zeros failed: %w", err)
+				// Unwritten parts read as zeros. If the size of the file is not
+				// known, it still has to include this extent.
+				if ii == nil {
+					if err := f.Truncate(int64(fileOffset + numBytes)); err != nil {
+						return fmt.Errorf("extending file failed: %w", err)
+					}
 				}
 			} else {
 				_, physOffset := ix.Physical(e.DiskByteNr())
-- 
2.43.0


From 2c1210573b053dd54577a32d67b9fd9079d41323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:42 +0000
Subject: [PATCH 18/24] fix: recovered files replace links and never write
 through them

---
 cmd/recover.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index 9097645..80b2aa8 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -133,9 +133,17 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 }
 
 func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetPath string, options recoverFilesOptions) error {
-	if _, err := os.Stat(targetPath); err == nil && !options.clobber {
-		cliutil.Verbosef("file %s already exists, skipping (--clobber not specified)\n", targetPath)
-		return nil
+	if fi, err := os.Lstat(targetPath); err == nil {
+		if !options.clobber {
+			cliutil.Verbosef("file %s already exists, skipping (--clobber not specified)\n", targetPath)
+			return nil
+		}
+		if fi.IsDir() {
+			return fmt.Errorf("is a directory")
+		}
+		if err := os.Remove(targetPath); err != nil {
+			return err
+		}
 	}
 
 	ii := ix.FindInodeItem(owner, inode)
@@ -144,7 +152,7 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 		fileSize = ii.Size()
 	}
 
-	f, err := os.OpenFile(targetPath, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
+	f, err := os.OpenFile(targetPath, os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0644)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From d58d1546f83bdd30a3385e26e97f7f627bd77e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:44 +0000
Subject: [PATCH 19/24] fix: recovery does not follow links in place of
 directories

---
 cmd/recover.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index 80b2aa8..b991163 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -75,6 +75,10 @@ func doRecoverFiles(imagePath, destDir, metadata string, options recoverFilesOpt
 		if !visited[key] {
 			subvolName := fmt.Sprintf("subvol_%d", subOwner)
 			subvolDest := filepath.Join(destDir, subvolName)
+			if fi, err := os.Lstat(subvolDest); err == nil && !fi.IsDir() {
+				cliutil.Warnf("failed to recover subvolume %d: %s is not a directory\n", subOwner, subvolDest)
+				continue
+			}
 			cliutil.Verbosef("Recovering unreferenced subvolume %d to %s...\n", subOwner, subvolDest)
 			if err := recoverDir(ix, f, subOwner, btrfs.FirstFreeObjectID, subvolDest, options, visited); err != nil {
 				cliutil.Warnf("failed to recover subvolume %d: %v\n", subOwner, err)
@@ -101,7 +105,7 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 
 	for _, di := range dis {
 		name := di.Name()
-		if name == "." || name == ".." || strings.Contains(name, "/") || strings.Contains(name, "\\") {
+		if name == "" || name == "." || name == ".." || strings.Contains(name, "/") || strings.Contains(name, "\\") {
 			continue
 		}
 
@@ -114,6 +118,10 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 				subOwner = di.Location().ObjectID
 				subDirID = btrfs.FirstFreeObjectID
 			}
+			if fi, err := os.Lstat(targetPath); err == nil && !fi.IsDir() {
+				cliutil.Warnf("failed to recover directory %s: not a directory\n", targetPath)
+				continue
+			}
 			if err := recoverDir(ix, devFile, subOwner, subDirID, targetPath, options, visited); err != nil {
 				cliutil.Warnf("failed to recover directory %s: %v\n", targetPath, err)
 			}
-- 
2.43.0


From 6bbdd4da1bf430040e8570c8ac8fb7efe3f7d305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:47 +0000
Subject: [PATCH 20/24] fix: corrupt symlink sizes do not end the recovery

---
 cmd/recover.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/recover.go b/cmd/recover.go
index b991163..ad71d4c 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -19,6 +19,9 @@ import (
 	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
 )
 
+// Longest symbolic link target that is still restored
+const maxSymlinkLen = 64 * 1024
+
 type recoverFilesOptions struct {
 	clobber bool
 }
@@ -258,6 +261,9 @@ func recoverSymlink(ix *index.Index, devFile *os.File, owner, inode uint64, targ
 		if e.DiskByteNr() > 0 && devFile != nil {
 			_, physOffset := ix.Physical(e.DiskByteNr())
 			srcOffset := physOffset + e.Offset()
+			if e.NumBytes() > maxSymlinkLen {
+				return fmt.Errorf("symlink target too long")
+			}
 			buf := make([]byte, e.NumBytes())
 			if _, err := devFile.ReadAt(buf, int64(srcOffset)); err == nil {
 				target = string(buf)
-- 
2.43.0


From 500e432c81bf2c6082657af6fde9605116c958f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:17 +0000
Subject: [PATCH 21/24] fix: ls shows the attributes of the root of a subvolume

---
 cmd/ls.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/ls.go b/cmd/ls.go
index 81c0f58..4632341 100644
--- a/cmd/ls.go
+++ b/cmd/ls.go
@@ -64,6 +64,9 @@ func shortTime(t time.Time) string {
 func listDirItem(w io.Writer, ix *index.Index, owner uint64, di btrfs.DirItem,
 	showInode bool) {
 	inode := di.Location().ObjectID
+	if di.IsSubvolume() {
+		owner, inode = inode, btrfs.FirstFreeObjectID
+	}
 	if showInode {
 		fmt.Fprintf(w, "%d\t", di.Location().ObjectID)
 	}
-- 
2.43.0


From 08b9f80c05104491ef763dceb10a9b6016664f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:19 +0000
Subject: [PATCH 22/24] fix: recursive ls enters subvolumes and ends on cycles

---
 cmd/ls.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/cmd/ls.go b/cmd/ls.go
index 4632341..5cd2609 100644
--- a/cmd/ls.go
+++ b/cmd/ls.go
@@ -98,7 +98,8 @@ func (a dirItemSlice) Swap(i, j int) { a[i], a[j] = a[j], a[i] }
 func (a dirItemSlice) Sort()         { sort.Sort(a) }
 
 func listDirectory(w io.Writer, ix *index.Index, owner, dirID uint64,
-	recursive, showInode bool) {
+	recursive, showInode bool, visited map[[2]uint64]bool) {
+	visited[[2]uint64{owner, dirID}] = true
 	dis := dirItemSlice{}
 	for r, v := ix.DirItems(owner, dirID); r.HasNext(); v = r.Next() {
 		dis = append(dis, v)
@@ -107,15 +108,22 @@ func listDirectory(w io.Writer, ix *index.Index, owner, dirID uint64,
 	todo := dirItemSlice{}
 	for _, di := range dis {
 		listDirItem(w, ix, owner, di, showInode)
-		// TODO(cblichmann): Subvolumes/Snapshots, add owner
 		if recursive && di.IsDir() {
 			todo = append(todo, di)
 		}
 	}
 
 	for _, di := range todo {
+		subOwner, subDirID := owner, di.Location().ObjectID
+		if di.IsSubvolume() {
+			subOwner, subDirID = subDirID, btrfs.FirstFreeObjectID
+		}
+		if visited[[2]uint64{subOwner, subDirID}] {
+			// Only possible in corrupted filesystems
+			continue
+		}
 		fmt.Fprintf(w, "%s:\n", di.Name())
-		listDirectory(w, ix, owner, di.Location().ObjectID, true, showInode)
+		listDirectory(w, ix, subOwner, subDirID, true, showInode, visited)
 	}
 }
 
@@ -183,7 +191,8 @@ func doListFiles(args []string, metadata string, options listFilesOptions) {
 
 	w = tabwriter.NewWriter(os.Stdout, 1, 4, 1, ' ', 0)
 	for _, t := range todo {
-		listDirectory(w, ix, t.owner, t.dirID, options.Recursive, options.Inode)
+		listDirectory(w, ix, t.owner, t.dirID, options.Recursive, options.Inode,
+			make(map[[2]uint64]bool))
 	}
 	w.Flush()
 }
-- 
2.43.0


From c031e9bbc74cfa4b7b0f56a936b73eed7d5061cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:21 +0000
Subject: [PATCH 23/24] fix: ls looks up paths inside of subvolumes

---
 cmd/ls.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/cmd/ls.go b/cmd/ls.go
index 5cd2609..246c716 100644
--- a/cmd/ls.go
+++ b/cmd/ls.go
@@ -127,6 +127,18 @@ func listDirectory(w io.Writer, ix *index.Index, owner, dirID uint64,
 	}
 }
 
+// ownerOfPath returns the owner of the directory that contains the entry at
+// the specified path, i.e. the innermost subvolume on the way there.
+func ownerOfPath(ix *index.Index, owner uint64, p string) uint64 {
+	for d := path.Dir(p); d != "/" && d != "."; d = path.Dir(d) {
+		if di := ix.FindDirItemForPath(owner, d); di != nil &&
+			di.IsSubvolume() {
+			return di.Location().ObjectID
+		}
+	}
+	return owner
+}
+
 type listFilesOptions struct {
 	Recursive bool
 	Inode     bool
@@ -177,14 +189,19 @@ func doListFiles(args []string, metadata string, options listFilesOptions) {
 			continue
 		}
 
-		if di := ix.FindDirItemForPath(owner, p); di == nil {
+		di := ix.FindDirItemForPath(owner, p)
+		if di == nil {
 			cliutil.Warnf("cannot lookup '%s': No such file or directory\n", p)
 			continue
-		} else if !di.IsDir() {
-			listDirItem(w, ix, owner, di, options.Inode)
-			continue
+		}
+		diOwner := ownerOfPath(ix, owner, p)
+		if !di.IsDir() {
+			listDirItem(w, ix, diOwner, di, options.Inode)
+		} else if di.IsSubvolume() {
+			todo = append(todo, Todo{di.Location().ObjectID,
+				btrfs.FirstFreeObjectID})
 		} else {
-			todo = append(todo, Todo{owner, di.Location().ObjectID})
+			todo = append(todo, Todo{diOwner, di.Location().ObjectID})
 		}
 	}
 	w.Flush()
-- 
2.43.0


From e6f736d2ac8edc879814299f23d23ba7db0e3c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:33 +0000
Subject: [PATCH 24/24] fix: reading beyond inline data does not crash the
 mount

---
 internal/rescuefs/files.go  | 29 +++++++++++++++++++++++++++++
 internal/rescuefs/nodefs.go |  3 +--
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/internal/rescuefs/files.go b/internal/rescuefs/files.go
index 816efde..9569a82 100644
--- a/internal/rescuefs/files.go
+++ b/internal/rescuefs/files.go
@@ -29,6 +29,35 @@ type extentFile struct {
 	extentMap []extentMapEntry
 }
 
+// inlineFile is a file whose data was stored inline. Unlike nodefs.dataFile,
+// it can be read beyond the end of its data.
+type inlineFile struct {
+	nodefs.File
+	data []byte
+}
+
+func newInlineFile(data []byte) nodefs.File {
+	return &inlineFile{
+		File: nodefs.NewReadOnlyFile(nodefs.NewDataFile(data)),
+		data: data,
+	}
+}
+
+func (f *inlineFile) String() string {
+	return "inlineFile"
+}
+
+func (f *inlineFile) Read(buf []byte, off int64) (res fuse.ReadResult, code fuse.Status) {
+	if off < 0 {
+		return nil, fuse.EINVAL
+	}
+	if off > int64(len(f.data)) {
+		off = int64(len(f.data))
+	}
+	n := copy(buf, f.data[off:])
+	return fuse.ReadResultData(buf[:n]), fuse.OK
+}
+
 func newExtentFile(fs *rescueFS, owner, id uint64) nodefs.File {
 	r, e := fs.ix.FileExtentItems(owner, id)
 	if !r.HasNext() {
diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index d8f4943..4e249b7 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -182,8 +182,7 @@ func (n *rescueNode) Open(flags uint32, context *fuse.Context) (
 		return nil, fuse.ENOENT
 	}
 	if e.IsInline() {
-		return nodefs.NewReadOnlyFile(nodefs.NewDataFile(
-			[]byte(e.Data()))), fuse.OK
+		return newInlineFile([]byte(e.Data())), fuse.OK
 	}
 
 	if f := newExtentFile(n.fs, n.owner, n.ixInode); f != nil {
-- 
2.43.0

