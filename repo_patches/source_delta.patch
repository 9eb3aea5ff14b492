From aa702269116a9e2c3baa3bfa67683cf5788ea694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:46 +0000
Subject: [PATCH 01/27] fix: do not panic on corrupted item counts and offsets
 in leaves

The item count was clamped without taking the block header into account, and
adding a large item offset to its size wrapped around.
---
 pkg/btrfs/leaf.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pkg/btrfs/leaf.go b/pkg/btrfs/leaf.go
index 42e0752..ce950fc 100644
--- a/pkg/btrfs/leaf.go
+++ b/pkg/btrfs/leaf.go
@@ -69,7 +69,7 @@ func (l Leaf) Header() Header { return Header(l) }
 // Len returns the number of items in this leaf.
 func (l Leaf) Len() int {
 	// Clamp maximum number of items to avoid OOM in case NrItems is corrupted.
-	maxItems := cap(l) / ItemLen
+	maxItems := (len(l) - HeaderLen) / ItemLen
 	numItems := l.Header().NrItems()
 	if numItems > uint32(maxItems) {
 		numItems = uint32(maxItems)
@@ -96,12 +96,16 @@ func (l Leaf) Key(i int) Key {
 
 func (l Leaf) Data(i int) []byte {
 	item := l.Item(i)
-	o := HeaderLen + item.Offset()
-	// Guard against invalid Item lengths.
-	leafLen := uint32(len(l))
-	e := o + item.Size()
+	// Guard against invalid Item offsets and lengths. These are 32 bit values,
+	// so their sum needs more than that.
+	leafLen := uint64(len(l))
+	o := HeaderLen + uint64(item.Offset())
+	e := o + uint64(item.Size())
 	if e > leafLen {
 		e = leafLen
 	}
+	if o > e {
+		o = e
+	}
 	return l[o:e]
 }
-- 
2.43.0


From 8148df5641eeb895e8100fca7c2ebe136b2fc6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:58 +0000
Subject: [PATCH 02/27] fix: recon took superblock copies with a log tree for
 leaves

With a non-zero log root, copies of the superblock look like leaves with a
large number of items, so that garbage ended up in the metadata.
---
 cmd/recon.go      | 5 +++++
 pkg/btrfs/leaf.go | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/cmd/recon.go b/cmd/recon.go
index bd4585d..6361af7 100644
--- a/cmd/recon.go
+++ b/cmd/recon.go
@@ -96,6 +96,11 @@ func doScanFS(filename, metadata string, options scanFSOptions) {
 		if h.FSID() != options.id || h.NrItems() == 0 {
 			continue
 		}
+		// Skip copies of the superblock. They share the first header fields with
+		// leaves and have the root of the log tree in place of the item count.
+		if h.IsSuperBlock() {
+			continue
+		}
 		// Also skip all non-leaves (= nodes)
 		if !h.IsLeaf() {
 			//cliutil.Warnf("non-leaf %d at offset %d, level %d\n", h.ByteNr(),
diff --git a/pkg/btrfs/leaf.go b/pkg/btrfs/leaf.go
index ce950fc..a4d2c38 100644
--- a/pkg/btrfs/leaf.go
+++ b/pkg/btrfs/leaf.go
@@ -48,6 +48,10 @@ func (h Header) Level() uint8             { return uint8(h[headerLevel]) }
 
 func (h Header) IsLeaf() bool { return h.Level() == 0 }
 
+// IsSuperBlock returns whether this is a copy of the superblock, which has its
+// magic number where other blocks have the first half of their chunk tree UUID.
+func (h Header) IsSuperBlock() bool { return SliceUint64LE(h[headerChunkTreeUUID:]) == Magic }
+
 type Item []byte
 
 const (
-- 
2.43.0


From 11c586490a79b21db67c747dd0c4a1cdc59cb930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:11 +0000
Subject: [PATCH 03/27] fix: ReadBlockAt reported EOF for a full block and nil
 for a short one

---
 pkg/ioutil/ioutil.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/ioutil/ioutil.go b/pkg/ioutil/ioutil.go
index 4be2863..bd89bd5 100644
--- a/pkg/ioutil/ioutil.go
+++ b/pkg/ioutil/ioutil.go
@@ -13,10 +13,12 @@ import (
 //
 // It always either reads a full block or reports an error.
 func ReadBlockAt(r io.ReaderAt, block []byte, offset uint64) error {
-	if read, err := r.ReadAt(block, int64(offset)); err != nil {
-		return err
-	} else if read == len(block) {
+	read, err := r.ReadAt(block, int64(offset))
+	if read == len(block) && err == io.EOF {
 		return nil // Never return EOF if read succeeded
 	}
-	return nil
+	if read < len(block) && err == nil {
+		return io.ErrUnexpectedEOF
+	}
+	return err
 }
-- 
2.43.0


From 948e328df05f832e044ffd5abf2b8169895ab1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:11 +0000
Subject: [PATCH 04/27] fix: recon claimed success if the device ended early

The device size is known beforehand, so that hitting its end while scanning
means that blocks are missing.
---
 cmd/recon.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/recon.go b/cmd/recon.go
index 6361af7..08b4e46 100644
--- a/cmd/recon.go
+++ b/cmd/recon.go
@@ -84,10 +84,10 @@ func doScanFS(filename, metadata string, options scanFSOptions) {
 	// Start right after the first superblock
 	for off := uint64(btrfs.SuperInfoOffset) + bs; off < devSize; off += bs {
 		if err = ioutil.ReadBlockAt(f, buf, off); err == io.EOF {
-			break
-		} else if err != nil {
-			cliutil.ReportError(err)
+			// The device size was determined before
+			err = io.ErrUnexpectedEOF
 		}
+		cliutil.ReportError(err)
 		bar.SetCurrent(int64(off))
 		l := btrfs.Leaf(buf)
 		h := l.Header()
-- 
2.43.0


From 634fbaede06d8980f5ebd062b31c0ae8d535576c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:41 +0000
Subject: [PATCH 05/27] fix: index panicked when queried after a commit or
 written read-only

Committing leaves no transaction to query. Inserting into a read-only index
dropped its transaction, so that closing it panicked. Also release the
database if its metadata is refused.
---
 pkg/btrfs/index/index_store.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index c87f6bb..69455ef 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -115,9 +115,11 @@ func openIndex(path string, m os.FileMode, o *Options) (*Index, error) {
 		return nil, err
 	}
 	if err = ix.checkUpdateMetadata(o); err != nil {
+		ix.db.Close()
 		return nil, err
 	}
 	if err = ix.ensureTx(!o.ReadOnly); err != nil {
+		ix.db.Close()
 		return nil, err
 	}
 	return ix, nil
@@ -176,7 +178,7 @@ func (ix *Index) checkUpdateMetadata(o *Options) error {
 }
 
 func (ix *Index) Metadata() indexMetadata {
-	return indexMetadata(ix.bucket.Get(metadataKey))
+	return indexMetadata(ix.reader().Get(metadataKey))
 }
 
 // Close closes the index and its underlying bbolt database.
@@ -193,12 +195,10 @@ func (ix *Index) Close() {
 func (ix *Index) ensureTx(writable bool) error {
 	var err error
 	if ix.tx != nil {
-		if ix.tx.Writable() == writable {
-			return nil
-		}
-		if err = ix.Commit(); err != nil {
-			return err
+		if writable && !ix.tx.Writable() {
+			return bbolt.ErrDatabaseReadOnly
 		}
+		return nil
 	}
 	if ix.tx, err = ix.db.Begin(writable); err != nil {
 		return err
@@ -207,6 +207,18 @@ func (ix *Index) ensureTx(writable bool) error {
 	return err
 }
 
+// reader returns the index bucket for querying. If the last transaction has
+// been committed, it starts the next one.
+func (ix *Index) reader() *bbolt.Bucket {
+	if ix.tx == nil {
+		// Only happens with read/write indices
+		if err := ix.ensureTx(true); err != nil {
+			panic(err)
+		}
+	}
+	return ix.bucket
+}
+
 // InsertItem inserts a filesystem item into the index, referenceable by its
 // BTRFS key. Also stores the item's owner and generation number, as well as
 // its inline data.
@@ -351,7 +363,7 @@ func (r *Range) Item() btrfs.Item   { return r.value }
 func (ix *Index) Range(owner uint64, first, last btrfs.Key) (Range, []byte) {
 	r := Range{
 		ix:     ix,
-		cursor: ix.bucket.Cursor(),
+		cursor: ix.reader().Cursor(),
 		end:    newIndexKey(owner, last, ix.Generation),
 	}
 	lowerFirst := lowerBound(r.cursor, owner, first, ix.Generation,
@@ -385,7 +397,7 @@ func (r *FullRange) Next() []byte {
 func (ix *Index) FullRange() (FullRange, []byte) {
 	r := FullRange{Range{
 		ix:     ix,
-		cursor: ix.bucket.Cursor(),
+		cursor: ix.reader().Cursor(),
 		end:    newIndexKey(^uint64(0), KL(), ix.Generation),
 	}}
 	// No check, since openIndex should fail if there's no data
@@ -432,7 +444,7 @@ func (ix *Index) DevItems() (Range, btrfs.DevItem) {
 // to the current index generation. If the index generation is smaller than
 // any existing generation, the data at the earliest generatation is returned.
 func (ix *Index) FindItem(owner uint64, k btrfs.Key) btrfs.Item {
-	_, i := find(ix.bucket.Cursor(), owner, k, ix.Generation)
+	_, i := find(ix.reader().Cursor(), owner, k, ix.Generation)
 	return i
 }
 
-- 
2.43.0


From 8f5fbfd49eeae9c6a4929961c59a36fa6f8b813d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:42 +0000
Subject: [PATCH 06/27] fix: damaged copies of a leaf replaced the items of the
 intact one

With the DUP profile there are two copies of each leaf, which have the same
owner, keys and generation.
---
 cmd/recon.go                   |  5 +++++
 pkg/btrfs/index/index_store.go |  6 ++++++
 pkg/btrfs/leaf.go              | 10 ++++++++++
 3 files changed, 21 insertions(+)

diff --git a/cmd/recon.go b/cmd/recon.go
index 08b4e46..a582083 100644
--- a/cmd/recon.go
+++ b/cmd/recon.go
@@ -109,7 +109,12 @@ func doScanFS(filename, metadata string, options scanFSOptions) {
 		}
 		// The free space of a leaf is between offsets
 		// [ btrfs.HeaderSize, l.Items(l.Len() - 1).Offset() ).
+		intact := l.HasValidCRC()
 		for i := 0; i < l.Len(); i++ {
+			// Do not let a damaged copy of a leaf replace the original's items
+			if !intact && ix.HasItem(h.Owner(), l.Key(i), h.Generation()) {
+				continue
+			}
 			cliutil.ReportError(ix.InsertItem(l.Key(i), h, l.Item(i),
 				l.Data(i)))
 		}
diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 69455ef..814b14c 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -242,6 +242,12 @@ func (ix *Index) InsertItem(k btrfs.Key, h btrfs.Header, item,
 	return nil
 }
 
+// HasItem returns whether the index has an item with this exact owner, key and
+// generation.
+func (ix *Index) HasItem(owner uint64, k btrfs.Key, generation uint64) bool {
+	return ix.reader().Get(newIndexKey(owner, k, generation)) != nil
+}
+
 // Commit commits any pending transaction.
 func (ix *Index) Commit() error {
 	if ix.tx == nil {
diff --git a/pkg/btrfs/leaf.go b/pkg/btrfs/leaf.go
index a4d2c38..f0bff9d 100644
--- a/pkg/btrfs/leaf.go
+++ b/pkg/btrfs/leaf.go
@@ -6,6 +6,8 @@
 package btrfs
 
 import (
+	"hash/crc32"
+
 	"blichmann.eu/code/btrfscue/pkg/uuid"
 )
 
@@ -70,6 +72,14 @@ type Leaf []byte
 
 func (l Leaf) Header() Header { return Header(l) }
 
+var castagnoliTable = crc32.MakeTable(crc32.Castagnoli)
+
+// HasValidCRC returns whether this leaf matches its checksum, assuming that the
+// filesystem uses CRC32C.
+func (l Leaf) HasValidCRC() bool {
+	return crc32.Checksum(l[CSumSize:], castagnoliTable) == SliceUint32LE(l)
+}
+
 // Len returns the number of items in this leaf.
 func (l Leaf) Len() int {
 	// Clamp maximum number of items to avoid OOM in case NrItems is corrupted.
-- 
2.43.0


From 90ea9bb05a22143d2b743cc098bf9e220df2db39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:17 +0000
Subject: [PATCH 07/27] fix: index lookups and ranges ignored generations and
 lower bounds

A lookup returned the oldest or an unrelated item unless there was a version
of exactly the requested generation. Ranges used the generation of their
current item for the next one, ended early at it and started at the first
offset regardless of the one requested.
---
 pkg/btrfs/index/index_store.go | 79 +++++++++++++---------------------
 1 file changed, 31 insertions(+), 48 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 814b14c..94eec3d 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -277,63 +277,46 @@ func (ix *Index) RawTx(fn func(db *bbolt.DB, tx *bbolt.Tx,
 	return ix.Commit()
 }
 
-// lowerBound finds an FS key under a given owner and only up to a prefix
-// length. It find the key with the highest generation number smaller than or
-// equal to the index generation.
-// For example, to search for (256 DIR_INDEX ?) owned by the FS tree object:
-//   lowerBound(FSTreeObjectID, KF(DIR_INDEX, 256), keyV2Offset)
-func lowerBound(c *bbolt.Cursor, owner uint64, k btrfs.Key, gen uint64,
-	prefix int) btrfs.Key {
-	var cur, next keyV2
-	search := newIndexKey(owner, k, 0)[:prefix]
-	cur, _ = c.Seek(search)
-	if cur == nil || !bytes.Equal(cur[:prefix], search) {
-		return KL()
-	}
-
-	for {
-		curKeyPrefix := cur[:keyV2Generation]
-		next, _ = c.Next()
-		if next != nil && bytes.Equal(next[:keyV2Generation], curKeyPrefix) {
-			if next.Generation() > gen {
-				return cur.Key()
-			}
-			cur = next
-			continue
-		}
-		return cur.Key()
-	}
-}
-
+// find returns the version of an FS key that is valid at the given generation.
+// That is the one with the highest generation number smaller than or equal to
+// it. If all versions are newer, the earliest one is returned.
 func find(c *bbolt.Cursor, owner uint64, k btrfs.Key, generation uint64) (
 	keyV2, btrfs.Item) {
 	search := newIndexKey(owner, k, generation)
 	var found keyV2
 	found, v := c.Seek(search)
-	if bytes.Compare(found[:keyV2Generation],
-		search[:keyV2Generation]) <= 0 {
+	if bytes.Equal(found, search) {
 		return found, v
 	}
-	if found, v = c.Prev(); len(found) > 0 && bytes.Equal(
-		found[:keyV2Generation], search[:keyV2Generation]) {
+	if prev, pv := c.Prev(); bytes.HasPrefix(prev, search[:keyV2Generation]) {
+		return prev, pv
+	}
+	if bytes.HasPrefix(found, search[:keyV2Generation]) {
 		return found, v
 	}
 	return nil, nil
 }
 
-func findNext(c *bbolt.Cursor, ik, end keyV2) (keyV2, btrfs.Item) {
+// findNext returns the valid version of the first FS key after the given one,
+// if that is not beyond end.
+func findNext(c *bbolt.Cursor, ik, end keyV2, generation uint64) (
+	keyV2, btrfs.Item) {
+	// Skip all versions of the current key
 	search := newIndexKey(ik.Owner(), ik.Key(), ^uint64(0))
 	var found keyV2
-	if found, _ = c.Seek(search); found != nil {
-		search = newIndexKey(ik.Owner(), found.Key(), ik.Generation())
-		var v btrfs.Item
-		if found, v = c.Seek(search); bytes.Compare(found, search) <= 0 {
-			return found, v
-		} else if end != nil && bytes.Compare(found, end) <= 0 {
-			return found, v
-		}
+	if found, _ = c.Seek(search); bytes.Equal(found, search) {
+		found, _ = c.Next()
 	}
-	return nil, nil
+	return findUpTo(c, found, end, generation)
+}
+
+// findUpTo returns the valid version of an FS key if it is not beyond end.
+func findUpTo(c *bbolt.Cursor, ik, end keyV2, generation uint64) (
+	keyV2, btrfs.Item) {
+	if ik == nil || bytes.Compare(ik, end) > 0 {
+		return nil, nil
+	}
+	return find(c, ik.Owner(), ik.Key(), generation)
 }
 
 // Range encapsulates a generic index range. Internally, it holds a cursor of
@@ -354,7 +337,8 @@ func (r *Range) HasNext() bool {
 }
 
 func (r *Range) Next() []byte {
-	if r.key, r.value = findNext(r.cursor, r.key, nil); r.key != nil {
+	if r.key, r.value = findNext(r.cursor, r.key, r.end,
+		r.ix.Generation); r.key != nil {
 		return r.value.Data()
 	}
 	return nil
@@ -365,16 +349,15 @@ func (r *Range) Key() btrfs.Key     { return r.key.Key() }
 func (r *Range) Generation() uint64 { return r.key.Generation() }
 func (r *Range) Item() btrfs.Item   { return r.value }
 
-// Range returns an index range [first, last) for the given keys.
+// Range returns an index range [first, last] for the given keys.
 func (ix *Index) Range(owner uint64, first, last btrfs.Key) (Range, []byte) {
 	r := Range{
 		ix:     ix,
 		cursor: ix.reader().Cursor(),
-		end:    newIndexKey(owner, last, ix.Generation),
+		end:    newIndexKey(owner, last, ^uint64(0)),
 	}
-	lowerFirst := lowerBound(r.cursor, owner, first, ix.Generation,
-		keyV2Offset)
-	r.key, r.value = find(r.cursor, owner, lowerFirst, ix.Generation)
+	found, _ := r.cursor.Seek(newIndexKey(owner, first, 0))
+	r.key, r.value = findUpTo(r.cursor, found, r.end, ix.Generation)
 	if r.key != nil {
 		return r, r.value.Data()
 	}
-- 
2.43.0


From 14c822fdc9a07e437d90905bbf9bfbdb61d08b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:17 +0000
Subject: [PATCH 08/27] fix: full index range included the metadata and
 panicked if empty

This affected dump-index.
---
 pkg/btrfs/index/index_store.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 94eec3d..caab2d4 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -373,9 +373,14 @@ type FullRange struct {
 	Range
 }
 
+// HasNext returns whether there are more items. The metadata, which always
+// comes last, is not an item.
+func (r *FullRange) HasNext() bool {
+	return r.key != nil && !bytes.Equal(r.key, metadataKey)
+}
+
 func (r *FullRange) Next() []byte {
-	if r.key, r.value = r.cursor.Next(); r.key != nil && !bytes.Equal(r.key,
-		r.end) {
+	if r.key, r.value = r.cursor.Next(); r.HasNext() {
 		return r.value.Data()
 	}
 	return nil
@@ -387,11 +392,12 @@ func (ix *Index) FullRange() (FullRange, []byte) {
 	r := FullRange{Range{
 		ix:     ix,
 		cursor: ix.reader().Cursor(),
-		end:    newIndexKey(^uint64(0), KL(), ix.Generation),
+		end:    metadataKey,
 	}}
-	// No check, since openIndex should fail if there's no data
-	r.key, r.value = r.cursor.First()
-	return r, r.value.Data()
+	if r.key, r.value = r.cursor.First(); r.HasNext() {
+		return r, r.value.Data()
+	}
+	return r, nil
 }
 
 // Subvolumes returns an index range containing all of the subvolumes. Note that
-- 
2.43.0


From 51147d094e07011318f0f859d5748d083da8e4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:29 +0000
Subject: [PATCH 09/27] fix: handle truncated items and items with several
 directory entries

Items whose data is shorter than their type requires panicked. Entries whose
name hashes collide are stored in a single item, of which only the first one
was seen. The same applies to extended attributes.
---
 cmd/ls.go                      |  5 +----
 cmd/recover.go                 | 10 ++++-----
 internal/rescuefs/files.go     |  4 ++++
 internal/rescuefs/nodefs.go    |  8 +++----
 pkg/btrfs/btrfs.go             | 40 ++++++++++++++++++++++++++++-----
 pkg/btrfs/index/index_store.go | 41 +++++++++++++++++++++++++++-------
 pkg/btrfs/leaf.go              | 10 ++++++++-
 7 files changed, 90 insertions(+), 28 deletions(-)

diff --git a/cmd/ls.go b/cmd/ls.go
index 81c0f58..835f935 100644
--- a/cmd/ls.go
+++ b/cmd/ls.go
@@ -96,10 +96,7 @@ func (a dirItemSlice) Sort()         { sort.Sort(a) }
 
 func listDirectory(w io.Writer, ix *index.Index, owner, dirID uint64,
 	recursive, showInode bool) {
-	dis := dirItemSlice{}
-	for r, v := ix.DirItems(owner, dirID); r.HasNext(); v = r.Next() {
-		dis = append(dis, v)
-	}
+	dis := dirItemSlice(ix.DirEntries(owner, dirID))
 	sort.Sort(dis)
 	todo := dirItemSlice{}
 	for _, di := range dis {
diff --git a/cmd/recover.go b/cmd/recover.go
index 25bdd46..e9b0443 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -95,12 +95,7 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 		return err
 	}
 
-	dis := []btrfs.DirItem{}
-	for r, v := ix.DirItems(owner, dirID); r.HasNext(); v = r.Next() {
-		dis = append(dis, v)
-	}
-
-	for _, di := range dis {
+	for _, di := range ix.DirEntries(owner, dirID) {
 		name := di.Name()
 		if name == "." || name == ".." || strings.Contains(name, "/") || strings.Contains(name, "\\") {
 			continue
@@ -164,6 +159,9 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 	for ; r.HasNext(); e = r.Next() {
 		fileOffset := r.Key().Offset
 
+		if !e.IsValid() {
+			return fmt.Errorf("damaged extent item at offset %d", fileOffset)
+		}
 		if e.IsInline() {
 			inlineData := []byte(e.Data())
 			limit := len(inlineData)
diff --git a/internal/rescuefs/files.go b/internal/rescuefs/files.go
index fc6f0d2..c525b6c 100644
--- a/internal/rescuefs/files.go
+++ b/internal/rescuefs/files.go
@@ -44,6 +44,10 @@ func newExtentFile(fs *rescueFS, owner, id uint64) nodefs.File {
 		extentMap: make([]extentMapEntry, 0, 1),
 	}
 	for ; r.HasNext(); e = r.Next() {
+		if !e.IsValid() {
+			cliutil.Warnf("damaged extent item for inode %d in %d\n", id, owner)
+			continue
+		}
 		var phys uint64
 		var dev uint64
 		if e.DiskByteNr() > 0 {
diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index 892283d..380424c 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -134,7 +134,7 @@ func (n *rescueNode) ensureDirItems() {
 	if len(n.dirItems) > 0 {
 		return
 	}
-	for r, d := n.ix.DirItems(n.owner, n.ixInode); r.HasNext(); d = r.Next() {
+	for _, d := range n.ix.DirEntries(n.owner, n.ixInode) {
 		n.dirItems[d.Name()] = d
 	}
 }
@@ -180,7 +180,7 @@ func (n *rescueNode) Open(flags uint32, context *fuse.Context) (
 	if !r.HasNext() {
 		return nil, fuse.ENOENT
 	}
-	if e.IsInline() {
+	if e.IsValid() && e.IsInline() {
 		return nodefs.NewReadOnlyFile(nodefs.NewDataFile(
 			[]byte(e.Data()))), fuse.OK
 	}
@@ -194,7 +194,7 @@ func (n *rescueNode) Open(flags uint32, context *fuse.Context) (
 func (n *rescueNode) GetXAttr(attribute string, context *fuse.Context) (
 	data []byte, code fuse.Status) {
 	// TODO(cblichmann): This should use btrfs.NameHash() for lookup
-	for r, x := n.ix.XAttrItems(n.owner, n.ixInode); r.HasNext(); x = r.Next() {
+	for _, x := range n.ix.XAttrs(n.owner, n.ixInode) {
 		if x.Name() == attribute {
 			return []byte(x.Data()), fuse.OK
 		}
@@ -204,7 +204,7 @@ func (n *rescueNode) GetXAttr(attribute string, context *fuse.Context) (
 
 func (n *rescueNode) ListXAttr(context *fuse.Context) ([]string, fuse.Status) {
 	attrs := []string{}
-	for r, x := n.ix.XAttrItems(n.owner, n.ixInode); r.HasNext(); x = r.Next() {
+	for _, x := range n.ix.XAttrs(n.owner, n.ixInode) {
 		attrs = append(attrs, x.Name())
 	}
 	return attrs, fuse.OK
diff --git a/pkg/btrfs/btrfs.go b/pkg/btrfs/btrfs.go
index b08d79f..d948aa9 100644
--- a/pkg/btrfs/btrfs.go
+++ b/pkg/btrfs/btrfs.go
@@ -416,6 +416,11 @@ const (
 	chunkStripes    = chunkSubStripes + 2
 )
 
+// IsValid returns whether this item is complete and has at least one stripe.
+func (c Chunk) IsValid() bool {
+	return len(c) >= chunkStripes+stripeEnd && c.NumStripes() > 0
+}
+
 // Length returns the size of this chunk in bytes
 func (c Chunk) Length() uint64 { return SliceUint64LE(c[chunkLength:]) }
 
@@ -478,6 +483,9 @@ const (
 	InodeItemLen      = inodeItemOtime + 12
 )
 
+// IsValid returns whether this item is complete.
+func (i InodeItem) IsValid() bool { return len(i) >= InodeItemLen }
+
 func (i InodeItem) Generation() uint64 { return SliceUint64LE(i[inodeItemGeneration:]) }
 func (i InodeItem) TransID() uint64    { return SliceUint64LE(i[inodeItemTransID:]) }
 func (i InodeItem) Size() uint64       { return SliceUint64LE(i[inodeItemSize:]) }
@@ -561,8 +569,24 @@ func (d DirItem) Name() string {
 }
 
 func (d DirItem) Data() string {
-	o := dirItemName + d.NameLen()
-	return string(d[o : o+d.DataLen()])
+	o := dirItemName + int(d.NameLen())
+	return string(d[o : o+int(d.DataLen())])
+}
+
+// Split returns the single directory entries (or extended attributes) of an
+// item. There are several if their names have the same hash. The result ends
+// before the first one that is damaged.
+func (d DirItem) Split() []DirItem {
+	entries := []DirItem{}
+	for len(d) >= dirItemName {
+		l := dirItemName + int(d.NameLen()) + int(d.DataLen())
+		if d.NameLen() > 255 || l > len(d) {
+			break
+		}
+		entries = append(entries, d[:l])
+		d = d[l:]
+	}
+	return entries
 }
 
 func (d DirItem) IsDir() bool       { return d.Type() == FtDir }
@@ -662,11 +686,17 @@ func (i FileExtentItem) NumBytes() uint64 { return SliceUint64LE(i[fileExtentIte
 
 func (i FileExtentItem) IsInline() bool { return i.Type() == FileExtentInline }
 
+// IsValid returns whether this item is complete.
+func (i FileExtentItem) IsValid() bool {
+	return len(i) >= FileExtentItemEnd ||
+		len(i) >= fileExtentItemDiskByteNr && i.IsInline()
+}
+
 // The data returned is only valid if Type == FileExtentInline:
 func (i FileExtentItem) Data() string {
-	l := int(i.RAMBytes())
-	if l > DefaultBlockSize {
-		l = DefaultBlockSize
+	l := i.RAMBytes()
+	if max := uint64(len(i) - fileExtentItemDiskByteNr); l > max {
+		l = max
 	}
 	return string(i[fileExtentItemDiskByteNr : fileExtentItemDiskByteNr+l])
 }
diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index caab2d4..cd0bf23 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -414,6 +414,26 @@ func (ix *Index) DirItems(owner, id uint64) (Range, btrfs.DirItem) {
 	return ix.RangeAll(owner, btrfs.DirItemKey, id)
 }
 
+// DirEntries returns all of the entries in a directory, including those that
+// share an item.
+func (ix *Index) DirEntries(owner, id uint64) []btrfs.DirItem {
+	entries := []btrfs.DirItem{}
+	for r, d := ix.DirItems(owner, id); r.HasNext(); d = r.Next() {
+		entries = append(entries, d.Split()...)
+	}
+	return entries
+}
+
+// XAttrs returns all of the extended attributes of an inode, including those
+// that share an item.
+func (ix *Index) XAttrs(owner, id uint64) []btrfs.DirItem {
+	attrs := []btrfs.DirItem{}
+	for r, x := ix.XAttrItems(owner, id); r.HasNext(); x = r.Next() {
+		attrs = append(attrs, x.Split()...)
+	}
+	return attrs
+}
+
 func (ix *Index) XAttrItems(owner, id uint64) (Range, btrfs.DirItem) {
 	return ix.RangeAll(owner, btrfs.XAttrItemKey, id)
 }
@@ -445,14 +465,18 @@ func (ix *Index) FindItem(owner uint64, k btrfs.Key) btrfs.Item {
 
 func (ix *Index) FindInodeItem(owner uint64, inode uint64) btrfs.InodeItem {
 	if i := ix.FindItem(owner, KF(btrfs.InodeItemKey, inode)); i != nil {
-		return i.Data()
+		if ii := btrfs.InodeItem(i.Data()); ii.IsValid() {
+			return ii
+		}
 	}
 	return nil
 }
 
 func (ix *Index) FindFileExtentItem(owner uint64, id uint64) btrfs.FileExtentItem {
 	if i := ix.FindItem(owner, KF(btrfs.ExtentDataKey, id)); i != nil {
-		return i.Data()
+		if e := btrfs.FileExtentItem(i.Data()); e.IsValid() {
+			return e
+		}
 	}
 	return nil
 }
@@ -472,7 +496,7 @@ func (ix *Index) Physical(logical uint64) (devID uint64, offset uint64) {
 	if ix.stripeMap == nil {
 		ix.stripeMap = make([]stripeMapEntry, 0, 5 /* Initial capacity */)
 		for r, c := ix.Chunks(); r.HasNext(); c = r.Next() {
-			if c.NumStripes() == 0 {
+			if !c.IsValid() {
 				// Invalid chunk, should always have at least one stripe
 				continue
 			}
@@ -516,15 +540,16 @@ func (ix *Index) FindDirItemForPath(owner uint64, path string) btrfs.DirItem {
 		// (dirID, BTRFS_DIR_ITEM, CRC32(comp))
 		if v := ix.FindItem(owner, KF(btrfs.DirItemKey, dirID,
 			uint64(NameHash(comp)))); v != nil {
-			d = v.Data()
-			if found = d.Name() == comp; found {
-				result = d
+			for _, d = range btrfs.DirItem(v.Data()).Split() {
+				if found = d.Name() == comp; found {
+					result = d
+					break
+				}
 			}
 		}
 		if !found {
 			// Slow path: Lookup items in directory (dirID, BTRFS_DIR_INDEX, ?)
-			var r Range
-			for r, d = ix.DirItems(owner, dirID); r.HasNext(); d = r.Next() {
+			for _, d = range ix.DirEntries(owner, dirID) {
 				if found = d.Name() == comp && (d.IsDir() || last); found {
 					result = d
 					break
diff --git a/pkg/btrfs/leaf.go b/pkg/btrfs/leaf.go
index f0bff9d..8f5db2b 100644
--- a/pkg/btrfs/leaf.go
+++ b/pkg/btrfs/leaf.go
@@ -66,7 +66,15 @@ const (
 func (i Item) Key() Key       { return SliceKey(i[itemKey:]) }
 func (i Item) Offset() uint32 { return SliceUint32LE(i[itemOffset:]) }
 func (i Item) Size() uint32   { return SliceUint32LE(i[itemSize:]) }
-func (i Item) Data() []byte   { return i[ItemLen : ItemLen+i.Size()] }
+
+// Data returns the data of this item. It is shorter than Size() if the item did
+// not fit in its leaf.
+func (i Item) Data() []byte {
+	if uint64(len(i)) < ItemLen+uint64(i.Size()) {
+		return i[ItemLen:]
+	}
+	return i[ItemLen : ItemLen+i.Size()]
+}
 
 type Leaf []byte
 
-- 
2.43.0


From 8d4ce3ce88d88f6f48fcac6a2656bf08de0ac106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:51 +0000
Subject: [PATCH 10/27] fix: unmapped logical addresses panicked or were mapped
 to wrong places

Chunks have a length that needs to be checked: addresses in holes between
chunks, behind the last or before the first one are not mapped at all. Also
remove debug output that ended up on standard output.
---
 cmd/recover.go                 | 23 +++++++++++++++++++----
 internal/rescuefs/files.go     | 16 +++++++++++++---
 pkg/btrfs/index/index_store.go | 22 ++++++++++++----------
 3 files changed, 44 insertions(+), 17 deletions(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index e9b0443..a91e037 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -128,6 +128,17 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 	return nil
 }
 
+// physicalRange returns where the data of a regular extent is located on the
+// device.
+func physicalRange(ix *index.Index, e btrfs.FileExtentItem) (uint64, error) {
+	_, offset, avail := ix.Physical(e.DiskByteNr())
+	if e.Offset() > avail || e.NumBytes() > avail-e.Offset() {
+		return 0, fmt.Errorf("no chunk maps %d bytes at logical address %d",
+			e.NumBytes(), e.DiskByteNr())
+	}
+	return offset + e.Offset(), nil
+}
+
 func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetPath string, options recoverFilesOptions) error {
 	if _, err := os.Stat(targetPath); err == nil && !options.clobber {
 		cliutil.Verbosef("file %s already exists, skipping (--clobber not specified)\n", targetPath)
@@ -181,8 +192,10 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 					return fmt.Errorf("write zeros failed: %w", err)
 				}
 			} else {
-				_, physOffset := ix.Physical(e.DiskByteNr())
-				srcOffset := physOffset + e.Offset()
+				srcOffset, err := physicalRange(ix, e)
+				if err != nil {
+					return err
+				}
 
 				const chunkSize = 1024 * 1024
 				buf := make([]byte, chunkSize)
@@ -239,8 +252,10 @@ func recoverSymlink(ix *index.Index, devFile *os.File, owner, inode uint64, targ
 		target = e.Data()
 	} else {
 		if e.DiskByteNr() > 0 && devFile != nil {
-			_, physOffset := ix.Physical(e.DiskByteNr())
-			srcOffset := physOffset + e.Offset()
+			srcOffset, err := physicalRange(ix, e)
+			if err != nil {
+				return err
+			}
 			buf := make([]byte, e.NumBytes())
 			if _, err := devFile.ReadAt(buf, int64(srcOffset)); err == nil {
 				target = string(buf)
diff --git a/internal/rescuefs/files.go b/internal/rescuefs/files.go
index c525b6c..aa41c96 100644
--- a/internal/rescuefs/files.go
+++ b/internal/rescuefs/files.go
@@ -21,6 +21,7 @@ type extentMapEntry struct {
 	physOffset uint64
 	diskByteNr uint64
 	devID      uint64
+	unmapped   bool
 }
 
 type extentFile struct {
@@ -48,10 +49,15 @@ func newExtentFile(fs *rescueFS, owner, id uint64) nodefs.File {
 			cliutil.Warnf("damaged extent item for inode %d in %d\n", id, owner)
 			continue
 		}
-		var phys uint64
-		var dev uint64
+		var dev, phys, avail uint64
+		mapped := true
 		if e.DiskByteNr() > 0 {
-			dev, phys = fs.ix.Physical(e.DiskByteNr())
+			dev, phys, avail = fs.ix.Physical(e.DiskByteNr())
+			if e.Offset() > avail || e.NumBytes() > avail-e.Offset() {
+				cliutil.Warnf("no chunk maps %d bytes at logical address %d\n",
+					e.NumBytes(), e.DiskByteNr())
+				mapped = false
+			}
 		}
 		f.extentMap = append(f.extentMap, extentMapEntry{
 			fileOffset: r.Key().Offset,
@@ -59,6 +65,7 @@ func newExtentFile(fs *rescueFS, owner, id uint64) nodefs.File {
 			physOffset: phys + e.Offset(),
 			diskByteNr: e.DiskByteNr(),
 			devID:      dev,
+			unmapped:   !mapped,
 		})
 	}
 	return f
@@ -139,6 +146,9 @@ func (f *extentFile) Read(buf []byte, off int64) (res fuse.ReadResult, code fuse
 				buf[destOffset+i] = 0
 			}
 		} else {
+			if entry.unmapped {
+				return nil, fuse.EIO
+			}
 			// Read from physical device
 			physReadOffset := int64(entry.physOffset) + (readStart - extentStart)
 			if f.fs.dev == nil {
diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index cd0bf23..4e85cd4 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -37,6 +37,7 @@ const (
 
 type stripeMapEntry struct {
 	logical uint64
+	length  uint64
 	devID   uint64
 	offset  uint64
 }
@@ -490,9 +491,9 @@ func (ix *Index) FindExtentItem(diskByteNr, diskNumBytes uint64) btrfs.ExtentIte
 }
 
 // Physical maps a filesystem logical address to a physical, on-disk address.
-// Note: No attempt is made to deal with "holes", missing chunk entries, or
-// logical addresses not mapping to any chunk.
-func (ix *Index) Physical(logical uint64) (devID uint64, offset uint64) {
+// It also returns the number of bytes up to the end of the chunk, which is zero
+// if the address is not mapped by any chunk.
+func (ix *Index) Physical(logical uint64) (devID, offset, avail uint64) {
 	if ix.stripeMap == nil {
 		ix.stripeMap = make([]stripeMapEntry, 0, 5 /* Initial capacity */)
 		for r, c := ix.Chunks(); r.HasNext(); c = r.Next() {
@@ -503,9 +504,9 @@ func (ix *Index) Physical(logical uint64) (devID uint64, offset uint64) {
 			s := c.Stripe(0)
 			ix.stripeMap = append(ix.stripeMap, stripeMapEntry{
 				logical: r.Key().Offset,
+				length:  c.Length(),
 				devID:   s.DevID(),
 				offset:  s.Offset()})
-			fmt.Printf("stripe: %d => %d @ %d\n", r.Key().Offset, s.Offset(), r.Generation())
 		}
 	}
 
@@ -514,16 +515,17 @@ func (ix *Index) Physical(logical uint64) (devID uint64, offset uint64) {
 	i := sort.Search(stripeMapLen, func(i int) bool {
 		return ix.stripeMap[i].logical >= logical
 	})
-	if i == stripeMapLen || (i > 0 && ix.stripeMap[i].logical != logical) {
+	if i == stripeMapLen || ix.stripeMap[i].logical != logical {
 		// Not found, adjust index value, as it's an insertion point (see
-		// documentation for sort.Search()). Unless i was 0, in which case the
-		// position is fine.
+		// documentation for sort.Search()).
 		i--
 	}
+	if i < 0 || logical-ix.stripeMap[i].logical >= ix.stripeMap[i].length {
+		return 0, 0, 0
+	}
 	s := ix.stripeMap[i]
-	// TODO(cblichmann): We can check for the failure case if we store the
-	//                   stripe length in the cache and do a range check here.
-	return s.devID, s.offset + logical - s.logical
+	logical -= s.logical
+	return s.devID, s.offset + logical, s.length - logical
 }
 
 // FindDirItemForPath finds the DirItem for a given FS path. It assumes that
-- 
2.43.0


From 4441239df9c2e05f0b6507d358e115b70f95822d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:21 +0000
Subject: [PATCH 11/27] fix: recover restored wrong contents and did not report
 read errors

Extents of older generations overwrote newer ones, preallocated extents were
filled with what happens to be on disk, holes were allocated in memory, and
long inline extents were cut off. Reads that failed in a way other than EOF
silently ended the extent, as did errors on closing the file. Damaged,
unmapped and compressed extents are now errors.
---
 cmd/recover.go                 | 172 +++++++++++++++++++--------------
 pkg/btrfs/index/index_store.go |  79 +++++++++++++++
 2 files changed, 179 insertions(+), 72 deletions(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index a91e037..42a536c 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -8,6 +8,7 @@ package cmd
 import (
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 	"strings"
@@ -24,6 +25,9 @@ type recoverFilesOptions struct {
 	clobber bool
 }
 
+// Longer symlink targets are not supported by any operating system
+const maxLinkTarget = 4096
+
 func init() {
 	options := recoverFilesOptions{}
 	recoverCmd := &cobra.Command{
@@ -128,15 +132,42 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 	return nil
 }
 
-// physicalRange returns where the data of a regular extent is located on the
-// device.
-func physicalRange(ix *index.Index, e btrfs.FileExtentItem) (uint64, error) {
+// physicalRange returns where n bytes of a regular extent are located on the
+// device, starting at skip bytes into the extent.
+func physicalRange(ix *index.Index, e btrfs.FileExtentItem, skip, n uint64) (uint64, error) {
 	_, offset, avail := ix.Physical(e.DiskByteNr())
-	if e.Offset() > avail || e.NumBytes() > avail-e.Offset() {
+	if e.Offset() > avail || skip > avail-e.Offset() || n > avail-e.Offset()-skip {
 		return 0, fmt.Errorf("no chunk maps %d bytes at logical address %d",
-			e.NumBytes(), e.DiskByteNr())
+			n, e.DiskByteNr())
 	}
-	return offset + e.Offset(), nil
+	return offset + e.Offset() + skip, nil
+}
+
+// copyRange copies n bytes of the device to a file.
+func copyRange(f, devFile *os.File, dest, src, n uint64) error {
+	chunkSize := uint64(1024 * 1024)
+	if chunkSize > n {
+		chunkSize = n
+	}
+	buf := make([]byte, chunkSize)
+	for n > 0 {
+		toCopy := n
+		if toCopy > chunkSize {
+			toCopy = chunkSize
+		}
+		read, err := devFile.ReadAt(buf[:toCopy], int64(src))
+		if _, wErr := f.WriteAt(buf[:read], int64(dest)); wErr != nil {
+			return fmt.Errorf("write file data failed: %w", wErr)
+		}
+		if uint64(read) < toCopy {
+			if err == io.EOF {
+				err = io.ErrUnexpectedEOF
+			}
+			return fmt.Errorf("read from device/image failed: %w", err)
+		}
+		dest, src, n = dest+toCopy, src+toCopy, n-toCopy
+	}
+	return nil
 }
 
 func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetPath string, options recoverFilesOptions) error {
@@ -155,82 +186,72 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 	if err != nil {
 		return err
 	}
-	defer f.Close()
 
 	cliutil.Verbosef("recovering file: %s (size: %d)\n", targetPath, fileSize)
 
-	r, e := ix.FileExtentItems(owner, inode)
-	if !r.HasNext() {
-		if ii != nil {
-			_ = f.Truncate(int64(fileSize))
-		}
-		return nil
+	if ii == nil {
+		cliutil.Warnf("no inode for file %s, its size may be wrong\n", targetPath)
+		fileSize = math.MaxInt64
 	}
+	end, err := writeExtents(ix, f, devFile, owner, inode, fileSize)
+	if ii == nil {
+		fileSize = end
+	}
+	// Also accounts for a hole at the end
+	if tErr := f.Truncate(int64(fileSize)); err == nil && tErr != nil {
+		err = fmt.Errorf("truncate failed: %w", tErr)
+	}
+	if cErr := f.Close(); err == nil {
+		err = cErr
+	}
+	return err
+}
 
-	for ; r.HasNext(); e = r.Next() {
-		fileOffset := r.Key().Offset
-
-		if !e.IsValid() {
-			return fmt.Errorf("damaged extent item at offset %d", fileOffset)
+// writeExtents writes the extents of an inode to an empty file, up to the given
+// file size. It returns the end of the last extent.
+func writeExtents(ix *index.Index, f, devFile *os.File, owner, inode, fileSize uint64) (uint64, error) {
+	extents, damaged := ix.FileExtents(owner, inode)
+	last := uint64(0)
+	for _, x := range extents {
+		start, end := x.Start, x.End
+		if end > fileSize {
+			end = fileSize
+		}
+		if start >= end {
+			break
 		}
+		last = end
+
+		e := x.Item
+		skip, n := start-x.Offset, end-start
 		if e.IsInline() {
-			inlineData := []byte(e.Data())
-			limit := len(inlineData)
-			if ii != nil && int64(fileOffset)+int64(limit) > int64(fileSize) {
-				limit = int(fileSize - fileOffset)
+			if e.Compression() != 0 {
+				return last, fmt.Errorf("compressed extents are not supported")
 			}
-			if limit > 0 {
-				if _, err := f.WriteAt(inlineData[:limit], int64(fileOffset)); err != nil {
-					return fmt.Errorf("write inline data failed: %w", err)
-				}
-			}
-		} else {
-			numBytes := e.NumBytes()
-			if e.DiskByteNr() == 0 {
-				zeros := make([]byte, numBytes)
-				if _, err := f.WriteAt(zeros, int64(fileOffset)); err != nil {
-					return fmt.Errorf("write zeros failed: %w", err)
-				}
-			} else {
-				srcOffset, err := physicalRange(ix, e)
-				if err != nil {
-					return err
-				}
-
-				const chunkSize = 1024 * 1024
-				buf := make([]byte, chunkSize)
-
-				var bytesCopied uint64 = 0
-				for bytesCopied < numBytes {
-					toCopy := numBytes - bytesCopied
-					if toCopy > chunkSize {
-						toCopy = chunkSize
-					}
-
-					n, err := devFile.ReadAt(buf[:toCopy], int64(srcOffset+bytesCopied))
-					if n > 0 {
-						if _, wErr := f.WriteAt(buf[:n], int64(fileOffset+bytesCopied)); wErr != nil {
-							return fmt.Errorf("write file data failed: %w", wErr)
-						}
-						bytesCopied += uint64(n)
-					}
-					if err != nil {
-						if err == io.EOF && bytesCopied < numBytes {
-							return fmt.Errorf("unexpected EOF reading device/image: %w", err)
-						}
-						break
-					}
-				}
+			if _, err := f.WriteAt([]byte(e.Data())[skip:skip+n], int64(start)); err != nil {
+				return last, fmt.Errorf("write inline data failed: %w", err)
 			}
+			continue
 		}
-	}
-
-	if ii != nil {
-		if err := f.Truncate(int64(fileSize)); err != nil {
-			return fmt.Errorf("truncate failed: %w", err)
+		if e.DiskByteNr() == 0 || e.Type() == btrfs.FileExtentPreAlloc {
+			continue // Reads as zeros
+		}
+		if e.Compression() != 0 {
+			return last, fmt.Errorf("compressed extents are not supported")
+		}
+		src, err := physicalRange(ix, e, skip, n)
+		if err != nil {
+			return last, err
+		}
+		if err := copyRange(f, devFile, start, src, n); err != nil {
+			return last, err
 		}
 	}
-	return nil
+	if len(damaged) > 0 {
+		return last, fmt.Errorf("damaged extent item at offset %d",
+			damaged[0].Offset)
+	}
+	return last, nil
 }
 
 func recoverSymlink(ix *index.Index, devFile *os.File, owner, inode uint64, targetPath string, options recoverFilesOptions) error {
@@ -252,11 +273,18 @@ func recoverSymlink(ix *index.Index, devFile *os.File, owner, inode uint64, targ
 		target = e.Data()
 	} else {
 		if e.DiskByteNr() > 0 && devFile != nil {
-			srcOffset, err := physicalRange(ix, e)
+			size := e.NumBytes()
+			if ii := ix.FindInodeItem(owner, inode); ii != nil && ii.Size() < size {
+				size = ii.Size()
+			}
+			if size > maxLinkTarget {
+				return fmt.Errorf("symlink target too long: %d", size)
+			}
+			srcOffset, err := physicalRange(ix, e, 0, size)
 			if err != nil {
 				return err
 			}
-			buf := make([]byte, e.NumBytes())
+			buf := make([]byte, size)
 			if _, err := devFile.ReadAt(buf, int64(srcOffset)); err == nil {
 				target = string(buf)
 			} else {
diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 4e85cd4..9862859 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -7,6 +7,7 @@ package index
 
 import (
 	"bytes"
+	"container/heap"
 	"encoding/binary"
 	"errors"
 	"hash/crc32"
@@ -444,6 +445,84 @@ func (ix *Index) FileExtentItems(owner, id uint64) (Range,
 	return ix.RangeAll(owner, btrfs.ExtentDataKey, id)
 }
 
+// FileExtent is the part of a file extent item that makes up the contents of
+// its file in [Start, End).
+type FileExtent struct {
+	Start, End uint64
+	Offset     uint64 // File offset of the extent item
+	Generation uint64
+	Item       btrfs.FileExtentItem
+}
+
+// extentHeap has the extent of the newest generation first.
+type extentHeap []FileExtent
+
+func (h extentHeap) Len() int            { return len(h) }
+func (h extentHeap) Less(i, j int) bool  { return h[i].Generation > h[j].Generation }
+func (h extentHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
+func (h *extentHeap) Push(x interface{}) { *h = append(*h, x.(FileExtent)) }
+func (h *extentHeap) Pop() interface{} {
+	last := len(*h) - 1
+	e := (*h)[last]
+	*h = (*h)[:last]
+	return e
+}
+
+// FileExtents returns the extents of a file in ascending order. The index may
+// have items of several generations that overlap, of which newer ones take
+// precedence. Items that are damaged are returned separately.
+func (ix *Index) FileExtents(owner, id uint64) (extents, damaged []FileExtent) {
+	all := []FileExtent{}
+	bounds := []uint64{}
+	for r, i := ix.FileExtentItems(owner, id); r.HasNext(); i = r.Next() {
+		start := r.Key().Offset
+		e := FileExtent{Start: start, End: start, Offset: start,
+			Generation: r.Generation(), Item: i}
+		if !i.IsValid() {
+			damaged = append(damaged, e)
+			continue
+		}
+		if i.IsInline() {
+			e.End += uint64(len(i.Data()))
+		} else {
+			e.End += i.NumBytes()
+		}
+		if e.End < start {
+			e.End = ^uint64(0)
+		}
+		if e.End > start {
+			all = append(all, e)
+			bounds = append(bounds, e.Start, e.End)
+		}
+	}
+	sort.Slice(bounds, func(i, j int) bool { return bounds[i] < bounds[j] })
+
+	// Between two bounds, at most one extent is the newest one.
+	cur := extentHeap{}
+	for i, b := range bounds {
+		for len(all) > 0 && all[0].Start <= b {
+			heap.Push(&cur, all[0])
+			all = all[1:]
+		}
+		for len(cur) > 0 && cur[0].End <= b {
+			heap.Pop(&cur)
+		}
+		if len(cur) == 0 || bounds[i+1] == b {
+			continue
+		}
+		last := len(extents) - 1
+		if last >= 0 && extents[last].End == b &&
+			extents[last].Offset == cur[0].Offset {
+			extents[last].End = bounds[i+1]
+			continue
+		}
+		e := cur[0]
+		e.Start, e.End = b, bounds[i+1]
+		extents = append(extents, e)
+	}
+	return
+}
+
 // Chunks returns an index range containing all of the chunk items.
 func (ix *Index) Chunks() (Range, btrfs.Chunk) {
 	return ix.RangeAll(btrfs.ChunkTreeObjectID, btrfs.ChunkItemKey,
-- 
2.43.0


From 06b40ec550e6cdacb985a2241cba7abdc3a40b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:31 +0000
Subject: [PATCH 12/27] fix: recover followed symlinks and could overwrite its
 source

Existing symlinks below the destination were followed, both for directories
and (with --clobber) for files, so data could be written outside of the
destination or over the source image and its metadata. Names that contain a
backslash were skipped silently, others that can't be used were not reported.
---
 cmd/recover.go | 71 ++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 60 insertions(+), 11 deletions(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index 42a536c..1e16e54 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -23,6 +23,9 @@ import (
 
 type recoverFilesOptions struct {
 	clobber bool
+	// Set by doRecoverFiles
+	destDir string
+	inputs  []os.FileInfo // Never overwritten
 }
 
 // Longer symlink targets are not supported by any operating system
@@ -62,6 +65,13 @@ func doRecoverFiles(imagePath, destDir, metadata string, options recoverFilesOpt
 		cliutil.Fatalf("failed to create destination directory: %v\n", err)
 	}
 
+	options.destDir = destDir
+	imageInfo, err := f.Stat()
+	cliutil.ReportError(err)
+	metadataInfo, err := os.Stat(metadata)
+	cliutil.ReportError(err)
+	options.inputs = []os.FileInfo{imageInfo, metadataInfo}
+
 	visited := make(map[[2]uint64]bool)
 
 	// Start recovering from the main FS Tree root directory
@@ -95,13 +105,16 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 	}
 	visited[key] = true
 
-	if err := os.MkdirAll(currentDest, 0755); err != nil {
-		return err
+	if currentDest != options.destDir {
+		if err := makeDir(currentDest, options); err != nil {
+			return err
+		}
 	}
 
 	for _, di := range ix.DirEntries(owner, dirID) {
 		name := di.Name()
-		if name == "." || name == ".." || strings.Contains(name, "/") || strings.Contains(name, "\\") {
+		if name == "" || name == "." || name == ".." || strings.Contains(name, "/") || strings.ContainsRune(name, os.PathSeparator) {
+			cliutil.Warnf("skipping entry with invalid name %q in %s\n", name, currentDest)
 			continue
 		}
 
@@ -132,6 +145,41 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 	return nil
 }
 
+// makeRoom makes sure that targetPath can be created. It removes an existing
+// file or symlink, but does not follow it, if it may be overwritten. The result
+// is false if what exists has to be kept.
+func makeRoom(targetPath string, options recoverFilesOptions) (bool, error) {
+	fi, err := os.Lstat(targetPath)
+	if os.IsNotExist(err) {
+		return true, nil
+	}
+	if err != nil || !options.clobber {
+		return false, err
+	}
+	if fi.IsDir() {
+		return false, fmt.Errorf("is an existing directory")
+	}
+	for _, input := range options.inputs {
+		if os.SameFile(fi, input) {
+			return false, fmt.Errorf("would overwrite the source or its metadata")
+		}
+	}
+	return true, os.Remove(targetPath)
+}
+
+// makeDir creates a directory if there is none.
+func makeDir(targetPath string, options recoverFilesOptions) error {
+	if fi, err := os.Lstat(targetPath); err == nil && fi.IsDir() {
+		return nil
+	}
+	if ok, err := makeRoom(targetPath, options); err != nil {
+		return err
+	} else if !ok {
+		return fmt.Errorf("exists and is not a directory (--clobber not specified)")
+	}
+	return os.Mkdir(targetPath, 0755)
+}
+
 // physicalRange returns where n bytes of a regular extent are located on the
 // device, starting at skip bytes into the extent.
 func physicalRange(ix *index.Index, e btrfs.FileExtentItem, skip, n uint64) (uint64, error) {
@@ -171,7 +219,9 @@ func copyRange(f, devFile *os.File, dest, src, n uint64) error {
 }
 
 func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetPath string, options recoverFilesOptions) error {
-	if _, err := os.Stat(targetPath); err == nil && !options.clobber {
+	if ok, err := makeRoom(targetPath, options); err != nil {
+		return err
+	} else if !ok {
 		cliutil.Verbosef("file %s already exists, skipping (--clobber not specified)\n", targetPath)
 		return nil
 	}
@@ -182,7 +232,7 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 		fileSize = ii.Size()
 	}
 
-	f, err := os.OpenFile(targetPath, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
+	f, err := os.OpenFile(targetPath, os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0644)
 	if err != nil {
 		return err
 	}
@@ -255,12 +305,11 @@ func writeExtents(ix *index.Index, f, devFile *os.File, owner, inode, fileSize u
 }
 
 func recoverSymlink(ix *index.Index, devFile *os.File, owner, inode uint64, targetPath string, options recoverFilesOptions) error {
-	if _, err := os.Lstat(targetPath); err == nil {
-		if !options.clobber {
-			cliutil.Verbosef("symlink %s already exists, skipping (--clobber not specified)\n", targetPath)
-			return nil
-		}
-		_ = os.Remove(targetPath)
+	if ok, err := makeRoom(targetPath, options); err != nil {
+		return err
+	} else if !ok {
+		cliutil.Verbosef("symlink %s already exists, skipping (--clobber not specified)\n", targetPath)
+		return nil
 	}
 
 	e := ix.FindFileExtentItem(owner, inode)
-- 
2.43.0


From 47357f0c6ca79ea931b39ddd17b05c71d49a5e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:09 +0000
Subject: [PATCH 13/27] fix: ls looked up subvolumes in the wrong tree and did
 not end on cycles

Entries of subvolumes were listed with the attributes and the contents of an
unrelated inode of the containing tree. The same happened to paths that cross
subvolumes. Damaged directories that contain themselves recursed forever.
---
 cmd/ls.go                      | 49 +++++++++++++++++++++++-----------
 pkg/btrfs/index/index_store.go | 13 +++++----
 2 files changed, 41 insertions(+), 21 deletions(-)

diff --git a/cmd/ls.go b/cmd/ls.go
index 835f935..af5368d 100644
--- a/cmd/ls.go
+++ b/cmd/ls.go
@@ -61,11 +61,20 @@ func shortTime(t time.Time) string {
 	return t.Format("Jan _2 15:04")
 }
 
+// entryInode returns the owner and the inode number of a directory entry. Inodes
+// of subvolumes/snapshots live in the tree of the subvolume.
+func entryInode(owner uint64, di btrfs.DirItem) (uint64, uint64) {
+	if di.IsSubvolume() {
+		return di.Location().ObjectID, btrfs.FirstFreeObjectID
+	}
+	return owner, di.Location().ObjectID
+}
+
 func listDirItem(w io.Writer, ix *index.Index, owner uint64, di btrfs.DirItem,
 	showInode bool) {
-	inode := di.Location().ObjectID
+	owner, inode := entryInode(owner, di)
 	if showInode {
-		fmt.Fprintf(w, "%d\t", di.Location().ObjectID)
+		fmt.Fprintf(w, "%d\t", inode)
 	}
 	fmt.Fprint(w, dirItemTypeString(di.Type()))
 	if ii := ix.FindInodeItem(owner, inode); ii == nil {
@@ -94,22 +103,29 @@ func (a dirItemSlice) Less(i, j int) bool {
 func (a dirItemSlice) Swap(i, j int) { a[i], a[j] = a[j], a[i] }
 func (a dirItemSlice) Sort()         { sort.Sort(a) }
 
-func listDirectory(w io.Writer, ix *index.Index, owner, dirID uint64,
-	recursive, showInode bool) {
-	dis := dirItemSlice(ix.DirEntries(owner, dirID))
+// dirKey identifies a directory by the tree it lives in and its inode.
+type dirKey struct{ owner, dirID uint64 }
+
+func listDirectory(w io.Writer, ix *index.Index, dir dirKey,
+	recursive, showInode bool, visited map[dirKey]bool) {
+	// Damaged metadata may have directories that contain themselves
+	visited[dir] = true
+	dis := dirItemSlice(ix.DirEntries(dir.owner, dir.dirID))
 	sort.Sort(dis)
 	todo := dirItemSlice{}
 	for _, di := range dis {
-		listDirItem(w, ix, owner, di, showInode)
-		// TODO(cblichmann): Subvolumes/Snapshots, add owner
+		listDirItem(w, ix, dir.owner, di, showInode)
 		if recursive && di.IsDir() {
 			todo = append(todo, di)
 		}
 	}
 
 	for _, di := range todo {
-		fmt.Fprintf(w, "%s:\n", di.Name())
-		listDirectory(w, ix, owner, di.Location().ObjectID, true, showInode)
+		owner, dirID := entryInode(dir.owner, di)
+		if sub := (dirKey{owner, dirID}); !visited[sub] {
+			fmt.Fprintf(w, "%s:\n", di.Name())
+			listDirectory(w, ix, sub, true, showInode, visited)
+		}
 	}
 }
 
@@ -154,30 +170,31 @@ func doListFiles(args []string, metadata string, options listFilesOptions) {
 	dirID := uint64(btrfs.FirstFreeObjectID)
 
 	w := tabwriter.NewWriter(os.Stdout, 1, 4, 1, ' ', 0)
-	type Todo struct{ owner, dirID uint64 }
-	var todo []Todo
+	var todo []dirKey
 	for _, p := range args {
 		p = path.Clean(p)
 		if p == "/" {
-			todo = append(todo, Todo{owner, dirID})
+			todo = append(todo, dirKey{owner, dirID})
 			continue
 		}
 
-		if di := ix.FindDirItemForPath(owner, p); di == nil {
+		if dirOwner, di := ix.FindDirItemForPath(owner, p); di == nil {
 			cliutil.Warnf("cannot lookup '%s': No such file or directory\n", p)
 			continue
 		} else if !di.IsDir() {
-			listDirItem(w, ix, owner, di, options.Inode)
+			listDirItem(w, ix, dirOwner, di, options.Inode)
 			continue
 		} else {
-			todo = append(todo, Todo{owner, di.Location().ObjectID})
+			owner, dirID := entryInode(dirOwner, di)
+			todo = append(todo, dirKey{owner, dirID})
 		}
 	}
 	w.Flush()
 
 	w = tabwriter.NewWriter(os.Stdout, 1, 4, 1, ' ', 0)
 	for _, t := range todo {
-		listDirectory(w, ix, t.owner, t.dirID, options.Recursive, options.Inode)
+		listDirectory(w, ix, t, options.Recursive, options.Inode,
+			make(map[dirKey]bool))
 	}
 	w.Flush()
 }
diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 9862859..617f357 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -608,9 +608,11 @@ func (ix *Index) Physical(logical uint64) (devID, offset, avail uint64) {
 }
 
 // FindDirItemForPath finds the DirItem for a given FS path. It assumes that
-// the path is clean, as returned by path.Clean().
-func (ix *Index) FindDirItemForPath(owner uint64, path string) btrfs.DirItem {
-	result := btrfs.DirItem(nil)
+// the path is clean, as returned by path.Clean(). Also returns the owner of the
+// item, which differs from the given one if the path crosses subvolumes.
+func (ix *Index) FindDirItemForPath(owner uint64, path string) (uint64,
+	btrfs.DirItem) {
+	resultOwner, result := owner, btrfs.DirItem(nil)
 	dirID := uint64(btrfs.FirstFreeObjectID)
 	pathComps := strings.Split(strings.TrimLeft(path, "/"), "/")
 	for i, comp := range pathComps {
@@ -639,8 +641,9 @@ func (ix *Index) FindDirItemForPath(owner uint64, path string) btrfs.DirItem {
 		}
 
 		if !found {
-			return nil
+			return owner, nil
 		}
+		resultOwner = owner
 		if !d.IsSubvolume() {
 			dirID = d.Location().ObjectID
 		} else {
@@ -648,7 +651,7 @@ func (ix *Index) FindDirItemForPath(owner uint64, path string) btrfs.DirItem {
 			dirID = btrfs.FirstFreeObjectID
 		}
 	}
-	return result
+	return resultOwner, result
 }
 
 func keyFirst(k *btrfs.Key, args []uint64) {
-- 
2.43.0


From c9da35494350dc38976309b449fc006612ecdf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:09 +0000
Subject: [PATCH 14/27] fix: report a truncated metadata record instead of
 panicking

---
 pkg/btrfs/index/index_store.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 617f357..f03a9dc 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -154,6 +154,9 @@ func (ix *Index) checkUpdateMetadata(o *Options) error {
 			}
 			return nil
 		}
+		if len(m) < indexMetadataEnd {
+			return errors.New("damaged metadata")
+		}
 
 		if !o.AllowOldVersion && m.Version() < MetadataVersion {
 			return fmt.Errorf("metadata version v%d too old, upgrade using "+
-- 
2.43.0


From 804b9584ec02886abd5cd4a52c8925617dc533fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:20 +0000
Subject: [PATCH 15/27] fix: identify sampled beyond the device and misjudged
 the block size

Sample offsets next to the superblock copies could lie beyond the end of the
device. Requesting more samples than there are blocks never finished, and fewer
than the fixed ones panicked. The fourth superblock copy was never covered.
The block size guess did not include the first leaf found, but counted it, and
superblock copies were taken for leaves.
---
 internal/identify/collector.go | 16 +++++++++++-----
 internal/identify/identify.go  | 27 +++++++++++++++------------
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/internal/identify/collector.go b/internal/identify/collector.go
index 3026fa8..168d0e1 100644
--- a/internal/identify/collector.go
+++ b/internal/identify/collector.go
@@ -40,6 +40,7 @@ func (a fsEntries) Sort()         { sort.Sort(a) }
 
 type histEntry struct {
 	Count        uint
+	NonEmpty     uint // Number of leaves that have items
 	BlockSizeSum uint64
 }
 
@@ -50,7 +51,7 @@ type FSIDCollecter struct {
 func (c *FSIDCollecter) CollectBlock(block []byte) {
 	h := btrfs.Header(block)
 	// Only gather blocks that look like leaves
-	if !h.IsLeaf() {
+	if !h.IsLeaf() || h.IsSuperBlock() {
 		return
 	}
 	fsid := h.FSID()
@@ -66,13 +67,15 @@ func (c *FSIDCollecter) CollectBlock(block []byte) {
 	if !ok {
 		entry = &histEntry{}
 		c.hist[fsid] = entry
-	} else if h.NrItems() > 0 {
+	}
+	if h.NrItems() > 0 {
 		item := btrfs.Item(block[btrfs.HeaderLen:])
 		// Since item headers and their data grow towards each other, the
 		// first item's offset will be the largest. In order to guess the
 		// actual block size, sum offsets for all entries belonging to an
 		// FSID to compute the average later.
 		entry.BlockSizeSum += uint64(item.Offset())
+		entry.NonEmpty++
 	}
 	entry.Count++
 }
@@ -84,9 +87,12 @@ func (c *FSIDCollecter) Entries(minOccurrence uint) []FSEntry {
 	for uuid, entry := range c.hist {
 		if entry.Count >= minOccurrence {
 			// Compute average and round to nearest 4KiB.
-			guess := uint32(float64(entry.BlockSizeSum)/float64(entry.Count)+
-				btrfs.X86RegularPageSize) / btrfs.X86RegularPageSize *
-				btrfs.X86RegularPageSize
+			avg := 0.0
+			if entry.NonEmpty > 0 {
+				avg = float64(entry.BlockSizeSum) / float64(entry.NonEmpty)
+			}
+			guess := uint32(avg+btrfs.X86RegularPageSize) /
+				btrfs.X86RegularPageSize * btrfs.X86RegularPageSize
 			occ = append(occ, FSEntry{uuid, entry.Count,
 				coding.ShannonEntropy(uuid[:]), guess})
 		}
diff --git a/internal/identify/identify.go b/internal/identify/identify.go
index c89d88b..b5031a3 100644
--- a/internal/identify/identify.go
+++ b/internal/identify/identify.go
@@ -28,29 +28,32 @@ func (a Uint64Array) Less(i, j int) bool { return a[i] < a[j] }
 func (a Uint64Array) Swap(i, j int)      { a[i], a[j] = a[j], a[i] }
 func (a Uint64Array) Sort()              { sort.Sort(a) }
 
+// MakeSampleOffsets returns the sorted offsets of the blocks to sample. These
+// are the blocks near the superblock copies and as many randomly chosen ones as
+// needed for the requested number of samples. All of them lie on the device, so
+// there may be fewer if it does not have that many blocks.
 func MakeSampleOffsets(devSize, blockSize, numSamples uint64) []uint64 {
 	sampleSet := make(map[uint64]bool)
-	for i := 0; i < 100; i++ {
-		sampleSet[btrfs.SuperInfoOffset+uint64(i)*blockSize] = true
-		sampleSet[btrfs.SuperInfoOffset2+uint64(i+100)*blockSize] = true
-	}
-	if devSize >= btrfs.SuperInfoOffset3 {
+	for copyNum, start := range []uint64{btrfs.SuperInfoOffset,
+		btrfs.SuperInfoOffset2, btrfs.SuperInfoOffset3,
+		// For completeness, handle huge devices
+		btrfs.SuperInfoOffset4} {
 		for i := 0; i < 100; i++ {
-			sampleSet[btrfs.SuperInfoOffset3+uint64(i+200)*blockSize] = true
-		}
-		if devSize >= btrfs.SuperInfoOffset4 {
-			// For completeness, handle huge devices
-			for i := 0; i < 100; i++ {
-				sampleSet[btrfs.SuperInfoOffset3+uint64(i+300)*blockSize] = true
+			offset := start + uint64(i+copyNum*100)*blockSize
+			if offset+blockSize <= devSize {
+				sampleSet[offset] = true
 			}
 		}
 	}
 	numBlocks := int64(devSize / blockSize)
+	if numSamples > uint64(numBlocks) {
+		numSamples = uint64(numBlocks)
+	}
 	for uint64(len(sampleSet)) < numSamples {
 		sampleSet[uint64(rand.Int63n(numBlocks))*blockSize] = true
 	}
 	// Sort samples vector to access device in one direction only
-	samples := make(Uint64Array, numSamples)
+	samples := make(Uint64Array, len(sampleSet))
 	i := 0
 	for o := range sampleSet {
 		samples[i] = o
-- 
2.43.0


From 59c88d891bdde01ed18041858e013a538cc92b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:20 +0000
Subject: [PATCH 16/27] fix: reject block sizes that can't hold a leaf

recon never finished and identify panicked with a block size of zero.
---
 pkg/btrfs/util.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/btrfs/util.go b/pkg/btrfs/util.go
index 7a30acb..6a6efcd 100644
--- a/pkg/btrfs/util.go
+++ b/pkg/btrfs/util.go
@@ -13,7 +13,9 @@ import (
 func CheckDeviceSize(rs io.ReadSeeker, blockSize uint64) (uint64, error) {
 	size, err := rs.Seek(0, io.SeekEnd)
 	if err == nil {
-		if uint64(size) < blockSize {
+		if blockSize < HeaderLen+ItemLen {
+			err = fmt.Errorf("invalid block size: %d", blockSize)
+		} else if uint64(size) < blockSize {
 			err = fmt.Errorf("device smaller than block size: %d < %d", size,
 				blockSize)
 		} else if uint64(size) < SuperInfoOffset2+blockSize*100 {
-- 
2.43.0


From b33577ddc2d165fc8497ae7b5849e5d021288310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:16 +0000
Subject: [PATCH 17/27] fix: concurrent requests raced on the chunk map

---
 pkg/btrfs/index/index_store.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index f03a9dc..2635fc9 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -14,6 +14,7 @@ import (
 	"os"
 	"sort"
 	"strings"
+	"sync"
 
 	"fmt"
 
@@ -55,7 +56,8 @@ type Index struct {
 	txNum      int
 	Generation uint64
 
-	stripeMap []stripeMapEntry
+	stripeMap     []stripeMapEntry
+	stripeMapOnce sync.Once
 }
 
 // Options sets options for opening a metadata index.
@@ -485,7 +487,9 @@ func (ix *Index) FileExtents(owner, id uint64) (extents, damaged []FileExtent) {
 			damaged = append(damaged, e)
 			continue
 		}
-		if i.IsInline() {
+		if i.IsInline() && i.Compression() != 0 {
+			e.End += i.RAMBytes()
+		} else if i.IsInline() {
 			e.End += uint64(len(i.Data()))
 		} else {
 			e.End += i.NumBytes()
@@ -576,7 +580,8 @@ func (ix *Index) FindExtentItem(diskByteNr, diskNumBytes uint64) btrfs.ExtentIte
 // It also returns the number of bytes up to the end of the chunk, which is zero
 // if the address is not mapped by any chunk.
 func (ix *Index) Physical(logical uint64) (devID, offset, avail uint64) {
-	if ix.stripeMap == nil {
+	// May be called concurrently
+	ix.stripeMapOnce.Do(func() {
 		ix.stripeMap = make([]stripeMapEntry, 0, 5 /* Initial capacity */)
 		for r, c := ix.Chunks(); r.HasNext(); c = r.Next() {
 			if !c.IsValid() {
@@ -590,7 +595,7 @@ func (ix *Index) Physical(logical uint64) (devID, offset, avail uint64) {
 				devID:   s.DevID(),
 				offset:  s.Offset()})
 		}
-	}
+	})
 
 	stripeMapLen := len(ix.stripeMap)
 	// Index structure entries are sorted
-- 
2.43.0


From b2c37465c61c06aadcef6ac51c4fe9b54441d288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:17 +0000
Subject: [PATCH 18/27] fix: signals arriving while mounting were lost

---
 cmd/mount.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/mount.go b/cmd/mount.go
index 29b496f..0654c6a 100644
--- a/cmd/mount.go
+++ b/cmd/mount.go
@@ -56,14 +56,16 @@ func doMountRescueFS(args []string, metadata string) {
 			"visible\n")
 	}
 
+	// Do not miss signals that arrive while mounting
+	ch := make(chan os.Signal, 1)
+	signal.Notify(ch, os.Interrupt, syscall.SIGTERM)
+
 	fs := rescuefs.New(app.Global.Metadata, ix, dev)
 	cliutil.ReportError(fs.Mount(mountPoint))
 	cliutil.Verbosef("mounted rescue FS on %s\n", mountPoint)
 	go fs.Serve()
 
 	// Break and unmount on CTRL+C or TERM signal
-	ch := make(chan os.Signal, 1)
-	signal.Notify(ch, os.Interrupt, syscall.SIGTERM)
 	<-ch
 	cliutil.Warnf("got signal, unmounting...\n")
 	cliutil.ReportError(fs.Unmount())
-- 
2.43.0


From 59e122bf77501e79f3a4d9ec9a1e630e52c7373e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:17 +0000
Subject: [PATCH 19/27] fix: mount served wrong file contents and directory
 entries

Reads past the end of inline files panicked, those of holes, preallocated ranges
and after short device reads returned stale buffer contents and overlapping
extents of older generations took precedence. Empty files could not be opened.
Directory listings only knew files and directories and concurrent requests raced
on the cached entries and attributes. The rescue directory vanished once the
kernel forgot it and the metadata file could be opened for writing.
---
 internal/rescuefs/files.go  | 171 ++++++++++++++++++++----------------
 internal/rescuefs/nodefs.go |  82 ++++++++++-------
 2 files changed, 146 insertions(+), 107 deletions(-)

diff --git a/internal/rescuefs/files.go b/internal/rescuefs/files.go
index aa41c96..f7bfef5 100644
--- a/internal/rescuefs/files.go
+++ b/internal/rescuefs/files.go
@@ -8,9 +8,11 @@
 package rescuefs
 
 import (
-	"io"
+	"math"
+	"sort"
 
 	cliutil "blichmann.eu/code/btrfscue/cmd/btrfscue/app/util"
+	"blichmann.eu/code/btrfscue/pkg/btrfs"
 	"github.com/hanwen/go-fuse/v2/fuse"
 	"github.com/hanwen/go-fuse/v2/fuse/nodefs"
 )
@@ -21,7 +23,8 @@ type extentMapEntry struct {
 	physOffset uint64
 	diskByteNr uint64
 	devID      uint64
-	unmapped   bool
+	inlineData string
+	unreadable bool
 }
 
 type extentFile struct {
@@ -29,12 +32,16 @@ type extentFile struct {
 	fs        *rescueFS
 	owner     uint64
 	inode     uint64
+	size      uint64
 	extentMap []extentMapEntry
 }
 
+// newExtentFile returns a file that reads the extents of an inode. Everything
+// that is not covered by an extent reads as zeros.
 func newExtentFile(fs *rescueFS, owner, id uint64) nodefs.File {
-	r, e := fs.ix.FileExtentItems(owner, id)
-	if !r.HasNext() {
+	ii := fs.ix.FindInodeItem(owner, id)
+	extents, damaged := fs.ix.FileExtents(owner, id)
+	if ii == nil && len(extents) == 0 && len(damaged) == 0 {
 		return nil
 	}
 	f := &extentFile{
@@ -42,31 +49,57 @@ func newExtentFile(fs *rescueFS, owner, id uint64) nodefs.File {
 		fs:        fs,
 		owner:     owner,
 		inode:     id,
-		extentMap: make([]extentMapEntry, 0, 1),
+		extentMap: make([]extentMapEntry, 0, len(extents)+len(damaged)),
 	}
-	for ; r.HasNext(); e = r.Next() {
-		if !e.IsValid() {
-			cliutil.Warnf("damaged extent item for inode %d in %d\n", id, owner)
-			continue
-		}
-		var dev, phys, avail uint64
-		mapped := true
-		if e.DiskByteNr() > 0 {
-			dev, phys, avail = fs.ix.Physical(e.DiskByteNr())
-			if e.Offset() > avail || e.NumBytes() > avail-e.Offset() {
+	for _, x := range extents {
+		e, skip, n := x.Item, x.Start-x.Offset, x.End-x.Start
+		f.size = x.End
+		entry := extentMapEntry{fileOffset: x.Start, length: n}
+		if e.Type() == btrfs.FileExtentPreAlloc {
+			// Nothing has been written yet, reads as zeros
+		} else if e.Compression() != 0 && (e.IsInline() || e.DiskByteNr() > 0) {
+			entry.unreadable = true // Not supported
+		} else if e.IsInline() {
+			entry.inlineData = e.Data()[skip : skip+n]
+		} else if e.DiskByteNr() > 0 {
+			dev, phys, avail := fs.ix.Physical(e.DiskByteNr())
+			if skip += e.Offset(); skip < e.Offset() || skip > avail || n > avail-skip {
 				cliutil.Warnf("no chunk maps %d bytes at logical address %d\n",
-					e.NumBytes(), e.DiskByteNr())
-				mapped = false
+					n, e.DiskByteNr())
+				entry.unreadable = true
 			}
+			entry.physOffset = phys + skip
+			entry.diskByteNr = e.DiskByteNr()
+			entry.devID = dev
 		}
-		f.extentMap = append(f.extentMap, extentMapEntry{
-			fileOffset: r.Key().Offset,
-			length:     e.NumBytes(),
-			physOffset: phys + e.Offset(),
-			diskByteNr: e.DiskByteNr(),
-			devID:      dev,
-			unmapped:   !mapped,
+		f.extentMap = append(f.extentMap, entry)
+	}
+	// There is no telling where damaged extents end, so make everything up to
+	// the next one unreadable. These come last, as they may overlap.
+	for _, d := range damaged {
+		cliutil.Warnf("damaged extent item for inode %d in %d\n", id, owner)
+		end := uint64(math.MaxInt64)
+		i := sort.Search(len(extents), func(i int) bool {
+			return extents[i].End > d.Offset
 		})
+		if i < len(extents) && extents[i].Start <= d.Offset {
+			if extents[i].Generation >= d.Generation {
+				continue
+			}
+			end = extents[i].End
+		} else if i < len(extents) {
+			end = extents[i].Start
+		}
+		if d.Offset < end {
+			f.extentMap = append(f.extentMap, extentMapEntry{
+				fileOffset: d.Offset, length: end - d.Offset, unreadable: true})
+		}
+	}
+	if ii != nil {
+		f.size = ii.Size()
+	}
+	if f.size > math.MaxInt64 {
+		f.size = math.MaxInt64
 	}
 	return f
 }
@@ -94,12 +127,7 @@ func (f *extentFile) GetAttr(out *fuse.Attr) fuse.Status {
 
 	// Fallback if inode item is not found in metadata
 	out.Mode = fuse.S_IFREG | 0644
-	var size uint64
-	if len(f.extentMap) > 0 {
-		last := f.extentMap[len(f.extentMap)-1]
-		size = last.fileOffset + last.length
-	}
-	out.Size = size
+	out.Size = f.size
 	return fuse.OK
 }
 
@@ -108,66 +136,55 @@ func (f *extentFile) Read(buf []byte, off int64) (res fuse.ReadResult, code fuse
 		return nil, fuse.EINVAL
 	}
 
-	bytesRead := 0
-	bufLen := len(buf)
+	if uint64(off) >= f.size {
+		return fuse.ReadResultData(nil), fuse.OK
+	}
+	if left := f.size - uint64(off); uint64(len(buf)) > left {
+		buf = buf[:left]
+	}
+	// Sparse holes read as zeros
+	for i := range buf {
+		buf[i] = 0
+	}
 
 	for _, entry := range f.extentMap {
-		if off >= int64(entry.fileOffset+entry.length) {
-			continue
-		}
-		if off+int64(bufLen-bytesRead) <= int64(entry.fileOffset) {
-			break
-		}
-
 		// Calculate overlap between the requested range and the current extent
-		extentStart := int64(entry.fileOffset)
-		extentEnd := int64(entry.fileOffset + entry.length)
-
-		readStart := off
-		if readStart < extentStart {
-			readStart = extentStart
+		readStart := uint64(off)
+		if readStart < entry.fileOffset {
+			readStart = entry.fileOffset
 		}
 
-		readEnd := off + int64(bufLen-bytesRead)
-		if readEnd > extentEnd {
-			readEnd = extentEnd
+		readEnd := uint64(off) + uint64(len(buf))
+		if readEnd > entry.fileOffset+entry.length {
+			readEnd = entry.fileOffset + entry.length
 		}
 
 		if readEnd <= readStart {
 			continue
 		}
+		dest := buf[readStart-uint64(off) : readEnd-uint64(off)]
+		skip := readStart - entry.fileOffset
 
-		chunkSize := readEnd - readStart
-		destOffset := readStart - off
-
+		if entry.unreadable {
+			return nil, fuse.EIO
+		}
+		if len(entry.inlineData) > 0 {
+			copy(dest, entry.inlineData[skip:])
+			continue
+		}
 		if entry.diskByteNr == 0 {
-			// Sparse hole: fill with zeros
-			for i := int64(0); i < chunkSize; i++ {
-				buf[destOffset+i] = 0
-			}
-		} else {
-			if entry.unmapped {
-				return nil, fuse.EIO
-			}
-			// Read from physical device
-			physReadOffset := int64(entry.physOffset) + (readStart - extentStart)
-			if f.fs.dev == nil {
-				// No device file provided: return zeroes
-				for i := int64(0); i < chunkSize; i++ {
-					buf[destOffset+i] = 0
-				}
-			} else {
-				if _, err := f.fs.dev.ReadAt(buf[destOffset:destOffset+chunkSize], physReadOffset); err != nil && err != io.EOF {
-					cliutil.Warnf("read error at physical offset %d: %v\n", physReadOffset, err)
-					return nil, fuse.EIO
-				}
-			}
+			continue
+		}
+		if f.fs.dev == nil {
+			// No device file provided
+			return nil, fuse.EIO
+		}
+		// Read from physical device
+		physReadOffset := int64(entry.physOffset + skip)
+		if n, err := f.fs.dev.ReadAt(dest, physReadOffset); n < len(dest) {
+			cliutil.Warnf("read error at physical offset %d: %v\n", physReadOffset, err)
+			return nil, fuse.EIO
 		}
-		bytesRead += int(chunkSize)
-	}
-
-	if bytesRead < bufLen {
-		return fuse.ReadResultData(buf[:bytesRead]), fuse.OK
 	}
 	return fuse.ReadResultData(buf), fuse.OK
 }
diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index 380424c..0ae20fc 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -9,20 +9,18 @@ package rescuefs
 
 import (
 	"os"
+	"strings"
+	"sync"
 	"syscall"
 	"time"
 
 	"github.com/hanwen/go-fuse/v2/fuse"
 	"github.com/hanwen/go-fuse/v2/fuse/nodefs"
 
-	"fmt" //DBG!!!
-
 	"blichmann.eu/code/btrfscue/pkg/btrfs"
 	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
 )
 
-func init() { fmt.Printf("") } //DBG!!!
-
 func (r *rescueFS) newNode() *basicNode {
 	n := &basicNode{Node: nodefs.NewDefaultNode(), fs: r}
 	now := time.Now()
@@ -33,8 +31,8 @@ func (r *rescueFS) newNode() *basicNode {
 
 func (r *rescueFS) OnMount(c *nodefs.FileSystemConnector) {
 	i := r.root.Inode()
-	i.NewChild("rescue", true, newRescueNode(r, btrfs.FSTreeObjectID,
-		btrfs.FirstFreeObjectID))
+	i.NewChild("rescue", true, &rescueRootNode{newRescueNode(r,
+		btrfs.FSTreeObjectID, btrfs.FirstFreeObjectID)})
 	i.NewChild("metadata", false, newMetadataNode(r))
 }
 
@@ -75,7 +73,10 @@ func newMetadataNode(fs *rescueFS) *metadataNode {
 
 func (n *metadataNode) Open(flags uint32, context *fuse.Context) (
 	nodefs.File, fuse.Status) {
-	if f, err := os.OpenFile(n.fs.metadata, int(flags), 0555); err != nil {
+	if flags&fuse.O_ANYWRITE != 0 {
+		return nil, fuse.EPERM
+	}
+	if f, err := os.Open(n.fs.metadata); err != nil {
 		return nil, fuse.ToStatus(err)
 	} else {
 		return nodefs.NewReadOnlyFile(nodefs.NewLoopbackFile(f)), fuse.OK
@@ -88,6 +89,7 @@ type rescueNode struct {
 	ix       *index.Index
 	owner    uint64
 	ixInode  uint64
+	mutex    sync.Mutex // Guards the caches below
 	attr     *fuse.Attr // Cached attributes
 	dirItems map[string]btrfs.DirItem
 }
@@ -103,12 +105,19 @@ func newRescueNode(fs *rescueFS, owner, inode uint64) *rescueNode {
 	}
 }
 
+// rescueRootNode is the topmost rescue node. As it is not looked up by name, it
+// needs to stay even if the kernel forgets about it.
+type rescueRootNode struct{ *rescueNode }
+
+func (n *rescueRootNode) Deletable() bool { return false }
+
 func (n *rescueNode) GetAttr(fi *fuse.Attr, file nodefs.File,
 	context *fuse.Context) (code fuse.Status) {
+	n.mutex.Lock()
+	defer n.mutex.Unlock()
 	if n.attr == nil {
 		ii := n.ix.FindInodeItem(n.owner, n.ixInode)
 		if ii == nil {
-			fmt.Println("No data for", n.owner, n.ixInode) //DBG!!!
 			return fuse.ENOATTR
 		}
 		n.attr = &fuse.Attr{
@@ -130,19 +139,27 @@ func (n *rescueNode) GetAttr(fi *fuse.Attr, file nodefs.File,
 	return fuse.OK
 }
 
-func (n *rescueNode) ensureDirItems() {
+// entries returns the directory entries by name. These do not change.
+func (n *rescueNode) entries() map[string]btrfs.DirItem {
+	n.mutex.Lock()
+	defer n.mutex.Unlock()
 	if len(n.dirItems) > 0 {
-		return
+		return n.dirItems
 	}
 	for _, d := range n.ix.DirEntries(n.owner, n.ixInode) {
-		n.dirItems[d.Name()] = d
+		name := d.Name()
+		if name == "" || name == "." || name == ".." ||
+			strings.ContainsAny(name, "/\x00") {
+			continue // Damaged
+		}
+		n.dirItems[name] = d
 	}
+	return n.dirItems
 }
 
 func (n *rescueNode) Lookup(out *fuse.Attr, name string,
 	context *fuse.Context) (*nodefs.Inode, fuse.Status) {
-	n.ensureDirItems()
-	d, ok := n.dirItems[name]
+	d, ok := n.entries()[name]
 	if !ok {
 		return nil, fuse.ENOENT
 	}
@@ -159,32 +176,37 @@ func (n *rescueNode) Lookup(out *fuse.Attr, name string,
 	return ch, node.GetAttr(out, nil, context)
 }
 
+// direntMode returns the file type bits of a directory entry.
+func direntMode(t uint8) uint32 {
+	switch t {
+	case btrfs.FtDir:
+		return fuse.S_IFDIR
+	case btrfs.FtChrdev:
+		return syscall.S_IFCHR
+	case btrfs.FtBlkdev:
+		return syscall.S_IFBLK
+	case btrfs.FtFifo:
+		return fuse.S_IFIFO
+	case btrfs.FtSock:
+		return syscall.S_IFSOCK
+	case btrfs.FtSymlink:
+		return fuse.S_IFLNK
+	default:
+		return fuse.S_IFREG
+	}
+}
+
 func (n *rescueNode) OpenDir(context *fuse.Context) ([]fuse.DirEntry,
 	fuse.Status) {
-	n.ensureDirItems()
 	var s []fuse.DirEntry
-	for _, di := range n.dirItems {
-		entry := fuse.DirEntry{Name: di.Name(), Mode: fuse.S_IFREG}
-		if di.IsDir() {
-			entry.Mode = fuse.S_IFDIR
-		}
-		s = append(s, entry)
+	for name, di := range n.entries() {
+		s = append(s, fuse.DirEntry{Name: name, Mode: direntMode(di.Type())})
 	}
 	return s, fuse.OK
 }
 
 func (n *rescueNode) Open(flags uint32, context *fuse.Context) (
 	nodefs.File, fuse.Status) {
-	// TODO(cblichmann): HACK HACK HACK!
-	r, e := n.ix.FileExtentItems(n.owner, n.ixInode)
-	if !r.HasNext() {
-		return nil, fuse.ENOENT
-	}
-	if e.IsValid() && e.IsInline() {
-		return nodefs.NewReadOnlyFile(nodefs.NewDataFile(
-			[]byte(e.Data()))), fuse.OK
-	}
-
 	if f := newExtentFile(n.fs, n.owner, n.ixInode); f != nil {
 		return f, fuse.OK
 	}
-- 
2.43.0


From a6a66b72a36abf05302b09d0766aa95dabee723a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:29 +0000
Subject: [PATCH 20/27] fix: entries without inode item could not be accessed
 in the mount

---
 internal/rescuefs/nodefs.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index 0ae20fc..ab8b688 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -31,8 +31,9 @@ func (r *rescueFS) newNode() *basicNode {
 
 func (r *rescueFS) OnMount(c *nodefs.FileSystemConnector) {
 	i := r.root.Inode()
-	i.NewChild("rescue", true, &rescueRootNode{newRescueNode(r,
-		btrfs.FSTreeObjectID, btrfs.FirstFreeObjectID)})
+	root := newRescueNode(r, btrfs.FSTreeObjectID, btrfs.FirstFreeObjectID)
+	root.typ = fuse.S_IFDIR
+	i.NewChild("rescue", true, &rescueRootNode{root})
 	i.NewChild("metadata", false, newMetadataNode(r))
 }
 
@@ -89,6 +90,7 @@ type rescueNode struct {
 	ix       *index.Index
 	owner    uint64
 	ixInode  uint64
+	typ      uint32     // File type, used if there is no inode item
 	mutex    sync.Mutex // Guards the caches below
 	attr     *fuse.Attr // Cached attributes
 	dirItems map[string]btrfs.DirItem
@@ -118,7 +120,7 @@ func (n *rescueNode) GetAttr(fi *fuse.Attr, file nodefs.File,
 	if n.attr == nil {
 		ii := n.ix.FindInodeItem(n.owner, n.ixInode)
 		if ii == nil {
-			return fuse.ENOATTR
+			return n.fallbackAttr(fi)
 		}
 		n.attr = &fuse.Attr{
 			Ino:       n.ixInode,
@@ -139,6 +141,26 @@ func (n *rescueNode) GetAttr(fi *fuse.Attr, file nodefs.File,
 	return fuse.OK
 }
 
+// fallbackAttr returns attributes if the inode item is not found in metadata
+func (n *rescueNode) fallbackAttr(fi *fuse.Attr) fuse.Status {
+	*fi = fuse.Attr{Ino: n.ixInode, Mode: n.typ, Nlink: 1}
+	switch n.typ {
+	case 0:
+		return fuse.ENOATTR
+	case fuse.S_IFDIR:
+		fi.Mode |= 0755
+	case fuse.S_IFLNK:
+		target, _ := n.Readlink(nil)
+		fi.Mode, fi.Size = fi.Mode|0777, uint64(len(target))
+	case fuse.S_IFREG:
+		fi.Mode |= 0644
+		if f := newExtentFile(n.fs, n.owner, n.ixInode); f != nil {
+			return f.GetAttr(fi)
+		}
+	}
+	return fuse.OK
+}
+
 // entries returns the directory entries by name. These do not change.
 func (n *rescueNode) entries() map[string]btrfs.DirItem {
 	n.mutex.Lock()
@@ -172,6 +194,7 @@ func (n *rescueNode) Lookup(out *fuse.Attr, name string,
 		inode = btrfs.FirstFreeObjectID
 	}
 	node := newRescueNode(n.fs, owner, inode)
+	node.typ = direntMode(d.Type())
 	ch := n.Inode().NewChild(name, d.IsDir(), node)
 	return ch, node.GetAttr(out, nil, context)
 }
-- 
2.43.0


From 60e258da3ba1992d105422815d47e9af8139a01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:48 +0000
Subject: [PATCH 21/27] fix: incomplete metadata files and failing remaps
 crashed

---
 pkg/btrfs/index/index_store.go | 43 +++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 2635fc9..4bf1c67 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -12,6 +12,7 @@ import (
 	"errors"
 	"hash/crc32"
 	"os"
+	"runtime/debug"
 	"sort"
 	"strings"
 	"sync"
@@ -58,6 +59,9 @@ type Index struct {
 
 	stripeMap     []stripeMapEntry
 	stripeMapOnce sync.Once
+
+	// Set if bbolt panicked. It may still hold its locks then.
+	broken bool
 }
 
 // Options sets options for opening a metadata index.
@@ -113,22 +117,45 @@ func openIndex(path string, m os.FileMode, o *Options) (*Index, error) {
 		o = &Options{ReadOnly: true, Generation: ^uint64(0)}
 	}
 	ix := &Index{Generation: o.Generation}
-	var err error
-	if ix.db, err = bbolt.Open(path, m, &bbolt.Options{
-		ReadOnly: o.ReadOnly}); err != nil {
+	err := ix.guard(func() (err error) {
+		ix.db, err = bbolt.Open(path, m, &bbolt.Options{
+			ReadOnly: o.ReadOnly})
+		return err
+	})
+	if err != nil {
 		return nil, err
 	}
-	if err = ix.checkUpdateMetadata(o); err != nil {
-		ix.db.Close()
+	if err = ix.guard(func() error { return ix.checkUpdateMetadata(o) }); err != nil {
+		ix.closeDB()
 		return nil, err
 	}
 	if err = ix.ensureTx(!o.ReadOnly); err != nil {
-		ix.db.Close()
+		ix.closeDB()
 		return nil, err
 	}
 	return ix, nil
 }
 
+// guard calls fn and turns panics into errors. bbolt panics if the file was
+// not completely written and if it cannot be mapped into memory again. Reading
+// mapped pages that the file does not have is a fault.
+func (ix *Index) guard(fn func() error) (err error) {
+	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
+	defer func() {
+		if r := recover(); r != nil {
+			ix.broken = true
+			err = fmt.Errorf("damaged or inaccessible metadata: %v", r)
+		}
+	}()
+	return fn()
+}
+
+func (ix *Index) closeDB() {
+	if !ix.broken {
+		ix.db.Close()
+	}
+}
+
 func (ix *Index) checkUpdateMetadata(o *Options) error {
 	fn := ix.db.Update
 	if o.ReadOnly {
@@ -196,7 +223,7 @@ func (ix *Index) Close() {
 	} else {
 		ix.tx.Rollback()
 	}
-	ix.db.Close()
+	ix.closeDB()
 }
 
 func (ix *Index) ensureTx(writable bool) error {
@@ -260,7 +287,7 @@ func (ix *Index) Commit() error {
 	if ix.tx == nil {
 		return nil
 	}
-	err := ix.tx.Commit()
+	err := ix.guard(ix.tx.Commit)
 	ix.tx = nil
 	ix.txNum = 0
 	ix.bucket = nil
-- 
2.43.0


From 6fd75c4083aa20d16edd3e7ff93da3a192d707d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:35 +0000
Subject: [PATCH 22/27] fix: an item could replace the index metadata

A leaf with the right (invalid) owner, key and generation overwrote the
record that binds the index to a file system, so the index could no
longer be opened.
---
 pkg/btrfs/index/index_store.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 4bf1c67..7c959be 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -261,12 +261,15 @@ func (ix *Index) InsertItem(k btrfs.Key, h btrfs.Header, item,
 	if err := ix.ensureTx(true); err != nil {
 		return err
 	}
+	ik := newIndexKey(h.Owner(), k, h.Generation())
+	if bytes.Equal(ik, metadataKey) {
+		return nil // Not a valid item, must not replace the index metadata
+	}
 	l := btrfs.ItemLen + len(data)
 	tc := make([]byte, l)
 	copy(tc, item)
 	copy(tc[btrfs.ItemLen:], data)
-	if err := ix.bucket.Put(newIndexKey(h.Owner(), k, h.Generation()),
-		tc); err != nil {
+	if err := ix.bucket.Put(ik, tc); err != nil {
 		return err
 	}
 	ix.txNum++
-- 
2.43.0


From 503b5d8ef1f50260f9a95f80f01a2dc91ac8e32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:02 +0000
Subject: [PATCH 23/27] fix: full range ended at the index metadata

Items with (invalid) keys that sort after the record that binds the
index to a file system were not part of the full range.
---
 pkg/btrfs/index/index_store.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 7c959be..5f28696 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -410,14 +410,15 @@ type FullRange struct {
 	Range
 }
 
-// HasNext returns whether there are more items. The metadata, which always
-// comes last, is not an item.
-func (r *FullRange) HasNext() bool {
-	return r.key != nil && !bytes.Equal(r.key, metadataKey)
-}
+// HasNext returns whether there are more items.
+func (r *FullRange) HasNext() bool { return r.key != nil }
 
 func (r *FullRange) Next() []byte {
-	if r.key, r.value = r.cursor.Next(); r.HasNext() {
+	if r.key, r.value = r.cursor.Next(); bytes.Equal(r.key, metadataKey) {
+		// Not an item. Only keys that are invalid in a filesystem come after.
+		r.key, r.value = r.cursor.Next()
+	}
+	if r.key != nil {
 		return r.value.Data()
 	}
 	return nil
@@ -431,7 +432,11 @@ func (ix *Index) FullRange() (FullRange, []byte) {
 		cursor: ix.reader().Cursor(),
 		end:    metadataKey,
 	}}
-	if r.key, r.value = r.cursor.First(); r.HasNext() {
+	if r.key, r.value = r.cursor.First(); bytes.Equal(r.key, metadataKey) {
+		data := r.Next()
+		return r, data
+	}
+	if r.key != nil {
 		return r, r.value.Data()
 	}
 	return r, nil
-- 
2.43.0


From ea3823a1d29270f98bbccc72a8a1c1214f1598bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 24/27] fix: a directory entry that cannot be restored hid its
 directory

---
 cmd/recover.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index 1e16e54..259aec5 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -103,13 +103,13 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 	if visited[key] {
 		return nil
 	}
-	visited[key] = true
 
 	if currentDest != options.destDir {
 		if err := makeDir(currentDest, options); err != nil {
-			return err
+			return err // May still be reachable from another entry
 		}
 	}
+	visited[key] = true
 
 	for _, di := range ix.DirEntries(owner, dirID) {
 		name := di.Name()
-- 
2.43.0


From 64a3b2c8013998e4e8807ed3491f67a896a77985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:11 +0000
Subject: [PATCH 25/27] fix: print the heading of the owner with the highest
 number in dump-index

---
 cmd/dump_index.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/dump_index.go b/cmd/dump_index.go
index 34deb00..a44fd03 100644
--- a/cmd/dump_index.go
+++ b/cmd/dump_index.go
@@ -36,11 +36,11 @@ func doDumpIndex(metadata string) {
 	cliutil.ReportError(err)
 	defer ix.Close()
 
-	last := ^uint64(0)
+	first, last := true, uint64(0)
 	for r, v := ix.FullRange(); r.HasNext(); v = r.Next() {
-		if o := r.Owner(); o != last {
+		if o := r.Owner(); first || o != last {
 			fmt.Printf("owner %d\n", o)
-			last = o
+			first, last = false, o
 		}
 		k := r.Key()
 		fmt.Printf("%s @ %d\n", k, r.Generation())
-- 
2.43.0


From 6f5ade0acbd933418864409a69f259cf3989e8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:11 +0000
Subject: [PATCH 26/27] fix: report errors of writing standard output

---
 cmd/dump_index.go             | 8 ++++++--
 cmd/ls.go                     | 7 +++++--
 internal/identify/identify.go | 5 ++++-
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/cmd/dump_index.go b/cmd/dump_index.go
index a44fd03..4d308bb 100644
--- a/cmd/dump_index.go
+++ b/cmd/dump_index.go
@@ -6,7 +6,9 @@
 package cmd
 
 import (
+	"bufio"
 	"fmt"
+	"os"
 
 	"blichmann.eu/code/btrfscue/cmd/btrfscue/app"
 	cliutil "blichmann.eu/code/btrfscue/cmd/btrfscue/app/util"
@@ -36,14 +38,16 @@ func doDumpIndex(metadata string) {
 	cliutil.ReportError(err)
 	defer ix.Close()
 
+	w := bufio.NewWriter(os.Stdout)
 	first, last := true, uint64(0)
 	for r, v := ix.FullRange(); r.HasNext(); v = r.Next() {
 		if o := r.Owner(); first || o != last {
-			fmt.Printf("owner %d\n", o)
+			fmt.Fprintf(w, "owner %d\n", o)
 			first, last = false, o
 		}
 		k := r.Key()
-		fmt.Printf("%s @ %d\n", k, r.Generation())
+		fmt.Fprintf(w, "%s @ %d\n", k, r.Generation())
 		_ = v
 	}
+	cliutil.ReportError(w.Flush())
 }
diff --git a/cmd/ls.go b/cmd/ls.go
index af5368d..f7237bf 100644
--- a/cmd/ls.go
+++ b/cmd/ls.go
@@ -6,6 +6,7 @@
 package cmd
 
 import (
+	"bufio"
 	"fmt"
 	"io"
 	"os"
@@ -169,7 +170,8 @@ func doListFiles(args []string, metadata string, options listFilesOptions) {
 	owner := uint64(btrfs.FSTreeObjectID)
 	dirID := uint64(btrfs.FirstFreeObjectID)
 
-	w := tabwriter.NewWriter(os.Stdout, 1, 4, 1, ' ', 0)
+	out := bufio.NewWriter(os.Stdout)
+	w := tabwriter.NewWriter(out, 1, 4, 1, ' ', 0)
 	var todo []dirKey
 	for _, p := range args {
 		p = path.Clean(p)
@@ -191,10 +193,11 @@ func doListFiles(args []string, metadata string, options listFilesOptions) {
 	}
 	w.Flush()
 
-	w = tabwriter.NewWriter(os.Stdout, 1, 4, 1, ' ', 0)
+	w = tabwriter.NewWriter(out, 1, 4, 1, ' ', 0)
 	for _, t := range todo {
 		listDirectory(w, ix, t, options.Recursive, options.Inode,
 			make(map[dirKey]bool))
 	}
 	w.Flush()
+	cliutil.ReportError(out.Flush())
 }
diff --git a/internal/identify/identify.go b/internal/identify/identify.go
index b5031a3..0808a26 100644
--- a/internal/identify/identify.go
+++ b/internal/identify/identify.go
@@ -6,6 +6,7 @@
 package identify
 
 import (
+	"bufio"
 	"fmt"
 	"math/rand"
 	"os"
@@ -126,7 +127,8 @@ func IdentifyFS(filename string, options IdentifyFSOptions) {
 	} else {
 		c = ' '
 	}
-	w := tabwriter.NewWriter(os.Stdout, 1, 4, 1, c, 0)
+	out := bufio.NewWriter(os.Stdout)
+	w := tabwriter.NewWriter(out, 1, 4, 1, c, 0)
 	if !app.Global.Machine {
 		fmt.Fprintln(w, "fsid\tcount\tentropy\tblock size")
 	}
@@ -135,4 +137,5 @@ func IdentifyFS(filename string, options IdentifyFSOptions) {
 			entry.Entropy, entry.BlockSize)
 	}
 	w.Flush()
+	cliutil.ReportError(out.Flush())
 }
-- 
2.43.0


From b0c865cff9ff1b537b5cdee876f8c1fef907d6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:12 +0000
Subject: [PATCH 27/27] fix: end mount when the file system is unmounted by
 others

The process kept running, with the metadata locked, until it got a signal,
and then failed to unmount.
---
 cmd/mount.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmd/mount.go b/cmd/mount.go
index 0654c6a..4618436 100644
--- a/cmd/mount.go
+++ b/cmd/mount.go
@@ -63,10 +63,15 @@ func doMountRescueFS(args []string, metadata string) {
 	fs := rescuefs.New(app.Global.Metadata, ix, dev)
 	cliutil.ReportError(fs.Mount(mountPoint))
 	cliutil.Verbosef("mounted rescue FS on %s\n", mountPoint)
-	go fs.Serve()
+	go func() {
+		fs.Serve()
+		ch <- nil // Unmounted by others
+	}()
 
 	// Break and unmount on CTRL+C or TERM signal
-	<-ch
+	if <-ch == nil {
+		return
+	}
 	cliutil.Warnf("got signal, unmounting...\n")
 	cliutil.ReportError(fs.Unmount())
 }
-- 
2.43.0

