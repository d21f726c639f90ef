From e257bf2df6dc29f55869f2dcb4c8ff4807b1bf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:41 +0000
Subject: [PATCH 01/50] fix: refuse a journal record with an unknown tag
 instead of panicking

---
 storage/journal/record.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/storage/journal/record.go b/storage/journal/record.go
index b5f3dbd..320f6d2 100644
--- a/storage/journal/record.go
+++ b/storage/journal/record.go
@@ -319,7 +319,7 @@ func ReadRecordFrom(reader io.Reader) (JournalRecord, error) {
 		}
 		record = DeleteRange{Start: start, End: end}
 	default:
-		panic("read tag error")
+		return nil, errors.Wrapf(internalerror.StorageCorrupted, "unknown record tag: %d", tag)
 	}
 
 	if checksum != record.CheckSum() {
-- 
2.43.0


From 68b1cd388ef2a32ca32fd3f6b032ec24a4693e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:01 +0000
Subject: [PATCH 02/50] fix: LumpId.Compare gave the wrong sign for ids 2^63 or
 more apart

---
 lump/lump.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lump/lump.go b/lump/lump.go
index 262b649..f4ade96 100644
--- a/lump/lump.go
+++ b/lump/lump.go
@@ -66,7 +66,12 @@ func (id LumpId) Write(w io.Writer) (int, error) {
 }
 
 func (left LumpId) Compare(right LumpId) int {
-	return int(left.lo - right.lo)
+	if left.lo < right.lo {
+		return -1
+	} else if left.lo > right.lo {
+		return 1
+	}
+	return 0
 }
 
 func EmptyLump() LumpId {
-- 
2.43.0


From a364eaad53e4179f933d3d40f079caec20f13e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:01 +0000
Subject: [PATCH 03/50] fix: FreePortion.CheckedExtend wrapped around for very
 large extensions

---
 portion/portion.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portion/portion.go b/portion/portion.go
index 34495c8..94d4a11 100644
--- a/portion/portion.go
+++ b/portion/portion.go
@@ -48,7 +48,7 @@ func (p FreePortion) Len() uint32 {
 
 func (p FreePortion) CheckedExtend(size uint32) (FreePortion, bool) {
 	//bigger than 24bit
-	if p.Len()+size > 0xFFFFFF {
+	if uint64(p.Len())+uint64(size) > 0xFFFFFF {
 		return FreePortion(0), false
 	}
 	return NewFreePortion(p.Start(), p.Len()+size), true
-- 
2.43.0


From 9cb4956d7f01a9be2aed851be79ab2871346d9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:39 +0000
Subject: [PATCH 04/50] fix: align buffers to block sizes that are not a power
 of two

---
 block/aligned_bytes.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/block/aligned_bytes.go b/block/aligned_bytes.go
index d6d3ccc..7ad80ae 100644
--- a/block/aligned_bytes.go
+++ b/block/aligned_bytes.go
@@ -16,8 +16,8 @@ type AlignedBytes struct {
 
 //https://github.com/ncw/directio/blob/master/direct_io.go
 func alignment(block []byte, AlignSize uint16) int {
-	//address % 512
-	return int(uintptr(unsafe.Pointer(&block[0])) & uintptr(AlignSize-1))
+	//address % 512, any multiple of 512 is a valid block size
+	return int(uintptr(unsafe.Pointer(&block[0])) % uintptr(AlignSize))
 }
 
 func createNewAlignedBuf(size int, blockSize BlockSize) (uint16, []byte) {
-- 
2.43.0


From 1015635ea78a0b1320b66d68af23ad68caa725d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:39 +0000
Subject: [PATCH 05/50] fix: FromBytes lost the leading bytes of an unaligned
 source and crashed on an empty one

---
 block/aligned_bytes.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/block/aligned_bytes.go b/block/aligned_bytes.go
index 7ad80ae..75e0f77 100644
--- a/block/aligned_bytes.go
+++ b/block/aligned_bytes.go
@@ -61,11 +61,15 @@ func FromBytes(src []byte, blockSize BlockSize) *AlignedBytes {
 
 //for debug
 func fromBytes(src []byte, blockSize BlockSize) (*AlignedBytes, bool) {
+	if len(src) == 0 {
+		//nothing to hold, and no first byte to take the address of
+		return NewAlignedBytes(0, blockSize), true
+	}
 	a := alignment(src, blockSize.AsU16())
 	capacity := blockSize.CeilAlign(uint64(len(src)))
 	if a != 0 || capacity > uint64(cap(src)) {
 		newAlignedBytes := NewAlignedBytes(len(src), blockSize)
-		copy(newAlignedBytes.buf, src)
+		copy(newAlignedBytes.AsBytes(), src)
 		return newAlignedBytes, true
 	}
 	return &AlignedBytes{
-- 
2.43.0


From b5fb622cf3bc7e1e19b675a7d3fb80d191614c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:56 +0000
Subject: [PATCH 06/50] fix: a read at the end of the journal says so instead
 of returning nothing

---
 storage/journal/nvm_buffer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/storage/journal/nvm_buffer.go b/storage/journal/nvm_buffer.go
index 3b49aa3..0de4c7c 100644
--- a/storage/journal/nvm_buffer.go
+++ b/storage/journal/nvm_buffer.go
@@ -95,6 +95,9 @@ func (jb *JournalNvmBuffer) Read(buf []byte) (n int, err error) {
 
 	start := jb.position - readBufStart
 	end := util.Min(uint64(innerReadSize), start+uint64(len(buf)))
+	if len(buf) > 0 && end <= start {
+		return 0, io.EOF
+	}
 	readSize := end - start
 
 	//fmt.Printf("inner read size: %d,buf len %d, readSize %d, start: %d, end :%d\n", innerReadSize, len(buf), readSize, start, end)
-- 
2.43.0


From 0747f1b21a4b542fdde1c8549bcb859f6a28d14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:14 +0000
Subject: [PATCH 07/50] fix: a write behind the end of the journal write buffer
 lost its tail

---
 storage/journal/nvm_buffer.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/storage/journal/nvm_buffer.go b/storage/journal/nvm_buffer.go
index 0de4c7c..195ddd8 100644
--- a/storage/journal/nvm_buffer.go
+++ b/storage/journal/nvm_buffer.go
@@ -124,11 +124,14 @@ func (jb *JournalNvmBuffer) Write(buf []byte) (n int, err error) {
 		end := uint32(start) + uint32(len(buf))
 
 		oldLen := uint64(jb.writeBuf.Len())
-		jb.writeBuf.AlignResize(end)
-
-		if uint64(jb.writeBuf.Len()) - oldLen >= uint64(jb.nvm.BlockSize().AsU16()) {
-			jb.nvm.Seek(int64(jb.writeBufOffset+oldLen), io.SeekStart)
-			jb.nvm.Read(jb.writeBuf.AsBytes()[oldLen:])
+		//never shrink: the bytes behind the write may not be flushed yet
+		if uint64(end) > oldLen {
+			jb.writeBuf.AlignResize(end)
+
+			if uint64(jb.writeBuf.Len())-oldLen >= uint64(jb.nvm.BlockSize().AsU16()) {
+				jb.nvm.Seek(int64(jb.writeBufOffset+oldLen), io.SeekStart)
+				jb.nvm.Read(jb.writeBuf.AsBytes()[oldLen:])
+			}
 		}
 
 		copy(jb.writeBuf.AsBytes()[start:end], buf)
-- 
2.43.0


From b8feec7333b6d833ae5a2f29b99ddfd4e26ca46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:46 +0000
Subject: [PATCH 08/50] fix: a journal record that did not fit behind the wrap
 lost the journal's tail

Enqueue wrote GoToFront and moved the tail to the front before it knew that the
record fits there, and before the record was there. A refused record left a
journal whose end nobody could find, and a crash between the two writes made
replay run into stale records.
---
 storage/journal/ring_buffer.go | 44 ++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/storage/journal/ring_buffer.go b/storage/journal/ring_buffer.go
index f5fcb1f..7991ec8 100644
--- a/storage/journal/ring_buffer.go
+++ b/storage/journal/ring_buffer.go
@@ -95,30 +95,25 @@ func (ring *JournalRingBuffer) Enqueue(record JournalRecord) (jportion portion.J
 		return
 	}
 
-	//2. check overflow
-	if ring.isOverFlow(record) {
-		if _, err = ring.nvm.Seek(int64(ring.tail), io.SeekStart); err != nil {
-			return
-		}
-		r := GoToFront{}
-		if err = r.WriteTo(ring.nvm); err != nil {
+	//2. check overflow, if so the record is written to the front
+	start := ring.tail
+	overflow := ring.isOverFlow(record)
+	if overflow {
+		if ring.checkFreeSpaceAtFront(record) == false {
+			err = internalerror.JournalStorageFull
 			return
 		}
-
-		//Jump to front
-		ring.tail = 0
-		return ring.Enqueue(record)
+		start = 0
 	}
 
 	//3. write data
-	preTail := ring.tail
-	if _, err = ring.nvm.Seek(int64(ring.tail), io.SeekStart); err != nil {
+	if _, err = ring.nvm.Seek(int64(start), io.SeekStart); err != nil {
 		return
 	}
 	if err = record.WriteTo(ring.nvm); err != nil {
 		return
 	}
-	ring.tail = ring.nvm.Position()
+	newTail := ring.nvm.Position()
 
 	//4. write End OF Record
 	endRecord := EndOfRecords{}
@@ -126,9 +121,22 @@ func (ring *JournalRingBuffer) Enqueue(record JournalRecord) (jportion portion.J
 		return
 	}
 
+	//5. jump to front. GoToFront replaces the EndOfRecords at the old tail only now,
+	//when it is on the device the front is already there
+	if overflow {
+		if _, err = ring.nvm.Seek(int64(ring.tail), io.SeekStart); err != nil {
+			return
+		}
+		r := GoToFront{}
+		if err = r.WriteTo(ring.nvm); err != nil {
+			return
+		}
+	}
+	ring.tail = newTail
+
 	switch r := record.(type) {
 	case EmbedRecord:
-		jportion = portion.NewJournalPortion(preTail+EMBEDDED_DATA_OFFSET, uint16(len(r.Data)))
+		jportion = portion.NewJournalPortion(start+EMBEDDED_DATA_OFFSET, uint16(len(r.Data)))
 	}
 
 	ring.DoStoreUsage()
@@ -157,6 +165,12 @@ func (ring *JournalRingBuffer) checkFreeSpace(record JournalRecord) bool {
 	return true
 }
 
+//the record does not fit behind the tail, is the free space at the front big enough?
+func (ring *JournalRingBuffer) checkFreeSpaceAtFront(record JournalRecord) bool {
+	writeEnd := uint64(record.ExternalSize()) + END_OF_RECORDS_SIZE
+	return ring.nvm.BlockSize().CeilAlign(writeEnd) <= ring.unreleasedHead
+}
+
 func (ring *JournalRingBuffer) isOverFlow(record JournalRecord) bool {
 	writeEnd := ring.tail + uint64(record.ExternalSize()) + END_OF_RECORDS_SIZE
 	return writeEnd > ring.nvm.Capacity()
-- 
2.43.0


From e3f3d4b03374ae43cdbdc00d0a25ed0e80d87717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 09/50] fix: a range delete lost against the journal GC it
 triggers

DeleteRange was recorded while the lumps were still in the index, so the GC run
by the append could write a live lump of the range behind the DeleteRange record,
and the lump was back after reopening.
---
 storage/storage.go | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index bac392b..5b11f8b 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -707,25 +707,44 @@ func (store *Storage) DeleteRange(start lump.LumpId, end lump.LumpId, hasDataPor
 	if !store.opened {
 		return internalerror.StorageClosed
 	}
+	//the lumps leave the index before the record is written. Appending the record runs
+	//the journal GC, which would write lumps still in the index behind the DeleteRange
+	var ids []lump.LumpId
+	var portions []portion.Portion
+	store.index.RangeIter(start, end, func(id lump.LumpId, p portion.Portion) error {
+		ids = append(ids, id)
+		portions = append(portions, p)
+		return nil
+	})
+	for _, id := range ids {
+		store.index.Delete(id)
+	}
 	store.jr.Lock()
 	err := store.journalRegion.RecordDeleteRange(store.index, start, end)
 	store.jr.Unlock()
 	if err != nil {
+		//nothing is deleted
+		for i, id := range ids {
+			store.insertPortion(id, portions[i])
+		}
 		return err
 	}
-	return store.index.RangeIter(start, end, func(id lump.LumpId, p portion.Portion) error {
-		p, err := store.index.Get(id)
-		if err != nil {
-			return err
-		}
-		store.index.Delete(id)
+	for _, p := range portions {
 		switch v := p.(type) {
 		case portion.DataPortion:
 			store.dataRegion.Release(v)
 		}
-		return nil
+	}
+	return nil
+}
 
-	})
+func (store *Storage) insertPortion(lumpid lump.LumpId, p portion.Portion) {
+	switch v := p.(type) {
+	case portion.DataPortion:
+		store.index.InsertDataPortion(lumpid, v)
+	case portion.JournalPortion:
+		store.index.InsertJournalPortion(lumpid, v)
+	}
 }
 
 //added API for raft log and raft apply
-- 
2.43.0


From 452f17244f6134e97f6388fe0cf9635242e5e5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:26 +0000
Subject: [PATCH 10/50] fix: a live journal entry was lost when the GC could
 not append it again

gcOnce ignored the error of append, and the head moved past the entry, so the next
reopening did not find the lump. The entry now stays in the GC queue.
---
 storage/journal/region.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/storage/journal/region.go b/storage/journal/region.go
index 3707049..f8de071 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -198,7 +198,8 @@ func (Journal *JournalRegion) isGarbage(index *lumpindex.LumpIndex, entry Journa
 	}
 }
 
-func (journal *JournalRegion) gcOnce(index *lumpindex.LumpIndex) {
+//if the live entry in turn can not be appended again, it stays in the queue
+func (journal *JournalRegion) gcOnce(index *lumpindex.LumpIndex) (err error) {
 	if journal.gcQueue.Len() == 0 && journal.ring.Capacity() < journal.ring.Usage()*2 {
 		journal.fillGCQueue()
 	}
@@ -209,7 +210,9 @@ func (journal *JournalRegion) gcOnce(index *lumpindex.LumpIndex) {
 
 			if journal.isGarbage(index, entry) == false {
 				record := entry.Record
-				journal.append(index, record)
+				if err = journal.append(index, record); err != nil {
+					journal.gcQueue.PushFront(entry)
+				}
 				goto ENDFOR
 			}
 			//metric, if record is garbage, the recordCount should decrease
@@ -235,7 +238,7 @@ ENDFOR:
 			journal.ring.ReleaseBytesUntil(head)
 		}
 	*/
-
+	return err
 }
 
 func (journal *JournalRegion) writeUnusedJournalHeader(head uint64) {
@@ -353,10 +356,13 @@ func (journal *JournalRegion) GetEmbededData(embeded portion.JournalPortion) (bu
 	return
 }
 
-func (journal *JournalRegion) gcAllEntriesInQueue(index *lumpindex.LumpIndex) {
+func (journal *JournalRegion) gcAllEntriesInQueue(index *lumpindex.LumpIndex) error {
 	for journal.gcQueue.Len() != 0 {
-		journal.gcOnce(index)
+		if err := journal.gcOnce(index); err != nil {
+			return err
+		}
 	}
+	return nil
 }
 
 func (journal *JournalRegion) JournalEntries() (uint64, uint64, uint64, []JournalEntry) {
@@ -385,7 +391,10 @@ func (journal *JournalRegion) GcAllEntries(index *lumpindex.LumpIndex) {
 			journal.fillGCQueue()
 		}
 
-		journal.gcAllEntriesInQueue(index)
+		//the entries left in the queue are still needed, do not release them
+		if err := journal.gcAllEntriesInQueue(index); err != nil {
+			return
+		}
 
 		if between(before_head, tail, journal.ring.Head()) {
 			break
-- 
2.43.0


From 0042a003129f587753c50d83f0ab048758b992b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:15 +0000
Subject: [PATCH 11/50] fix: the number of lumps counted overwrites and deletes
 of absent ids

---
 lumpindex/lump_index.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/lumpindex/lump_index.go b/lumpindex/lump_index.go
index 716448c..edc406e 100644
--- a/lumpindex/lump_index.go
+++ b/lumpindex/lump_index.go
@@ -42,20 +42,28 @@ func (index *LumpIndex) Get(id lump.LumpId) (p portion.Portion, err error) {
 func (index *LumpIndex) InsertDataPortion(id lump.LumpId, data portion.DataPortion) {
 	var n uint64 = 0
 	n = data.Start.AsU64() | uint64(data.Len)<<40 | 1<<63
-	index.tree.Insert(id.U64(), n)
-	atomic.AddUint64(&index.counts, 1)
+	index.insert(id, n)
 }
 
 func (index *LumpIndex) InsertJournalPortion(id lump.LumpId, data portion.JournalPortion) {
 	var n uint64 = 0
 	n = data.Start.AsU64() | uint64(data.Len)<<40
-	index.tree.Insert(id.U64(), n)
-	atomic.AddUint64(&index.counts, 1)
+	index.insert(id, n)
+}
+
+func (index *LumpIndex) insert(id lump.LumpId, value uint64) {
+	if _, ok := index.tree.Get(id.U64()); ok == false {
+		atomic.AddUint64(&index.counts, 1)
+	}
+	index.tree.Insert(id.U64(), value)
 }
 
 func (index *LumpIndex) Delete(id lump.LumpId) bool {
-	atomic.AddUint64(&index.counts, ^uint64(0))
-	return index.tree.Delete(id.U64())
+	ok := index.tree.Delete(id.U64())
+	if ok {
+		atomic.AddUint64(&index.counts, ^uint64(0))
+	}
+	return ok
 }
 
 func (index *LumpIndex) DeleteRange(start lump.LumpId, end lump.LumpId) {
-- 
2.43.0


From 81e964787fbbbaf87aea557094811de3e32f6dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:15 +0000
Subject: [PATCH 12/50] fix: the largest storable lump of a full store is
 nothing, not everything

---
 storage/storage.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/storage/storage.go b/storage/storage.go
index 5b11f8b..0447a2f 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -263,13 +263,17 @@ func (store *Storage) GetSnapshotReader() (*nvm.SnapshotReader, error) {
 
 func (store *Storage) Usage() StorageUsage {
 	blockSize := uint64(store.Header().BlockSize.AsU16())
+	var maxSegmentSize uint64
+	if blocks := store.alloc.MaxSegmentSize(); blocks > 0 {
+		maxSegmentSize = util.Min(lump.LUMP_MAX_SIZE, blocks*blockSize-LUMP_DATA_TRAILER_SIZE)
+	}
 	return StorageUsage{
 		JournalCapacity:   store.Header().JournalRegionSize,
 		DataCapacity:      store.Header().DataRegionSize,
 		FileCounts:        store.index.Count(),
 		DataFreeBytes:     store.alloc.FreeCount() * blockSize,
 		JournalUsageBytes: store.journalRegion.Usage(),
-		MaxSegmentSize:    util.Min(lump.LUMP_MAX_SIZE, store.alloc.MaxSegmentSize()*blockSize-2),
+		MaxSegmentSize:    maxSegmentSize,
 		//	CurrentFileSize: uint64(store.innerNVM.RawSize()),
 	}
 }
-- 
2.43.0


From 577a4c4261e945c0be77e83d663d5dceecf8111b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 13/50] fix: a refused put lost the value stored before

---
 storage/data_region.go    |  9 +++-
 storage/journal/region.go |  5 ++-
 storage/storage.go        | 86 +++++++++++++++++++++++++++++----------
 3 files changed, 75 insertions(+), 25 deletions(-)

diff --git a/storage/data_region.go b/storage/data_region.go
index be6f10d..0617f56 100644
--- a/storage/data_region.go
+++ b/storage/data_region.go
@@ -82,6 +82,11 @@ func (region *DataRegion) Put(data lump.LumpData) (portion.DataPortion, error) {
 		return portion.DataPortion{}, err
 	}
 
+	return data_portion, region.write(data, data_portion)
+}
+
+//write data as left behind by Put
+func (region *DataRegion) write(data lump.LumpData, data_portion portion.DataPortion) error {
 	offset, len := data_portion.ShiftBlockToBytes(region.block_size)
 	if len != data.Inner.Len() {
 		panic(fmt.Sprintf("should be the same in data_region put userdata:%d , diskdata:%d",
@@ -96,12 +101,12 @@ func (region *DataRegion) Put(data lump.LumpData) (portion.DataPortion, error) {
 			return data_portion, err
 		}
 	*/
-	_, err = region.nvm.WriteAt(data.Inner.AsBytes(), int64(offset))
+	_, err := region.nvm.WriteAt(data.Inner.AsBytes(), int64(offset))
 
 	ostats.Record(context.Background(), x.DataRegionMetric.WriteBytes.M(int64(data.Inner.Len())))
 	ostats.Record(context.Background(), x.DataRegionMetric.Writes.M(1))
 
-	return data_portion, err
+	return err
 }
 
 //thread-safe
diff --git a/storage/journal/region.go b/storage/journal/region.go
index f8de071..eeefe91 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -132,9 +132,11 @@ func (journal *JournalRegion) append(index *lumpindex.LumpIndex, record JournalR
 	if embeded, err = journal.ring.Enqueue(record); err != nil {
 		return err
 	}
-	//if record is an embeded entry, we should update the index as well
+	//if record is a put or an embeded entry, we should update the index as well
 	//because journal GC start after append, to prevent to be GCed
 	switch v := record.(type) {
+	case PutRecord:
+		index.InsertDataPortion(v.LumpID, v.DataPortion)
 	case EmbedRecord:
 		index.InsertJournalPortion(v.LumpID, embeded)
 	}
@@ -300,6 +302,7 @@ func (journal *JournalRegion) trySync() {
 }
 
 //Write Journal, Update Index
+//WARNING: this will update the INDEX
 func (journal *JournalRegion) RecordPut(index *lumpindex.LumpIndex, id lump.LumpId, data portion.DataPortion) error {
 	record := PutRecord{
 		LumpID:      id,
diff --git a/storage/storage.go b/storage/storage.go
index 0447a2f..bb5de04 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -473,40 +473,77 @@ func (store *Storage) GetWithOffset(lumpId lump.LumpId, startOffset uint32, leng
 
 }
 
-func (store *Storage) put(lumpid lump.LumpId, lumpdata lump.LumpData) (err error) {
+//the value stored before, if any, stays in place until the new one is recorded
+func (store *Storage) put(lumpid lump.LumpId, lumpdata lump.LumpData) (updated bool, err error) {
 	dataPortion, err := store.dataRegion.Put(lumpdata)
-	if err != nil {
+	full := err != nil && errors.Cause(err) == internalerror.StorageFull
+	if err != nil && !full {
 		return
 	}
 
 	store.i.Lock()
 	defer store.i.Unlock()
+	if !store.opened {
+		return false, internalerror.StorageClosed
+	}
+
+	old, notFound := store.index.Get(lumpid)
+
+	if full {
+		//no room beside the value stored before, but the new one may fit in its place
+		inPlace, ok := old.(portion.DataPortion)
+		blocks := store.dataRegion.shiftBlockSize(lumpdata.Inner.Len())
+		if notFound != nil || !ok || blocks > uint32(inPlace.Len) {
+			return
+		}
+		dataPortion = portion.NewDataPortion(inPlace.Start.AsU64(), uint16(blocks))
+		old = portion.NewDataPortion(inPlace.Start.AsU64()+uint64(blocks), inPlace.Len-uint16(blocks))
+	}
 
+	//this updates the index as well
 	store.jr.Lock()
 	err = store.journalRegion.RecordPut(store.index, lumpid, dataPortion)
 	store.jr.Unlock()
 
 	if err != nil {
 		// revert the dataPortion
-		store.dataRegion.Release(dataPortion)
+		if !full {
+			store.dataRegion.Release(dataPortion)
+		}
 		return
 	}
 
-	store.index.InsertDataPortion(lumpid, dataPortion)
-
 	if int64(lumpdata.Inner.Len()) == 1 {
 
 		panic("FUCK")
 	}
-	return
+	if notFound == nil {
+		store.release(old)
+	}
+	if full {
+		err = store.dataRegion.write(lumpdata, dataPortion)
+	}
+	return notFound == nil, err
+}
+
+//release the blocks of a lump which is no longer in the index
+func (store *Storage) release(p portion.Portion) {
+	switch v := p.(type) {
+	case portion.DataPortion:
+		if v.Len > 0 {
+			store.dataRegion.Release(v)
+		}
+	}
 }
 
 func (store *Storage) Put(lumpid lump.LumpId, lumpdata lump.LumpData) (updated bool, err error) {
-	err = nil
-	if updated, _, err = store.deleteIfExist(lumpid, false); err != nil {
-		return updated, err
+	store.i.RLock()
+	opened := store.opened
+	store.i.RUnlock()
+	if !opened {
+		return false, internalerror.StorageClosed
 	}
-	return updated, store.put(lumpid, lumpdata)
+	return store.put(lumpid, lumpdata)
 }
 
 // padding payload with necessary zeros before and after, return:
@@ -546,7 +583,8 @@ func (store *Storage) PutWithOffset(lumpid lump.LumpId, lumpdata lump.LumpData,
 		toWrite := paddingWithZero(payload, startOffset, reservation)
 		data := block.FromBytes(toWrite, block.Min())
 		lumpdata = lump.NewLumpDataWithAb(data)
-		return store.put(lumpid, lumpdata)
+		_, err = store.put(lumpid, lumpdata)
+		return err
 	}
 
 	// update exist object; `reservation` is ignored in this case
@@ -563,16 +601,24 @@ func (store *Storage) PutWithOffset(lumpid lump.LumpId, lumpdata lump.LumpData,
 }
 
 func (store *Storage) PutEmbed(lumpid lump.LumpId, data []byte) (updated bool, err error) {
-	if updated, _, err = store.deleteIfExist(lumpid, false); err != nil {
-		return
-	}
-
 	store.i.Lock()
 	defer store.i.Unlock()
+	if !store.opened {
+		return false, internalerror.StorageClosed
+	}
+
+	old, notFound := store.index.Get(lumpid)
+
 	store.jr.Lock()
 	defer store.jr.Unlock()
-	err = store.journalRegion.RecordEmbed(store.index, lumpid, data)
-	return
+	if err = store.journalRegion.RecordEmbed(store.index, lumpid, data); err != nil {
+		return
+	}
+	if notFound != nil {
+		return false, nil
+	}
+	store.release(old)
+	return true, nil
 }
 
 func (store *Storage) Delete(lumpid lump.LumpId) (updated bool, size uint32, err error) {
@@ -818,9 +864,5 @@ func (store *Storage) WriteRecord(lumpid lump.LumpId, dataPortion portion.DataPo
 	if store.opened == false {
 		return internalerror.StorageClosed
 	}
-	if err := store.journalRegion.RecordPut(store.index, lumpid, dataPortion); err != nil {
-		return err
-	}
-	store.index.InsertDataPortion(lumpid, dataPortion)
-	return nil
+	return store.journalRegion.RecordPut(store.index, lumpid, dataPortion)
 }
-- 
2.43.0


From 095bfa36a3dc1bdea2b2f8553a6c9cd4c9a8585c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:56 +0000
Subject: [PATCH 14/50] fix: a delete that could not be recorded was not
 refused

---
 storage/storage.go | 36 +++++++++---------------------------
 1 file changed, 9 insertions(+), 27 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index bb5de04..fbb4872 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -622,12 +622,6 @@ func (store *Storage) PutEmbed(lumpid lump.LumpId, data []byte) (updated bool, e
 }
 
 func (store *Storage) Delete(lumpid lump.LumpId) (updated bool, size uint32, err error) {
-	updated, size, err = store.deleteIfExist(lumpid, true)
-	return
-}
-
-func (store *Storage) deleteIfExist(lumpid lump.LumpId, doRecord bool) (bool, uint32, error) {
-
 	store.i.Lock()
 	defer store.i.Unlock()
 	if !store.opened {
@@ -646,10 +640,13 @@ func (store *Storage) deleteIfExist(lumpid lump.LumpId, doRecord bool) (bool, ui
 		panic("Delete after Get failed, something bad happend")
 	}
 
-	if doRecord {
-		store.jr.Lock()
-		store.journalRegion.RecordDelete(store.index, lumpid)
-		store.jr.Unlock()
+	store.jr.Lock()
+	err = store.journalRegion.RecordDelete(store.index, lumpid)
+	store.jr.Unlock()
+	if err != nil {
+		//nothing is deleted
+		store.insertPortion(lumpid, p)
+		return false, 0, err
 	}
 
 	var releasedSize uint32
@@ -657,22 +654,10 @@ func (store *Storage) deleteIfExist(lumpid lump.LumpId, doRecord bool) (bool, ui
 	switch v := p.(type) {
 	case portion.DataPortion:
 		releasedSize = uint32(v.Len) * uint32(store.innerNVM.BlockSize().AsU16())
-		store.dataRegion.Release(v)
 	case portion.JournalPortion:
 		releasedSize = uint32(v.Len)
-
 	}
-
-	/*
-		switch v := p.(type) {
-		case portion.JournalPortion:
-			if doRecord {
-				return true, store.journalRegion.RecordDelete(store.index, lumpid)
-			}
-		case portion.DataPortion:
-			store.dataRegion.Release(v)
-		}
-	*/
+	store.release(p)
 	return true, releasedSize, nil
 }
 
@@ -780,10 +765,7 @@ func (store *Storage) DeleteRange(start lump.LumpId, end lump.LumpId, hasDataPor
 		return err
 	}
 	for _, p := range portions {
-		switch v := p.(type) {
-		case portion.DataPortion:
-			store.dataRegion.Release(v)
-		}
+		store.release(p)
 	}
 	return nil
 }
-- 
2.43.0


From 4e239fded8f6b785af8e47168530c9f586fe97ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:12 +0000
Subject: [PATCH 15/50] fix: a lump beyond the maximum size crashed the store
 instead of being refused

---
 storage/data_region.go | 4 ++++
 storage/storage.go     | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/storage/data_region.go b/storage/data_region.go
index 0617f56..6f2cb8a 100644
--- a/storage/data_region.go
+++ b/storage/data_region.go
@@ -59,6 +59,10 @@ func (region *DataRegion) shiftBlockSize(size uint32) uint32 {
 //thread-safe
 func (region *DataRegion) Put(data lump.LumpData) (portion.DataPortion, error) {
 
+	if data.Inner.Len() > lump.LUMP_MAX_SIZE {
+		return portion.DataPortion{}, errors.Wrap(internalerror.InvalidInput, "lump is too big")
+	}
+
 	size := data.Inner.Len() + LUMP_DATA_TRAILER_SIZE
 
 	//Aligned
diff --git a/storage/storage.go b/storage/storage.go
index fbb4872..13bad4d 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -580,6 +580,9 @@ func (store *Storage) PutWithOffset(lumpid lump.LumpId, lumpdata lump.LumpData,
 	if err != nil {
 		// Only one error possible, which is "object could not be found",
 		// meaning this is a new object. Padding necessary zeros and call `put`
+		if util.Max(uint64(reservation), uint64(startOffset)+uint64(len(payload))) > lump.LUMP_MAX_SIZE {
+			return errors.Wrap(internalerror.InvalidInput, "lump is too big")
+		}
 		toWrite := paddingWithZero(payload, startOffset, reservation)
 		data := block.FromBytes(toWrite, block.Min())
 		lumpdata = lump.NewLumpDataWithAb(data)
-- 
2.43.0


From 32843505aa94b7ebec333c75a237f2ee3eafe182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:29 +0000
Subject: [PATCH 16/50] fix: partial reads and updates across blocks missed
 blocks, overran the lump or crashed

---
 storage/data_region.go | 105 +++++++++++++++++++++++------------------
 1 file changed, 60 insertions(+), 45 deletions(-)

diff --git a/storage/data_region.go b/storage/data_region.go
index 6f2cb8a..174e977 100644
--- a/storage/data_region.go
+++ b/storage/data_region.go
@@ -136,42 +136,68 @@ func (region *DataRegion) readBlocks(readOffset int64, blockCount int) ([]byte,
 	return ab.AsBytes(), nil
 }
 
+//the blocks of a lump around the range [startOffset, startOffset+length):
+//where they are, what they hold, and the size of the lump. The size is exact if the
+//range may reach it, otherwise it is only known to be behind the range.
+//thread safe
+func (region *DataRegion) readRange(dataPortion portion.DataPortion,
+	startOffset uint32, length uint32) (readOffset int64, data []byte, size uint64, err error) {
+
+	offset, onDiskSize := dataPortion.ShiftBlockToBytes(region.block_size)
+	end := uint64(startOffset) + uint64(length)
+	if end > uint64(onDiskSize)-LUMP_DATA_TRAILER_SIZE {
+		err = errors.Wrap(internalerror.InvalidInput, "given length is too big")
+		return
+	}
+	readStart := region.block_size.FloorAlign(uint64(startOffset))
+	readEnd := region.block_size.CeilAlign(end)
+	//the padding is shorter than a block, so it and the trailer may begin in the block before the last
+	toTheLast := end+uint64(region.block_size.AsU16())+LUMP_DATA_TRAILER_SIZE > uint64(onDiskSize)
+	if toTheLast {
+		readEnd = uint64(onDiskSize)
+	}
+	readOffset = int64(offset + readStart)
+	size = uint64(onDiskSize)
+	if readStart == readEnd {
+		return
+	}
+	data, err = region.readBlocks(readOffset, int((readEnd-readStart)/uint64(region.block_size.AsU16())))
+	if err != nil || !toTheLast {
+		return
+	}
+	trailer := uint64(util.GetUINT16(data[len(data)-LUMP_DATA_TRAILER_SIZE:])) + LUMP_DATA_TRAILER_SIZE
+	if trailer > size {
+		err = errors.Wrap(internalerror.StorageCorrupted, "padding of the lump is too big")
+		return
+	}
+	size -= trailer
+	return
+}
+
 //thread safe
 func (region *DataRegion) Update(dataPortion portion.DataPortion,
 	startOffset uint32, payload []byte) error {
 
-	offsetToDisk, onDiskSize := dataPortion.ShiftBlockToBytes(region.block_size)
-	if startOffset+uint32(len(payload)) > onDiskSize-LUMP_DATA_TRAILER_SIZE {
+	if uint64(len(payload)) > lump.LUMP_MAX_SIZE {
 		return errors.Wrap(internalerror.InvalidInput,
 			"object reserved capacity exceeded")
 	}
-	readOffset := region.block_size.FloorAlign(offsetToDisk + uint64(startOffset))
-	data, err := region.readBlocks(int64(readOffset),
-		(len(payload)+int(region.block_size)-1)/int(region.block_size))
+	readOffset, data, size, err := region.readRange(dataPortion, startOffset, uint32(len(payload)))
 	if err != nil {
 		return err
 	}
+	if uint64(startOffset)+uint64(len(payload)) > size {
+		return errors.Wrap(internalerror.InvalidInput,
+			"object reserved capacity exceeded")
+	}
+	if len(payload) == 0 {
+		return nil
+	}
 	prefixPadding := startOffset % region.block_size.AsU32()
 	copy(data[prefixPadding:], payload)
-	if startOffset+uint32(len(payload)) > onDiskSize-region.block_size.AsU32() {
-		paddingSize := onDiskSize -
-			startOffset - uint32(len(payload)) - LUMP_DATA_TRAILER_SIZE
-		originalPaddingSize := util.GetUINT16(data[len(data)-2:])
-		if paddingSize < uint32(originalPaddingSize) {
-			return errors.Wrap(internalerror.InvalidInput,
-				"object reserved capacity exceeded")
-		}
-	}
 
-	/*
-		_, err = region.nvm.Seek(int64(readOffset), io.SeekStart)
-		if err != nil {
-			return err
-		}
-		// data is already aligned since it's returned from AlignedBytes
-		_, err = region.nvm.Write(data)
-	*/
-	region.nvm.WriteAt(data, int64(readOffset))
+	// data is already aligned since it's returned from AlignedBytes
+	_, err = region.nvm.WriteAt(data, readOffset)
 	ostats.Record(context.Background(), x.DataRegionMetric.WriteBytes.M(int64(len(data))))
 	ostats.Record(context.Background(), x.DataRegionMetric.Writes.M(1))
 	return err
@@ -250,35 +276,24 @@ func (region *DataRegion) Get(dataPortion portion.DataPortion) (lump.LumpData, e
 func (region *DataRegion) GetWithOffset(dataPortion portion.DataPortion,
 	startOffset uint32, length uint32) ([]byte, error) {
 
-	offset, onDiskSize := dataPortion.ShiftBlockToBytes(region.block_size)
-
-	if startOffset+length > onDiskSize-LUMP_DATA_TRAILER_SIZE {
-		return nil, errors.Wrap(internalerror.InvalidInput, "given length is too big")
-	}
-
-	newReadStart := region.block_size.FloorAlign(offset + uint64(startOffset))
-	prefixPadding := startOffset % region.block_size.AsU32()
-
-	data, err := region.readBlocks(int64(newReadStart),
-		(int(length)+int(region.block_size)-1)/int(region.block_size))
+	_, data, size, err := region.readRange(dataPortion, startOffset, length)
 	if err != nil {
 		return nil, err
 	}
-	//If length is small, and the read op doesn't reach the last block
-	if startOffset+length <= onDiskSize-region.block_size.AsU32() {
-		return data[prefixPadding : prefixPadding+length], nil
-	}
-
-	//In this case, if length is too big(reach to the last block), prevent to read the padding data
-
-	padding_size := uint32(util.GetUINT16(data[len(data)-2:]))
-	realFileSize := util.Min32(uint32(len(data))-padding_size-LUMP_DATA_TRAILER_SIZE, prefixPadding+length)
-	if prefixPadding > realFileSize {
+	if uint64(startOffset) > size {
 		return nil, errors.Wrap(internalerror.InvalidInput,
 			"startOffset > object length")
 	}
+	//prevent to read the padding data
+	if uint64(length) > size-uint64(startOffset) {
+		length = uint32(size - uint64(startOffset))
+	}
+	prefixPadding := startOffset % region.block_size.AsU32()
 
 	ostats.Record(context.Background(), x.DataRegionMetric.ReadBytes.M(int64(len(data))))
 	ostats.Record(context.Background(), x.DataRegionMetric.Reads.M(1))
-	return data[prefixPadding:realFileSize], nil
+	if length == 0 {
+		return []byte{}, nil
+	}
+	return data[prefixPadding : prefixPadding+length], nil
 }
-- 
2.43.0


From 0b20e7221825c59fef9c326b3d9d18762100f709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:29 +0000
Subject: [PATCH 17/50] fix: a partial read beyond the end of an embedded lump
 crashed

---
 storage/storage.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/storage/storage.go b/storage/storage.go
index 13bad4d..41d9e44 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -466,7 +466,10 @@ func (store *Storage) GetWithOffset(lumpId lump.LumpId, startOffset uint32, leng
 		if err != nil {
 			return nil, err
 		}
-		return data[startOffset : startOffset+length], nil
+		if uint64(startOffset) > uint64(len(data)) {
+			return nil, errors.Wrap(internalerror.InvalidInput, "startOffset > object length")
+		}
+		return data[startOffset:util.Min(uint64(startOffset)+uint64(length), uint64(len(data)))], nil
 	default:
 		panic("never here")
 	}
-- 
2.43.0


From 13ca821286f0bfdffd0a4a1e8bbb3ae9e77f7280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:09 +0000
Subject: [PATCH 18/50] fix: accesses outside a device view reached past it,
 and counts and positions were wrong

---
 nvm/file.go    | 57 +++++++++++++++++++++++++++++++-------------------
 nvm/memory.go  | 14 +++++++++----
 nvm/snapnvm.go |  5 ++++-
 3 files changed, 50 insertions(+), 26 deletions(-)

diff --git a/nvm/file.go b/nvm/file.go
index 5ab93f5..e0f9a3d 100644
--- a/nvm/file.go
+++ b/nvm/file.go
@@ -158,9 +158,12 @@ func (nvm *FileNVM) RawSize() int64 {
 }
 
 func (nvm *FileNVM) Split(position uint64) (sp1 NonVolatileMemory, sp2 NonVolatileMemory, err error) {
-	if block.Min().CeilAlign(uint64(position)) != position {
+	if !block.Min().IsAligned(position) {
 		return nil, nil, errors.Wrapf(internalerror.InvalidInput, "not aligned :%d in split", position)
 	}
+	if position > nvm.Capacity() {
+		return nil, nil, errors.Wrapf(internalerror.InvalidInput, "out of range :%d in split", position)
+	}
 
 	//TODO
 	leftNVM := &FileNVM{
@@ -184,7 +187,7 @@ func (nvm *FileNVM) Split(position uint64) (sp1 NonVolatileMemory, sp2 NonVolati
 
 func (nvm *FileNVM) Seek(offset int64, whence int) (int64, error) {
 	if !block.Min().IsAligned(uint64(offset)) {
-		return offset, errors.Wrapf(internalerror.InvalidInput, "not aligned :%d in seek", offset)
+		return 0, errors.Wrapf(internalerror.InvalidInput, "not aligned :%d in seek", offset)
 	}
 
 	//abs is relative to the current FileNVM, start from 0
@@ -194,19 +197,22 @@ func (nvm *FileNVM) Seek(offset int64, whence int) (int64, error) {
 	}
 
 	if abs > int64(nvm.Capacity()) || abs < 0 {
-		return -1, errors.Wrapf(internalerror.InvalidInput, "seek abs is wrong %d in seek", abs)
+		return 0, errors.Wrapf(internalerror.InvalidInput, "seek abs is wrong %d in seek", abs)
 	}
 
 	realFilePosition := nvm.viewStart + uint64(abs)
 
 	nvm.cursor_position = realFilePosition
-	return offset, nil
+	return abs, nil
 }
 
 //read,write threadSafe
 func (nvm *FileNVM) ReadAt(buf []byte, off int64) (n int, err error) {
 	if !block.Min().IsAligned(uint64(off)) {
-		return int(off), errors.Wrapf(internalerror.InvalidInput, "not aligned :%d in seek", off)
+		return 0, errors.Wrapf(internalerror.InvalidInput, "not aligned :%d in seek", off)
+	}
+	if off < 0 || uint64(off) > nvm.Capacity() {
+		return 0, errors.Wrapf(internalerror.InvalidInput, "out of range :%d, in read", off)
 	}
 
 	maxLen := nvm.Capacity() - uint64(off)
@@ -215,10 +221,22 @@ func (nvm *FileNVM) ReadAt(buf []byte, off int64) (n int, err error) {
 	}
 	bufLen := uint64(len(buf))
 	if !block.Min().IsAligned(uint64(bufLen)) {
-		return -1, errors.Wrapf(internalerror.InvalidInput, "not aligned :%d, in read", bufLen)
+		return 0, errors.Wrapf(internalerror.InvalidInput, "not aligned :%d, in read", bufLen)
 	}
 	rlen := util.Min(maxLen, bufLen)
-	return nvm.file.ReadAt(buf[:rlen], int64(nvm.viewStart)+off)
+	return nvm.readAt(buf[:rlen], int64(nvm.viewStart)+off)
+}
+
+//the file may be shorter than the device, what was never written reads as zero
+func (nvm *FileNVM) readAt(buf []byte, off int64) (n int, err error) {
+	n, err = nvm.file.ReadAt(buf, off)
+	if err == io.EOF {
+		for i := n; i < len(buf); i++ {
+			buf[i] = 0
+		}
+		return len(buf), nil
+	}
+	return
 }
 
 func (nvm *FileNVM) Read(buf []byte) (n int, err error) {
@@ -229,25 +247,19 @@ func (nvm *FileNVM) Read(buf []byte) (n int, err error) {
 	}
 	bufLen := uint64(len(buf))
 	if !block.Min().IsAligned(uint64(bufLen)) {
-		return -1, errors.Wrapf(internalerror.InvalidInput, "not aligned :%d, in read", bufLen)
+		return 0, errors.Wrapf(internalerror.InvalidInput, "not aligned :%d, in read", bufLen)
 	}
 
 	len := util.Min(maxLen, bufLen)
 
 	newPosition := nvm.cursor_position + len
 
-	n, err = nvm.file.ReadAt(buf[:len], int64(nvm.cursor_position))
+	n, err = nvm.readAt(buf[:len], int64(nvm.cursor_position))
 
-	if err != nil && err != io.EOF {
+	if err != nil {
 		return 0, err
 	}
 
-	if n < int(len) {
-		nvm.file.Seek(int64(newPosition), io.SeekStart)
-		nvm.cursor_position = newPosition
-		return int(len), nil
-	}
-
 	nvm.cursor_position = newPosition
 	return n, nil
 }
@@ -255,7 +267,10 @@ func (nvm *FileNVM) Read(buf []byte) (n int, err error) {
 func (nvm *FileNVM) WriteAt(buf []byte, offset int64) (n int, err error) {
 
 	if !block.Min().IsAligned(uint64(offset)) {
-		return int(offset), errors.Wrapf(internalerror.InvalidInput, "not aligned :%d in seek", offset)
+		return 0, errors.Wrapf(internalerror.InvalidInput, "not aligned :%d in seek", offset)
+	}
+	if offset < 0 || uint64(offset) > nvm.Capacity() {
+		return 0, errors.Wrapf(internalerror.InvalidInput, "out of range :%d, in write", offset)
 	}
 
 	realPos := int64(nvm.viewStart) + offset
@@ -263,13 +278,13 @@ func (nvm *FileNVM) WriteAt(buf []byte, offset int64) (n int, err error) {
 	bufLen := uint64(len(buf))
 
 	if !block.Min().IsAligned(bufLen) {
-		return -1, errors.Wrapf(internalerror.InvalidInput, "not aligned :%d, in write", bufLen)
+		return 0, errors.Wrapf(internalerror.InvalidInput, "not aligned :%d, in write", bufLen)
 	}
 
 	len := util.Min(maxLen, bufLen)
 
 	if n, err = nvm.file.WriteAt(buf[:len], realPos); err != nil {
-		return -1, errors.Wrap(err, "FileNVM failed to write")
+		return 0, errors.Wrap(err, "FileNVM failed to write")
 	}
 	return n, nil
 }
@@ -279,14 +294,14 @@ func (nvm *FileNVM) Write(buf []byte) (n int, err error) {
 	bufLen := uint64(len(buf))
 
 	if !block.Min().IsAligned(uint64(bufLen)) {
-		return -1, errors.Wrapf(internalerror.InvalidInput, "not aligned :%d, in write", bufLen)
+		return 0, errors.Wrapf(internalerror.InvalidInput, "not aligned :%d, in write", bufLen)
 	}
 
 	len := util.Min(maxLen, bufLen)
 	newPosition := nvm.cursor_position + len
 
 	if n, err = nvm.file.WriteAt(buf[:len], int64(nvm.cursor_position)); err != nil {
-		return -1, errors.Wrap(err, "FileNVM failed to write")
+		return 0, errors.Wrap(err, "FileNVM failed to write")
 	}
 
 	nvm.cursor_position = newPosition
diff --git a/nvm/memory.go b/nvm/memory.go
index 61cdb1d..45498c1 100644
--- a/nvm/memory.go
+++ b/nvm/memory.go
@@ -47,7 +47,7 @@ func (memory *MemoryNVM) RawSize() int64 {
 }
 
 func (memory *MemoryNVM) Split(p uint64) (sp1 NonVolatileMemory, sp2 NonVolatileMemory, err error) {
-	if memory.BlockSize().CeilAlign(p) != p {
+	if !memory.BlockSize().IsAligned(p) || p > memory.Capacity() {
 		return nil, nil, internalerror.InvalidInput
 	}
 
@@ -101,7 +101,7 @@ func (memory *MemoryNVM) Write(p []byte) (n int, err error) {
 	defer memory.Unlock()
 
 	if !memory.BlockSize().IsAligned(uint64(len(p))) {
-		return -1, internalerror.InvalidInput
+		return 0, internalerror.InvalidInput
 	}
 	n = copy(memory.vec[memory.position:], p)
 	memory.position += uint64(n)
@@ -120,7 +120,10 @@ func (memory *MemoryNVM) BlockSize() block.BlockSize {
 func (memory *MemoryNVM) ReadAt(p []byte, off int64) (n int, err error) {
 	memory.RLock()
 	defer memory.RUnlock()
-	if off >= int64(len(memory.vec)) {
+	if off < 0 || off > int64(len(memory.vec)) {
+		return 0, errors.Wrapf(internalerror.InvalidInput, "out of range :%d", off)
+	}
+	if off == int64(len(memory.vec)) {
 		return 0, io.EOF
 	}
 	n = copy(p, memory.vec[off:])
@@ -130,7 +133,10 @@ func (memory *MemoryNVM) ReadAt(p []byte, off int64) (n int, err error) {
 func (memory *MemoryNVM) WriteAt(p []byte, off int64) (n int, err error) {
 	memory.Lock()
 	defer memory.Unlock()
-	if off >= int64(len(memory.vec)) {
+	if off < 0 || off > int64(len(memory.vec)) {
+		return 0, errors.Wrapf(internalerror.InvalidInput, "out of range :%d", off)
+	}
+	if off == int64(len(memory.vec)) {
 		return 0, io.EOF
 	}
 	//maxLen := util.Min(uint64(len(memory.vec))-uint64(off), uint64(len(p)))
diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 953d508..cce2586 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -757,7 +757,10 @@ func (self *SnapNVM) Close() error {
 func (self *SnapNVM) Split(position uint64) (sp1 NonVolatileMemory, sp2 NonVolatileMemory, err error) {
 	self.Lock()
 	defer self.Unlock()
-	left, right, _ := self.originFile.Split(position)
+	left, right, err := self.originFile.Split(position)
+	if err != nil {
+		return nil, nil, err
+	}
 
 	sp1 = &SnapNVM{
 		originFile: left.(*FileNVM),
-- 
2.43.0


From 7d7a1bf2c86beb05a55d3a849bde0cb63b515251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:06 +0000
Subject: [PATCH 19/50] fix: a damaged journal crashed the store instead of
 refusing to open it

---
 storage/journal/region.go      | 16 ++++++++++------
 storage/journal/ring_buffer.go | 22 +++++++++++++++-------
 storage/storage.go             |  4 +++-
 3 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/storage/journal/region.go b/storage/journal/region.go
index eeefe91..dc7dffc 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -7,6 +7,7 @@ import (
 	"io"
 
 	"github.com/phf/go-queue/queue"
+	"github.com/pkg/errors"
 	"github.com/thesues/cannyls-go/block"
 	"github.com/thesues/cannyls-go/internalerror"
 	"github.com/thesues/cannyls-go/lump"
@@ -65,6 +66,9 @@ func OpenJournalRegion(nvm nvm.NonVolatileMemory) (*JournalRegion, error) {
 	if err != nil {
 		return nil, err
 	}
+	if header > ringNVM.Capacity() {
+		return nil, errors.Wrapf(internalerror.StorageCorrupted, "journal head %d is out of range", header)
+	}
 
 	//FIXME
 	//if
@@ -84,16 +88,19 @@ func OpenJournalRegion(nvm nvm.NonVolatileMemory) (*JournalRegion, error) {
 	}, nil
 }
 
-func (journal *JournalRegion) RestoreIndex(index *lumpindex.LumpIndex) {
+func (journal *JournalRegion) RestoreIndex(index *lumpindex.LumpIndex) error {
 	var entry JournalEntry
 	var err error
 	iter := journal.ring.BufferedIter()
+	//this iter has more than one goroutine to read data from nvm
+	//It must be sure all the goroutines are closed before normal operations
+	defer iter.Close()
 	var i int64 = 0
 	for {
 		entry, err = iter.PopFront()
 		if err != nil {
 			if err != internalerror.NoEntries {
-				panic(fmt.Sprintf("Can not restore journal :%v", err))
+				return errors.Wrap(err, "Can not restore journal")
 			}
 			break
 		}
@@ -120,10 +127,7 @@ func (journal *JournalRegion) RestoreIndex(index *lumpindex.LumpIndex) {
 	ostats.Record(context.Background(), x.JournalRegionMetric.RecordCounts.M(i))
 	//update usage
 	journal.ring.DoStoreUsage()
-
-	//this iter has more than one goroutine to read data from nvm
-	//It must be sure all the goroutines are closed before normal operations
-	iter.Close()
+	return nil
 }
 
 func (journal *JournalRegion) append(index *lumpindex.LumpIndex, record JournalRecord) error {
diff --git a/storage/journal/ring_buffer.go b/storage/journal/ring_buffer.go
index 7991ec8..5b131df 100644
--- a/storage/journal/ring_buffer.go
+++ b/storage/journal/ring_buffer.go
@@ -7,6 +7,7 @@ import (
 	"sync/atomic"
 
 	"github.com/klauspost/readahead"
+	"github.com/pkg/errors"
 	"github.com/thesues/cannyls-go/address"
 	"github.com/thesues/cannyls-go/internalerror"
 	"github.com/thesues/cannyls-go/nvm"
@@ -218,20 +219,27 @@ func (iter DequeueIter) PopFront() (entry JournalEntry, err error) {
 
 /*Use buffer and update tail*/
 type BufferedIter struct {
-	fastReader readahead.ReadSeekCloser
-	ring       *JournalRingBuffer
+	fastReader   readahead.ReadSeekCloser
+	ring         *JournalRingBuffer
+	isSecondLoop bool
 }
 
 //Update the ring.tail
-func (iter BufferedIter) PopFront() (entry JournalEntry, err error) {
+func (iter *BufferedIter) PopFront() (entry JournalEntry, err error) {
 	record, err := ReadRecordFrom(iter.fastReader)
 	if err != nil {
 		return JournalEntry{}, err
 	}
 	switch record.(type) {
 	case GoToFront:
+		if iter.isSecondLoop == true {
+			return JournalEntry{}, errors.Wrap(internalerror.StorageCorrupted, "has two GoToFront in journal")
+		}
+		iter.isSecondLoop = true
 		iter.ring.tail = 0
-		iter.fastReader.Seek(0, io.SeekStart)
+		if _, err = iter.fastReader.Seek(0, io.SeekStart); err != nil {
+			return JournalEntry{}, err
+		}
 		return iter.PopFront()
 	case EndOfRecords:
 		//this will not update ring.tail
@@ -246,7 +254,7 @@ func (iter BufferedIter) PopFront() (entry JournalEntry, err error) {
 	}
 }
 
-func (iter BufferedIter) Close() {
+func (iter *BufferedIter) Close() {
 	iter.fastReader.Close()
 }
 
@@ -279,7 +287,7 @@ func (iter ReadIter) PopFront() (entry JournalEntry, err error) {
 }
 
 /*Use Buffer and update tail*/
-func (ring *JournalRingBuffer) BufferedIter() BufferedIter {
+func (ring *JournalRingBuffer) BufferedIter() *BufferedIter {
 	ra, err := readahead.NewReadSeekerSize(ring.nvm, 4, 1<<20)
 	if err != nil {
 		panic("should not happen in create readahead buf")
@@ -288,7 +296,7 @@ func (ring *JournalRingBuffer) BufferedIter() BufferedIter {
 	if _, err := ra.Seek(int64(ring.head), 0); err != nil {
 		panic(fmt.Sprintf("panic in new DequeueIter %+v", err))
 	}
-	return BufferedIter{
+	return &BufferedIter{
 		ring:       ring,
 		fastReader: ra,
 	}
diff --git a/storage/storage.go b/storage/storage.go
index 41d9e44..8473d37 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -74,7 +74,9 @@ func OpenCannylsStorage(path string) (*Storage, error) {
 		return nil, err
 	}
 
-	journalRegion.RestoreIndex(index)
+	if err = journalRegion.RestoreIndex(index); err != nil {
+		return nil, err
+	}
 	/*
 		fmt.Printf("Index's mem is %d\n", index.MemoryUsed())
 		id, _ := index.Min()
-- 
2.43.0


From 271cd8f176f13abbf360f76217bc68056994b414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:30 +0000
Subject: [PATCH 20/50] fix: storages with regions that do not fit were
 created, or crashed on opening

---
 nvm/file.go               |  2 ++
 nvm/header.go             |  5 ++++
 storage/journal/region.go |  5 ++++
 storage/storage.go        | 58 +++++++++++++++++++++++++++------------
 4 files changed, 53 insertions(+), 17 deletions(-)

diff --git a/nvm/file.go b/nvm/file.go
index e0f9a3d..9f7b0d4 100644
--- a/nvm/file.go
+++ b/nvm/file.go
@@ -74,6 +74,7 @@ func CreateIfAbsent(path string, capacity uint64) (*FileNVM, error) {
 	*/
 
 	if err = lockFileWithExclusiveLock(f); err != nil {
+		f.Close()
 		return nil, err
 	}
 
@@ -120,6 +121,7 @@ func Open(path string) (nvm *FileNVM, header *StorageHeader, err error) {
 	}
 
 	if err = lockFileWithExclusiveLock(f); err != nil {
+		f.Close()
 		return nil, nil, err
 	}
 	err = nil
diff --git a/nvm/header.go b/nvm/header.go
index 5c230f8..d9862e3 100644
--- a/nvm/header.go
+++ b/nvm/header.go
@@ -147,6 +147,11 @@ func ReadFrom(reader io.Reader) (*StorageHeader, error) {
 		return nil, internalerror.InvalidInput
 	}
 
+	//the regions consist of whole blocks
+	if !blockSize.IsAligned(journalRegionSize) || !blockSize.IsAligned(dataRegionSize) {
+		return nil, internalerror.InvalidInput
+	}
+
 	//EOF
 	var buf [1]byte
 	if _, err = reader.Read(buf[:]); err != io.EOF {
diff --git a/storage/journal/region.go b/storage/journal/region.go
index dc7dffc..83cb374 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -56,6 +56,11 @@ func OpenJournalRegion(nvm nvm.NonVolatileMemory) (*JournalRegion, error) {
 
 	blockSize := nvm.BlockSize()
 
+	//one block for the header, and room for records
+	if nvm.Capacity() < 2*uint64(blockSize.AsU16()) {
+		return nil, errors.Wrap(internalerror.InvalidInput, "journal region is too small")
+	}
+
 	headerNVM, ringNVM, err := nvm.Split(uint64(blockSize.AsU16()))
 	if err != nil {
 		return nil, err
diff --git a/storage/storage.go b/storage/storage.go
index 8473d37..60ecca8 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"context"
 	"fmt"
+	"os"
 	"sync"
 	"time"
 
@@ -63,9 +64,18 @@ func OpenCannylsStorage(path string) (*Storage, error) {
 	}
 	snapNVM, err := nvm.NewSnapshotNVM(file)
 	if err != nil {
+		file.Close()
 		return nil, err
 	}
+	store, err := openStorage(snapNVM, header)
+	if err != nil {
+		snapNVM.Close()
+		return nil, err
+	}
+	return store, nil
+}
 
+func openStorage(snapNVM *nvm.SnapNVM, header *nvm.StorageHeader) (*Storage, error) {
 	index := lumpindex.NewIndex()
 	journalNVM, dataNVM := header.SplitRegion(snapNVM)
 
@@ -148,14 +158,29 @@ func CreateCannylsStorage(path string, capacity uint64, journal_ratio float64) (
 	}
 	snapNVM, err := nvm.NewSnapshotNVM(file)
 	if err != nil {
+		file.Close()
 		return nil, err
 	}
+	err = initStorage(snapNVM, journal_ratio)
+	snapNVM.Close()
+	if err != nil {
+		//do not leave something behind which is not a storage
+		os.Remove(path)
+		return nil, err
+	}
+
+	return OpenCannylsStorage(path)
+}
 
+func initStorage(snapNVM *nvm.SnapNVM, journal_ratio float64) error {
 	headBuf := new(bytes.Buffer)
-	header := makeHeader(snapNVM, journal_ratio)
+	header, err := makeHeader(snapNVM, journal_ratio)
+	if err != nil {
+		return err
+	}
 
 	if err = header.WriteHeaderRegionTo(headBuf); err != nil {
-		return nil, err
+		return err
 	}
 	//now headBuf's len should be at least 512
 
@@ -164,17 +189,14 @@ func CreateCannylsStorage(path string, capacity uint64, journal_ratio float64) (
 
 	alignedBufHead := block.FromBytes(headBuf.Bytes(), snapNVM.BlockSize())
 	alignedBufHead.Align()
-	snapNVM.Write(alignedBufHead.AsBytes())
-
-	if err = snapNVM.Sync(); err != nil {
-		return nil, err
+	if _, err = snapNVM.Write(alignedBufHead.AsBytes()); err != nil {
+		return err
 	}
-	snapNVM.Close()
 
-	return OpenCannylsStorage(path)
+	return snapNVM.Sync()
 }
 
-func makeHeader(file nvm.NonVolatileMemory, journal_ratio float64) nvm.StorageHeader {
+func makeHeader(file nvm.NonVolatileMemory, journal_ratio float64) (*nvm.StorageHeader, error) {
 
 	//total size
 	totalSize := file.Capacity()
@@ -182,35 +204,37 @@ func makeHeader(file nvm.NonVolatileMemory, journal_ratio float64) nvm.StorageHe
 
 	//check capacity
 	if totalSize < headerSize+uint64(file.BlockSize().AsU16()*3) {
-		panic("file size is too small")
+		return nil, errors.Wrap(internalerror.InvalidInput, "file size is too small")
 	}
 
 	//check journal size
+	if !(journal_ratio >= 0 && journal_ratio <= 1) {
+		return nil, errors.Wrapf(internalerror.InvalidInput, "journal ratio is wrong: %v", journal_ratio)
+	}
 	tmp := float64(file.Capacity()) * journal_ratio
 	journalSize := file.BlockSize().CeilAlign(uint64(tmp))
 	if journalSize > MAX_JOURNAL_REGION_SIZE {
-		panic("journal size is too big")
+		return nil, errors.Wrap(internalerror.InvalidInput, "journal size is too big")
 	}
 
 	if journalSize < uint64(file.BlockSize().AsU16()*2) {
 		journalSize = uint64(file.BlockSize().AsU16() * 2)
 	}
 
+	if totalSize < headerSize+journalSize+uint64(file.BlockSize().AsU16()) {
+		return nil, errors.Wrap(internalerror.InvalidInput, "no room for the data region")
+	}
 	dataSize := totalSize - journalSize - headerSize
 	dataSize = file.BlockSize().FloorAlign(dataSize)
 	if dataSize > MAX_DATA_REGION_SIZE {
-		panic(fmt.Sprintf("data size is too big: %d", dataSize))
-	}
-
-	if dataSize < uint64(file.BlockSize().AsU16()) {
-		dataSize = uint64(file.BlockSize().AsU16())
+		return nil, errors.Wrapf(internalerror.InvalidInput, "data size is too big: %d", dataSize)
 	}
 
 	header := nvm.DefaultStorageHeader()
 	header.BlockSize = file.BlockSize()
 	header.JournalRegionSize = journalSize
 	header.DataRegionSize = dataSize
-	return *header
+	return header, nil
 }
 
 func (store *Storage) Header() nvm.StorageHeader {
-- 
2.43.0


From d15b2a2fddf226cc8ab9876135803861c55c318e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:32 +0000
Subject: [PATCH 21/50] fix: a write larger than a snapshot region crashed, and
 read errors went into the snapshot

---
 nvm/snapnvm.go | 83 ++++++++++++++++++++++----------------------------
 1 file changed, 37 insertions(+), 46 deletions(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index cce2586..63374f7 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -662,27 +662,44 @@ func (self *SnapNVM) Unlock() {
 	self.rawSnapNVM.mu.Unlock()
 }
 
+//preserve saves what the snapshot has to keep of the regions
+//a write of n bytes at off of this view is going to change
+func (self *SnapNVM) preserve(off uint64, n uint64) error {
+	raw := self.rawSnapNVM
+	backfile := raw.myBackfile
+	if backfile == nil || off >= self.originFile.Capacity() {
+		return nil
+	}
+	n = util.Min(n, self.originFile.Capacity()-off)
+	if n == 0 {
+		return nil
+	}
+	start := self.originFile.ViewStart() + off
+	_, onOrigin := backfile.GetCopyOffset(start, start+n)
+	for _, region := range onOrigin {
+		regionStart := uint64(region) * backfile.RegionSize()
+		if regionStart >= backfile.rawCapacity {
+			//did not exist when the snapshot was taken
+			break
+		}
+		//although the last region could be shorter than regionSize, we still write
+		//the whole regionSize to backfile
+		size := util.Min(backfile.rawCapacity-regionStart, backfile.RegionSize())
+		size = raw.BlockSize().CeilAlign(size)
+		if _, err := raw.originFile.ReadAt(raw.ab.AsBytes()[:size], int64(regionStart)); err != nil && err != io.EOF {
+			return errors.Wrapf(err, "failed to read region %d for the snapshot", region)
+		}
+		backfile.WriteOffset(raw.ab.AsBytes(), region)
+	}
+	return nil
+}
+
 func (self *SnapNVM) WriteAt(buf []byte, off int64) (n int, err error) {
 	self.Lock()
 	defer self.Unlock()
-	realPos := self.originFile.ViewStart() + uint64(off)
-	if self.rawSnapNVM.myBackfile != nil {
-		if len(buf) > int(self.rawSnapNVM.myBackfile.RegionSize()) {
-			panic("Write buf is too big")
-		}
-		rawFile := self.rawSnapNVM.originFile
-
-		_, onOrigin := self.rawSnapNVM.myBackfile.GetCopyOffset(realPos, realPos+uint64(len(buf)))
-
-		for i := 0; i < len(onOrigin); i++ {
-			rawFile.Seek(int64(uint64(onOrigin[i])*self.rawSnapNVM.myBackfile.RegionSize()), io.SeekStart)
-			n, err = io.ReadFull(rawFile, self.rawSnapNVM.ab.AsBytes())
-			if n < 0 {
-				panic("fail to read data")
-			}
-			//although n could be less than regionSize at the end of file, we still write
-			//the whole regionSize to backfile
-			self.rawSnapNVM.myBackfile.WriteOffset(self.rawSnapNVM.ab.AsBytes(), onOrigin[i])
+	if off >= 0 {
+		if err = self.preserve(uint64(off), uint64(len(buf))); err != nil {
+			return 0, err
 		}
 	}
 	return self.originFile.WriteAt(buf, off)
@@ -691,35 +708,9 @@ func (self *SnapNVM) WriteAt(buf []byte, off int64) (n int, err error) {
 func (self *SnapNVM) Write(buf []byte) (n int, err error) {
 	self.Lock()
 	defer self.Unlock()
-	start := self.originFile.Position() //start is a relative position
-	realPos := self.originFile.ViewStart() + start
-	if self.rawSnapNVM.myBackfile != nil {
-
-		if len(buf) > int(self.rawSnapNVM.myBackfile.RegionSize()) {
-			panic("Write buf is too big")
-		}
-		rawFile := self.rawSnapNVM.originFile
-
-		_, onOrigin := self.rawSnapNVM.myBackfile.GetCopyOffset(realPos, realPos+uint64(len(buf)))
-		/*
-			fmt.Printf("start backup for %+v, start is %d , realPos is start:end is %d:%d \n",
-				onOrigin, start, realPos, realPos+uint64(len(buf)))
-		*/
-		for i := 0; i < len(onOrigin); i++ {
-			rawFile.Seek(int64(uint64(onOrigin[i])*self.rawSnapNVM.myBackfile.RegionSize()), io.SeekStart)
-
-			//fmt.Printf("offset is %d, len is %d\n", uint64(onOrigin[i])*self.myBackfile.RegionSize(), self.ab.Len())
-			//fmt.Printf("raw file %+v, ab. len %d\n", rawFile, self.ab.Len())
-			n, err = io.ReadFull(rawFile, self.rawSnapNVM.ab.AsBytes())
-			if n < 0 {
-				panic("fail to read data")
-			}
-			//although n could be less than regionSize at the end of file, we still write
-			//the whole regionSize to backfile
-			self.rawSnapNVM.myBackfile.WriteOffset(self.rawSnapNVM.ab.AsBytes(), onOrigin[i])
-		}
+	if err = self.preserve(self.originFile.Position(), uint64(len(buf))); err != nil {
+		return 0, err
 	}
-	self.originFile.Seek(int64(start), io.SeekStart)
 	return self.originFile.Write(buf)
 }
 
-- 
2.43.0


From d9bafab8eb9cd89f7c94b59dfca53fc5550e0246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:37 +0000
Subject: [PATCH 22/50] fix: the snapshot reader gave wrong positions and
 bytes, raced with writes and crashed on a deleted snapshot

---
 nvm/snapnvm.go | 158 ++++++++++++++++++++-----------------------------
 1 file changed, 65 insertions(+), 93 deletions(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 63374f7..a8bd2e5 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -476,121 +476,93 @@ func OpenBackingFile(fileName string) (*BackingFile, error) {
 }
 
 type SnapshotReader struct {
-	snap          *SnapNVM
-	offset        uint64
-	buf           *block.AlignedBytes
-	waterHighMark int
-	waterLowMark  int
+	snap     *SnapNVM
+	backfile *BackingFile
+	offset   uint64 //of the next byte to read
+	buf      *block.AlignedBytes
+	bufStart uint64 //the buf has the bytes [bufStart, bufStart+bufLen) of the snapshot
+	bufLen   uint64
 }
 
 func newSnapshotReader(snap *SnapNVM) *SnapshotReader {
 	ab := block.NewAlignedBytes(int(snap.myBackfile.RegionSize()), block.Min())
 	return &SnapshotReader{
-		snap:          snap,
-		buf:           ab,
-		offset:        0,
-		waterHighMark: 0,
-		waterLowMark:  0,
+		snap:     snap,
+		backfile: snap.myBackfile,
+		buf:      ab,
 	}
 }
 
-//read/write threadSafe
 func (self *SnapshotReader) Seek(offset int64, whence int) (int64, error) {
-	self.waterHighMark = 0
-	self.waterLowMark = 0
-	if offset > int64(self.snap.myBackfile.rawCapacity) {
-		return 0, errors.Errorf("fail to seek to %d, rawCapacity is %d", offset, self.snap.myBackfile.rawCapacity)
-	}
+	var from uint64
 	switch whence {
-	case 0:
-		self.offset = uint64(offset)
-		return offset, nil
-	case 1:
-		self.offset = uint64(int64(self.offset) + offset)
-		return int64(self.offset), nil
-	case 2:
-		panic("not supported so far")
+	case io.SeekStart:
+		from = 0
+	case io.SeekCurrent:
+		from = self.offset
+	case io.SeekEnd:
+		from = self.backfile.rawCapacity
 	default:
 		return 0, errors.New("failed to seek")
 	}
+	abs := int64(from) + offset
+	if abs < 0 || abs > int64(self.backfile.rawCapacity) {
+		return 0, errors.Errorf("fail to seek to %d, rawCapacity is %d", abs, self.backfile.rawCapacity)
+	}
+	self.offset = uint64(abs)
+	return abs, nil
 }
 
-//read thread-safe
+//Read returns the bytes up to the end of the region at most
 func (self *SnapshotReader) Read(p []byte) (n int, err error) {
-
-	//self.snap.Lock() //lock write
-	//defer self.snap.Unlock()
-
-	regionSize := self.snap.myBackfile.RegionSize()
-	/* local buffer is empty */
-	if uint64(len(p)) > self.snap.myBackfile.RegionSize() {
-		panic("Read data too big")
+	//no write is allowed between looking up a region and reading it
+	self.snap.RLock()
+	defer self.snap.RUnlock()
+	if self.snap.myBackfile != self.backfile {
+		return 0, errors.New("the snapshot was deleted")
 	}
-	start := self.offset / regionSize * regionSize
-	maxLen := util.Min(self.snap.myBackfile.rawCapacity-start, regionSize)
-	//read the whole region size
-	if self.waterHighMark == self.waterLowMark {
-
-		if self.offset == self.snap.myBackfile.rawCapacity {
-			return 0, io.EOF
+	if len(p) == 0 {
+		return 0, nil
+	}
+	if self.offset >= self.backfile.rawCapacity {
+		return 0, io.EOF
+	}
+	start := self.offset / self.backfile.RegionSize() * self.backfile.RegionSize()
+	if self.bufLen == 0 || self.bufStart != start {
+		if err = self.fill(start); err != nil {
+			return 0, err
 		}
-		onBacking, onOrigin := self.snap.myBackfile.GetCopyOffset(start, start+regionSize)
-		/*
-			fmt.Printf("onBacking is %+v, onOrigin is %+v, offset is %d, start is %d\n",
-				onBacking, onOrigin, self.offset, start)
-		*/
+	}
+	if self.offset-start >= self.bufLen {
+		return 0, io.EOF
+	}
+	n = copy(p, self.buf.AsBytes()[self.offset-start:self.bufLen])
+	self.offset += uint64(n)
+	return n, nil
+}
 
-		if len(onBacking) == 1 {
-			self.buf.Resize(uint32(self.snap.myBackfile.regionSize))
-			n, err = self.snap.myBackfile.ReadFromOffset(self.buf.AsBytes(), onBacking[0])
-			//fmt.Printf("result of read backup %+v, %+v from %d\n", n, err, onBacking[0])
-			if err != nil && err != io.EOF {
-				return -1, err
-			}
-			if n == 0 {
-				return 0, io.EOF
-			}
-		} else if len(onOrigin) == 1 {
-			self.buf.Resize(uint32(maxLen))
-			/*
-				if _, err = self.snap.originFile.Seek(int64(uint64(onOrigin[0])*regionSize), io.SeekStart); err != nil {
-					panic("failed to seek")
-				}
-				n, err = io.ReadFull(self.snap.originFile, self.buf.AsBytes())
-			*/
-			start := int64(uint64(onOrigin[0]) * regionSize)
-			n, err = util.ReadFull(self.snap.originFile, self.buf.AsBytes(), start)
-			fmt.Printf("result of read origin %+v,raw size is %d, err is %+v\n", n, self.snap.originFile.RawSize(), err)
-			//if originFile is shorter than expected
-			if err != nil && err != io.EOF {
-				return -1, err
-			}
-			if n == 0 {
-				return 0, io.EOF
-			}
-		} else {
-			panic("bad happend")
+//fill reads the whole region
+func (self *SnapshotReader) fill(start uint64) (err error) {
+	self.bufLen = 0
+	regionSize := self.backfile.RegionSize()
+	size := util.Min(self.backfile.rawCapacity-start, regionSize)
+	var n int
+	if onBacking, onOrigin := self.backfile.GetCopyOffset(start, start+size); len(onBacking) == 1 {
+		self.buf.Resize(uint32(regionSize))
+		if n, err = self.backfile.ReadFromOffset(self.buf.AsBytes(), onBacking[0]); err != nil {
+			return err
 		}
-		self.waterHighMark = int(util.Min(uint64(maxLen), uint64(n)))
-		self.waterLowMark = int(self.offset % regionSize)
-		self.offset = start + uint64(self.waterHighMark)
-
-	}
-	/*
-		fmt.Printf("waterHighMark %d, waterLowMark %d, offset %d\n",
-			self.waterHighMark, self.waterLowMark, self.offset)
-	*/
-	l := len(p)
-	if l < self.waterHighMark-self.waterLowMark {
-		copy(p, self.buf.AsBytes()[self.waterLowMark:self.waterLowMark+l])
-		self.waterLowMark += l
-		return l, nil
 	} else {
-		copy(p, self.buf.AsBytes()[self.waterLowMark:])
-		n := self.waterHighMark - self.waterLowMark
-		self.waterLowMark += n
-		return n, nil
+		self.buf.Resize(uint32(self.snap.BlockSize().CeilAlign(size)))
+		n, err = util.ReadFull(self.snap.originFile, self.buf.AsBytes(), int64(uint64(onOrigin[0])*regionSize))
+		//the originFile may be shorter than expected
+		if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
+			return err
+		}
 	}
+	self.bufStart = start
+	self.bufLen = util.Min(size, uint64(n))
+	return nil
 }
 
 type SnapNVM struct {
-- 
2.43.0


From 66f85a7fce4d5acf36ac1a8fa86bc2d9ea00c600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:40 +0000
Subject: [PATCH 23/50] fix: a snapshot was put outside the directory of its
 device, mixed up with others, and crashed the opening when incomplete

---
 nvm/snapnvm.go | 133 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 91 insertions(+), 42 deletions(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index a8bd2e5..688f57c 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -5,8 +5,10 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"os"
 	"path/filepath"
+	"strings"
 	"sync"
 	"time"
 
@@ -28,6 +30,8 @@ var (
 	DEFAULT_REGION_SHIFT uint16 = 25
 )
 
+const backingFileSuffix = "_lusf.snapshot"
+
 //Default RegionShift is 25 : 1<<25 == 32MB
 type BackingFileHeader struct {
 	MajorVersion uint16
@@ -71,22 +75,19 @@ func (entry BitmapEntry) WriteTo(writer io.Writer) (err error) {
 	return
 }
 
-func ReadRecordFrom(reader io.Reader) BitmapEntry {
-	var buf [4]byte
-	if _, err := io.ReadFull(reader, buf[:]); err != nil {
-		panic("can not read from disk: from ReadRecordFrom")
+func ReadRecordFrom(reader io.Reader) (bitmap BitmapEntry, err error) {
+	var buf [12]byte
+	if _, err = io.ReadFull(reader, buf[:]); err != nil {
+		return bitmap, errors.Wrap(err, "can not read from disk: from ReadRecordFrom")
 	}
-	checksum := binary.BigEndian.Uint32(buf[:])
-	var originOffset uint32
-	var snapOffset uint32
-	binary.Read(reader, binary.BigEndian, &originOffset)
-	binary.Read(reader, binary.BigEndian, &snapOffset)
-	bitmap := BitmapEntry{OriginOffset: originOffset, SnapOffset: snapOffset}
+	checksum := binary.BigEndian.Uint32(buf[:4])
+	bitmap.OriginOffset = binary.BigEndian.Uint32(buf[4:8])
+	bitmap.SnapOffset = binary.BigEndian.Uint32(buf[8:])
 	//check entry's crc
 	if bitmap.CheckSum() != checksum {
-		panic("check sum failed")
+		return bitmap, errors.Wrap(internalerror.InvalidInput, "check sum failed")
 	}
-	return bitmap
+	return bitmap, nil
 }
 
 func (self *BackingFileHeader) WriteTo(writer io.Writer) (err error) {
@@ -381,13 +382,44 @@ func (bf *BackingFile) WriteOffset(buf []byte, offset uint32) {
 	bf.file.Sync()
 }
 
+//findBackingFiles lists the snapshot files of one device: the names are
+//prefix_UUID_lusf.snapshot, and prefix may have any character
+func findBackingFiles(directory string, prefix string) (matches []string, err error) {
+	infos, err := ioutil.ReadDir(directory)
+	if err != nil {
+		return nil, err
+	}
+	for _, info := range infos {
+		name := info.Name()
+		if !strings.HasPrefix(name, prefix+"_") || !strings.HasSuffix(name, backingFileSuffix) {
+			continue
+		}
+		if len(name) < len(prefix)+1+len(backingFileSuffix) {
+			continue
+		}
+		if _, err := uuid.FromString(name[len(prefix)+1 : len(name)-len(backingFileSuffix)]); err != nil {
+			continue
+		}
+		matches = append(matches, filepath.Join(directory, name))
+	}
+	return matches, nil
+}
+
 func CreateBackingFile(prefix string, maxCapacity uint64, currentCapacity uint64) (*BackingFile, error) {
 	uuidFile := uuid.NewV4()
-	fileName := prefix + "_" + uuidFile.String() + "_lusf.snapshot"
-	file, err := os.OpenFile(fileName, os.O_SYNC|os.O_CREATE|os.O_RDWR, 0755)
+	fileName := prefix + "_" + uuidFile.String() + backingFileSuffix
+	//it gets its name when the header is complete
+	tmpName := fileName + ".tmp"
+	file, err := os.OpenFile(tmpName, os.O_SYNC|os.O_CREATE|os.O_RDWR, 0755)
 	if err != nil {
 		return nil, err
 	}
+	defer func() {
+		if err != nil {
+			file.Close()
+			os.Remove(tmpName)
+		}
+	}()
 	header := BackingFileHeader{
 		MajorVersion: SNAP_MAJOR_VERSION,
 		MinorVersion: SNAP_MINOR_VERSION,
@@ -403,7 +435,12 @@ func CreateBackingFile(prefix string, maxCapacity uint64, currentCapacity uint64
 		return nil, err
 	}
 
-	file.Sync()
+	if err = file.Sync(); err != nil {
+		return nil, err
+	}
+	if err = os.Rename(tmpName, fileName); err != nil {
+		return nil, err
+	}
 
 	fmt.Printf("Creating Backingfile journalSize is %d, dataStart At %d\n", header.JournalSize, 512+header.JournalSize)
 	return &BackingFile{
@@ -427,10 +464,18 @@ func OpenBackingFile(fileName string) (*BackingFile, error) {
 	if err != nil {
 		return nil, errors.Wrapf(internalerror.InvalidInput, "failed to open backfile %v", fileName)
 	}
-	var header *BackingFileHeader
-	header, err = readBackingFileHeaderFrom(file)
+	bf, err := openBackingFile(file, fileName)
 	if err != nil {
-		panic(fmt.Sprint(err.Error()))
+		file.Close()
+		return nil, errors.Wrapf(err, "failed to open backfile %v", fileName)
+	}
+	return bf, nil
+}
+
+func openBackingFile(file *os.File, fileName string) (*BackingFile, error) {
+	header, err := readBackingFileHeaderFrom(file)
+	if err != nil {
+		return nil, err
 	}
 
 	fmt.Printf("header is %+v\n", header)
@@ -439,20 +484,30 @@ func OpenBackingFile(fileName string) (*BackingFile, error) {
 	tree := judy.JudyL{}
 
 	var dataStart uint64 = 512 + header.JournalSize //unit bytes
-	info, _ := file.Stat()
-	var dataEnd = util.Max(dataStart, uint64(info.Size()))
-
-	n := (dataEnd - dataStart) >> header.RegionShift
+	info, err := file.Stat()
+	if err != nil {
+		return nil, err
+	}
+	//a region which was not written to its end is not part of the snapshot
+	n := (util.Max(dataStart, uint64(info.Size())) - dataStart) >> header.RegionShift
+	var dataEnd = dataStart + n<<header.RegionShift
+	if n*(BitmapEntry{}).Size() > header.JournalSize {
+		return nil, errors.Wrapf(internalerror.InvalidInput, "too many regions: %d", n)
+	}
 
 	//fmt.Printf("snapshot number of entry is %d\n", n)
 
 	if _, err = file.Seek(512, io.SeekStart); err != nil {
-		panic("seek failed")
+		return nil, err
 	}
 	for i := uint64(0); i < n; i++ {
-		entry := ReadRecordFrom(file)
-		entryDataEnd := dataStart + uint64(entry.SnapOffset+1)*(1<<header.RegionShift)
-		dataEnd = util.Max(dataEnd, entryDataEnd)
+		entry, err := ReadRecordFrom(file)
+		if err != nil {
+			return nil, err
+		}
+		if uint64(entry.SnapOffset) >= n {
+			return nil, errors.Wrapf(internalerror.InvalidInput, "region %d is not in the file", entry.SnapOffset)
+		}
 		//fmt.Printf("entry %d %d\n", entry.OriginOffset, entry.SnapOffset)
 		tree.Insert(uint64(entry.OriginOffset), uint64(entry.SnapOffset))
 	}
@@ -570,7 +625,7 @@ type SnapNVM struct {
 	originFile *FileNVM
 	myBackfile *BackingFile
 	ab         *block.AlignedBytes
-	prefix     string
+	prefix     string //path of the snapshot files
 	splited    bool
 	rawSnapNVM *SnapNVM
 }
@@ -580,33 +635,27 @@ func NewSnapshotNVM(originFile *FileNVM) (*SnapNVM, error) {
 	if originFile.splited {
 		panic("can not create snap from splited NVM")
 	}
-	var err error
 	fileDirectory := filepath.Dir(originFile.path)
 	var myBackFile *BackingFile = nil
 	///a/b/c/d/EXXX.lusf => EXXX
 	//../../../ASDF.lusf => ASDF
-	baseName := filepath.Base(originFile.path)
-	prefix := baseName[0 : len(baseName)-5]
-	pattern := fmt.Sprintf("%s/%s_*_lusf.snapshot", fileDirectory, prefix)
-	//fmt.Println(pattern)
-	matches, err := filepath.Glob(pattern)
-	//fmt.Println(matches)
+	prefix := strings.TrimSuffix(filepath.Base(originFile.path), ".lusf")
+	matches, err := findBackingFiles(fileDirectory, prefix)
 	if err != nil {
-		panic(err.Error())
+		return nil, err
 	}
-	if len(matches) == 0 {
-		//myBackFile, err = CreateBackingFile(prefix, uint64(originFile.RawSize()))
+	if len(matches) > 1 {
+		return nil, errors.Errorf("more than one snapshot file: %v", matches)
 	} else if len(matches) == 1 {
 		fmt.Printf("found snapshot file %s\n", matches[0])
-		myBackFile, err = OpenBackingFile(matches[0])
-	}
-	if err != nil {
-		return nil, err
+		if myBackFile, err = OpenBackingFile(matches[0]); err != nil {
+			return nil, err
+		}
 	}
 	snapNVM := &SnapNVM{
 		originFile: originFile,
 		myBackfile: myBackFile,
-		prefix:     prefix,
+		prefix:     filepath.Join(fileDirectory, prefix),
 		splited:    false,
 	}
 	//create ab for read data from
-- 
2.43.0


From 3afff792d0a17c74d9d48171771b33456483ca2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:32 +0000
Subject: [PATCH 24/50] fix: errors while a snapshot is written or deleted
 crashed the process or were dropped

---
 nvm/snapnvm.go | 57 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 688f57c..554c5dd 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -272,10 +272,10 @@ type BackingFile struct {
 	fileName       string
 }
 
-func (bf *BackingFile) Close() {
+func (bf *BackingFile) Close() error {
 	bf.Lock()
 	defer bf.Unlock()
-	bf.file.Close()
+	return bf.file.Close()
 }
 
 func (bf *BackingFile) Sync() error {
@@ -284,12 +284,13 @@ func (bf *BackingFile) Sync() error {
 	return bf.file.Sync()
 }
 
-func (bf *BackingFile) Delete() {
+func (bf *BackingFile) Delete() error {
 	bf.Lock()
 	defer bf.Unlock()
 	if err := os.Remove(bf.fileName); err != nil {
-		panic("delete failed")
+		return err
 	}
+	return bf.file.Close()
 }
 
 //give [start, end) of the buf
@@ -345,16 +346,16 @@ func (bf *BackingFile) ReadFromOffset(buf []byte, offset uint32) (int, error) {
 //buf's size must be regionSize,
 //offset is buf's offset in origin file
 //WriteOffset write journal first, and then write the buf
-func (bf *BackingFile) WriteOffset(buf []byte, offset uint32) {
+//after an error the region is not part of the backing file
+func (bf *BackingFile) WriteOffset(buf []byte, offset uint32) error {
 	bf.Lock()
 	defer bf.Unlock()
 	if uint64(len(buf)) != bf.regionSize {
-		//panic("buf is small, i quit")
-		panic(fmt.Sprintf("buf is small, i quit, regsionSize is %d, len of buf is %d\n", bf.regionSize, len(buf)))
+		return errors.Errorf("buf is small, i quit, regsionSize is %d, len of buf is %d\n", bf.regionSize, len(buf))
 	}
 	//pos is the
 	if _, have := bf.tree.Get(uint64(offset)); have {
-		panic(fmt.Sprintf("offset is %d, we already snapshoted this", offset))
+		return errors.Errorf("offset is %d, we already snapshoted this", offset)
 	}
 	start := bf.dataEnd
 	//TODO convert regionShift
@@ -362,24 +363,32 @@ func (bf *BackingFile) WriteOffset(buf []byte, offset uint32) {
 		OriginOffset: uint32(offset),
 		SnapOffset:   uint32((start - bf.dataStart) / bf.regionSize),
 	}
+	if bf.JournalEnd+entry.Size() > bf.dataStart {
+		return errors.Errorf("no room for offset %d", offset)
+	}
 	//Write journal
-	bf.file.Seek(int64(bf.JournalEnd), io.SeekStart)
+	if _, err := bf.file.Seek(int64(bf.JournalEnd), io.SeekStart); err != nil {
+		return err
+	}
 	if err := entry.WriteTo(bf.file); err != nil {
-		panic("write failed")
+		return err
 	}
 	//Write data
 	if _, err := bf.file.Seek(int64(bf.dataEnd), io.SeekStart); err != nil {
-		panic("im panic")
+		return err
 	}
-	bf.dataEnd += bf.regionSize
 	if _, err := bf.file.Write(buf); err != nil {
-		panic("write panic")
+		return err
+	}
+	if err := bf.file.Sync(); err != nil {
+		return err
 	}
 
+	bf.dataEnd += bf.regionSize
 	bf.JournalEnd += entry.Size()
 	//fmt.Printf("entry insert %d:%d\n", entry.OriginOffset, entry.SnapOffset)
 	bf.tree.Insert(uint64(entry.OriginOffset), uint64(entry.SnapOffset))
-	bf.file.Sync()
+	return nil
 }
 
 //findBackingFiles lists the snapshot files of one device: the names are
@@ -710,7 +719,9 @@ func (self *SnapNVM) preserve(off uint64, n uint64) error {
 		if _, err := raw.originFile.ReadAt(raw.ab.AsBytes()[:size], int64(regionStart)); err != nil && err != io.EOF {
 			return errors.Wrapf(err, "failed to read region %d for the snapshot", region)
 		}
-		backfile.WriteOffset(raw.ab.AsBytes(), region)
+		if err := backfile.WriteOffset(raw.ab.AsBytes(), region); err != nil {
+			return errors.Wrapf(err, "failed to save region %d for the snapshot", region)
+		}
 	}
 	return nil
 }
@@ -759,11 +770,17 @@ func (self *SnapNVM) Close() error {
 	if self.splited {
 		return errors.Errorf("can not close splited NVM")
 	}
+	var err error
 	if self.myBackfile != nil {
-		self.myBackfile.Sync()
-		self.myBackfile.Close()
+		err = self.myBackfile.Sync()
+		if cerr := self.myBackfile.Close(); err == nil {
+			err = cerr
+		}
+	}
+	if cerr := self.originFile.Close(); err == nil {
+		err = cerr
 	}
-	return self.originFile.Close()
+	return err
 }
 
 func (self *SnapNVM) Split(position uint64) (sp1 NonVolatileMemory, sp2 NonVolatileMemory, err error) {
@@ -821,7 +838,9 @@ func (self *SnapNVM) DeleteSnapshot() error {
 		return errors.Errorf("can not create snapshot in splited NVM")
 	}
 	if self.myBackfile != nil {
-		self.myBackfile.Delete()
+		if err := self.myBackfile.Delete(); err != nil {
+			return err
+		}
 		self.myBackfile = nil
 	}
 	return nil
-- 
2.43.0


From 160b4c2816d9791c72cd295cfee73aac02ee4d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:19 +0000
Subject: [PATCH 25/50] fix: a full journal GC released entries before their
 copies were on the device

GcAllEntries moved the journal head behind the entries it had appended again
while these were still in the write buffer only; a stop right after lost them.
---
 storage/journal/region.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/storage/journal/region.go b/storage/journal/region.go
index 83cb374..b541891 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -412,6 +412,10 @@ func (journal *JournalRegion) GcAllEntries(index *lumpindex.LumpIndex) {
 			break
 		}
 	}
+	//the entries appended again must be on the device before the old ones are released
+	if err := journal.ring.Flush(); err != nil {
+		return
+	}
 	journal.writeUnusedJournalHeader(journal.ring.Head())
 	//assert head == unreleased_head
 	//journal.headerRegion.WriteTo(journal.ring.Head())
-- 
2.43.0


From d88cde2b6b00c0a3e524336ae298acc2c1146ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:16 +0000
Subject: [PATCH 26/50] fix: device errors while appending to the journal
 corrupted its write buffer

A failed read of a block that is written in part was ignored, the block then went
to the device with zeros in place of its other records. An error in the middle of
a record left the record's begin in place of the EndOfRecords. A failed read
returned -1 bytes, which crashes bufio.
---
 storage/journal/nvm_buffer.go  | 28 ++++++++++++++++++++++------
 storage/journal/ring_buffer.go | 22 +++++++++++++---------
 2 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/storage/journal/nvm_buffer.go b/storage/journal/nvm_buffer.go
index 195ddd8..5a80e86 100644
--- a/storage/journal/nvm_buffer.go
+++ b/storage/journal/nvm_buffer.go
@@ -85,12 +85,12 @@ func (jb *JournalNvmBuffer) Read(buf []byte) (n int, err error) {
 	//fmt.Printf("len: ", jb.readBuf.Len())
 	//Seek the aligned sector and read from disk
 	if _, err := jb.nvm.Seek(int64(readBufStart), io.SeekStart); err != nil {
-		return -1, err
+		return 0, err
 	}
 
 	innerReadSize, err := jb.nvm.Read(jb.readBuf.AsBytes())
 	if err != nil && err != io.EOF {
-		return -1, err
+		return 0, err
 	}
 
 	start := jb.position - readBufStart
@@ -129,8 +129,10 @@ func (jb *JournalNvmBuffer) Write(buf []byte) (n int, err error) {
 			jb.writeBuf.AlignResize(end)
 
 			if uint64(jb.writeBuf.Len())-oldLen >= uint64(jb.nvm.BlockSize().AsU16()) {
-				jb.nvm.Seek(int64(jb.writeBufOffset+oldLen), io.SeekStart)
-				jb.nvm.Read(jb.writeBuf.AsBytes()[oldLen:])
+				if err := jb.fill(jb.writeBuf.AsBytes()[oldLen:], jb.writeBufOffset+oldLen); err != nil {
+					jb.writeBuf.Truncate(uint32(oldLen))
+					return 0, err
+				}
 			}
 		}
 
@@ -155,8 +157,11 @@ func (jb *JournalNvmBuffer) Write(buf []byte) (n int, err error) {
 			jb.writeBufOffset = jb.nvm.BlockSize().FloorAlign(jb.position)
 			//fmt.Printf("update buf offset to %d", jb.position)
 			jb.writeBuf.AlignResize(uint32(jb.nvm.BlockSize().AsU16())) //resize to a sector
-			jb.nvm.Seek(int64(jb.writeBufOffset), io.SeekStart)
-			jb.nvm.Read(jb.writeBuf.AsBytes())
+			if err := jb.fill(jb.writeBuf.AsBytes(), jb.writeBufOffset); err != nil {
+				//the buffer is empty again, it must not be taken for the sector
+				jb.writeBuf.AlignResize(0)
+				return 0, err
+			}
 		}
 
 		//call
@@ -164,6 +169,17 @@ func (jb *JournalNvmBuffer) Write(buf []byte) (n int, err error) {
 	}
 }
 
+//read what is at offset on the device, there may be less than asked for
+func (jb *JournalNvmBuffer) fill(buf []byte, offset uint64) error {
+	if _, err := jb.nvm.Seek(int64(offset), io.SeekStart); err != nil {
+		return err
+	}
+	if _, err := jb.nvm.Read(buf); err != nil && err != io.EOF {
+		return err
+	}
+	return nil
+}
+
 func (jb *JournalNvmBuffer) Close() error {
 	return jb.Sync()
 }
diff --git a/storage/journal/ring_buffer.go b/storage/journal/ring_buffer.go
index 5b131df..52264b4 100644
--- a/storage/journal/ring_buffer.go
+++ b/storage/journal/ring_buffer.go
@@ -2,6 +2,7 @@ package journal
 
 import (
 	"bufio"
+	"bytes"
 	"fmt"
 	"io"
 	"sync/atomic"
@@ -107,22 +108,25 @@ func (ring *JournalRingBuffer) Enqueue(record JournalRecord) (jportion portion.J
 		start = 0
 	}
 
-	//3. write data
-	if _, err = ring.nvm.Seek(int64(start), io.SeekStart); err != nil {
+	//3. write data and End OF Record at once, a device error must not leave
+	//a part of the record in place of the old End OF Record
+	buf := new(bytes.Buffer)
+	if err = record.WriteTo(buf); err != nil {
 		return
 	}
-	if err = record.WriteTo(ring.nvm); err != nil {
+	newTail := start + uint64(buf.Len())
+	endRecord := EndOfRecords{}
+	if err = endRecord.WriteTo(buf); err != nil {
 		return
 	}
-	newTail := ring.nvm.Position()
-
-	//4. write End OF Record
-	endRecord := EndOfRecords{}
-	if err = endRecord.WriteTo(ring.nvm); err != nil {
+	if _, err = ring.nvm.Seek(int64(start), io.SeekStart); err != nil {
+		return
+	}
+	if _, err = ring.nvm.Write(buf.Bytes()); err != nil {
 		return
 	}
 
-	//5. jump to front. GoToFront replaces the EndOfRecords at the old tail only now,
+	//4. jump to front. GoToFront replaces the EndOfRecords at the old tail only now,
 	//when it is on the device the front is already there
 	if overflow {
 		if _, err = ring.nvm.Seek(int64(ring.tail), io.SeekStart); err != nil {
-- 
2.43.0


From 7e9b65238db39b80a4dc419400334d62fe42c1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:16 +0000
Subject: [PATCH 27/50] fix: device errors during a journal GC crashed the
 process or released live entries

The errors of the GC are returned, not panicked with, and the space of the
entries is released only when the header which skips them is written.
---
 storage/journal/region.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/storage/journal/region.go b/storage/journal/region.go
index b541891..fae47ad 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -212,7 +212,9 @@ func (Journal *JournalRegion) isGarbage(index *lumpindex.LumpIndex, entry Journa
 //if the live entry in turn can not be appended again, it stays in the queue
 func (journal *JournalRegion) gcOnce(index *lumpindex.LumpIndex) (err error) {
 	if journal.gcQueue.Len() == 0 && journal.ring.Capacity() < journal.ring.Usage()*2 {
-		journal.fillGCQueue()
+		if err = journal.fillGCQueue(); err != nil {
+			return err
+		}
 	}
 
 	for {
@@ -252,22 +254,28 @@ ENDFOR:
 	return err
 }
 
-func (journal *JournalRegion) writeUnusedJournalHeader(head uint64) {
-	journal.headerRegion.WriteTo(head)
+//the bytes before head are released only when the device does not begin there any more
+func (journal *JournalRegion) writeUnusedJournalHeader(head uint64) error {
+	if err := journal.headerRegion.WriteTo(head); err != nil {
+		return err
+	}
 	journal.ring.ReleaseBytesUntil(head)
+	return nil
 }
 
-func (journal *JournalRegion) fillGCQueue() {
+func (journal *JournalRegion) fillGCQueue() error {
 
 	var err error
 	if journal.ring.isEmpty() {
-		return
+		return nil
 	}
 
 	if err = journal.ring.Flush(); err != nil {
-		panic(fmt.Sprintf("fillGCQueue %+v", err))
+		return errors.Wrap(err, "fillGCQueue")
+	}
+	if err = journal.writeUnusedJournalHeader(journal.ring.head); err != nil {
+		return errors.Wrap(err, "fillGCQueue")
 	}
-	journal.writeUnusedJournalHeader(journal.ring.head)
 
 	var i int
 	i = 0
@@ -279,13 +287,15 @@ func (journal *JournalRegion) fillGCQueue() {
 			break
 		}
 		if err != nil {
-			panic(fmt.Sprintf("Journal failed to read entries %+v", err))
+			//the entries read so far are in the queue, the others stay where they are
+			return errors.Wrap(err, "Journal failed to read entries")
 		}
 		journal.gcQueue.PushBack(entry)
 		i++
 	}
 	//metric
 	ostats.Record(context.Background(), x.JournalRegionMetric.GcQueueSize.M(int64(journal.gcQueue.Len())))
+	return nil
 }
 
 func (journal *JournalRegion) Sync() {
@@ -400,7 +410,9 @@ func (journal *JournalRegion) GcAllEntries(index *lumpindex.LumpIndex) {
 		before_head := journal.ring.Head()
 
 		if journal.gcQueue.Len() == 0 {
-			journal.fillGCQueue()
+			if err := journal.fillGCQueue(); err != nil {
+				return
+			}
 		}
 
 		//the entries left in the queue are still needed, do not release them
-- 
2.43.0


From bfa52f8d49179ae042b63be241b762d8c5079474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:16 +0000
Subject: [PATCH 28/50] fix: the blocks of a lump that could not be written
 were lost until reopening

---
 storage/data_region.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/storage/data_region.go b/storage/data_region.go
index 174e977..866b71f 100644
--- a/storage/data_region.go
+++ b/storage/data_region.go
@@ -86,7 +86,11 @@ func (region *DataRegion) Put(data lump.LumpData) (portion.DataPortion, error) {
 		return portion.DataPortion{}, err
 	}
 
-	return data_portion, region.write(data, data_portion)
+	if err = region.write(data, data_portion); err != nil {
+		region.Release(data_portion)
+		return portion.DataPortion{}, err
+	}
+	return data_portion, nil
 }
 
 //write data as left behind by Put
-- 
2.43.0


From a9e621ef6e3d3e62a7d8a2cd0ac2340f1abe0843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:16 +0000
Subject: [PATCH 29/50] fix: a put that replaces a value in place lost it when
 the device failed

---
 storage/storage.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 60ecca8..1610031 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -518,9 +518,11 @@ func (store *Storage) put(lumpid lump.LumpId, lumpdata lump.LumpData) (updated b
 
 	old, notFound := store.index.Get(lumpid)
 
+	var inPlace portion.DataPortion
 	if full {
 		//no room beside the value stored before, but the new one may fit in its place
-		inPlace, ok := old.(portion.DataPortion)
+		var ok bool
+		inPlace, ok = old.(portion.DataPortion)
 		blocks := store.dataRegion.shiftBlockSize(lumpdata.Inner.Len())
 		if notFound != nil || !ok || blocks > uint32(inPlace.Len) {
 			return
@@ -546,13 +548,19 @@ func (store *Storage) put(lumpid lump.LumpId, lumpdata lump.LumpData) (updated b
 
 		panic("FUCK")
 	}
+	if full {
+		if err = store.dataRegion.write(lumpdata, dataPortion); err != nil {
+			//the value stored before is still there
+			store.jr.Lock()
+			store.journalRegion.RecordPut(store.index, lumpid, inPlace)
+			store.jr.Unlock()
+			return false, err
+		}
+	}
 	if notFound == nil {
 		store.release(old)
 	}
-	if full {
-		err = store.dataRegion.write(lumpdata, dataPortion)
-	}
-	return notFound == nil, err
+	return notFound == nil, nil
 }
 
 //release the blocks of a lump which is no longer in the index
-- 
2.43.0


From a977d0799b788601f4f478b538085e5e00d786f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:41 +0000
Subject: [PATCH 30/50] fix: a data region size beyond the maximum made the
 store unopenable

The header with it was written, and refused by every later opening.
---
 cmd/kanils/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/kanils/main.go b/cmd/kanils/main.go
index e21fab1..d5fc3e5 100644
--- a/cmd/kanils/main.go
+++ b/cmd/kanils/main.go
@@ -65,6 +65,9 @@ func expandDataRegionSize(c *cli.Context) (err error) {
 	if newSize <= header.DataRegionSize {
 		return errors.Errorf("new Size %d is smaller than current size %d", newSize, header.DataRegionSize)
 	}
+	if newSize > storage.MAX_DATA_REGION_SIZE {
+		return errors.Errorf("new Size %d is bigger than the maximum %d", newSize, storage.MAX_DATA_REGION_SIZE)
+	}
 	fmt.Printf("setting new size to %d\n", newSize)
 	header.DataRegionSize = newSize
 
-- 
2.43.0


From 6264b0e687393cb4f43da6b0ad855b697c4cf21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:41 +0000
Subject: [PATCH 31/50] fix: the new data region size was reported as set
 before it was on the device

---
 cmd/kanils/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/kanils/main.go b/cmd/kanils/main.go
index d5fc3e5..2ec4e6f 100644
--- a/cmd/kanils/main.go
+++ b/cmd/kanils/main.go
@@ -85,7 +85,7 @@ func expandDataRegionSize(c *cli.Context) (err error) {
 	if _, err = fileNVM.Write(alignedBufHead.AsBytes()); err != nil {
 		return err
 	}
-	return nil
+	return fileNVM.Sync()
 }
 
 func headerCannyls(c *cli.Context) (err error) {
-- 
2.43.0


From 5d21d916152532e4638fc54519187c83d4ce6b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:33 +0000
Subject: [PATCH 32/50] fix: putting an empty file never ended, and one read in
 pieces was mixed up

---
 cmd/kanils/main.go | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/cmd/kanils/main.go b/cmd/kanils/main.go
index 2ec4e6f..d6b8b44 100644
--- a/cmd/kanils/main.go
+++ b/cmd/kanils/main.go
@@ -349,17 +349,8 @@ func putCannyls(c *cli.Context) (err error) {
 }
 
 func readUpData(r io.Reader, lumpdata lump.LumpData) error {
-	s := lumpdata.AsBytes()
-	for {
-		n, err := r.Read(s)
-		if err == io.EOF {
-			return nil
-		}
-		if err != nil {
-			return err
-		}
-		s = s[:n]
-	}
+	_, err := io.ReadFull(r, lumpdata.AsBytes())
+	return err
 }
 
 func main() {
-- 
2.43.0


From 2b146b9d530fd4da36844a41644610e78a24be94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:36 +0000
Subject: [PATCH 33/50] fix: closing could deadlock with other calls and freed
 the allocator under them

---
 storage/storage.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 1610031..297ec9b 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -505,16 +505,16 @@ func (store *Storage) GetWithOffset(lumpId lump.LumpId, startOffset uint32, leng
 //the value stored before, if any, stays in place until the new one is recorded
 func (store *Storage) put(lumpid lump.LumpId, lumpdata lump.LumpData) (updated bool, err error) {
 	dataPortion, err := store.dataRegion.Put(lumpdata)
-	full := err != nil && errors.Cause(err) == internalerror.StorageFull
-	if err != nil && !full {
-		return
-	}
 
 	store.i.Lock()
 	defer store.i.Unlock()
 	if !store.opened {
 		return false, internalerror.StorageClosed
 	}
+	full := err != nil && errors.Cause(err) == internalerror.StorageFull
+	if err != nil && !full {
+		return
+	}
 
 	old, notFound := store.index.Get(lumpid)
 
@@ -747,10 +747,11 @@ func (store *Storage) journalSync() {
 }
 
 func (store *Storage) Close() {
-	store.jr.Lock()
-	defer store.jr.Unlock()
+	//the same order as everywhere else
 	store.i.Lock()
 	defer store.i.Unlock()
+	store.jr.Lock()
+	defer store.jr.Unlock()
 	if !store.opened {
 		return
 	}
@@ -760,7 +761,10 @@ func (store *Storage) Close() {
 	store.journalSync()
 	store.innerNVM.Close()
 	store.index.Free()
+	//a put may be looking for room
+	store.dataRegion.Lock()
 	store.alloc.Free()
+	store.dataRegion.Unlock()
 }
 
 func (store *Storage) RunSideJobOnce(countSideJob int) {
-- 
2.43.0


From a5c16495fadb7240d9f419368a160d110cc64c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:36 +0000
Subject: [PATCH 34/50] fix: a lump replaced while it was read gave the bytes
 of another one

---
 storage/storage.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 297ec9b..82f5b96 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -411,15 +411,13 @@ func (store *Storage) GetSizeOnDisk(lumpid lump.LumpId) (size uint32, err error)
 
 // Get accurate size of object, require a disk IO
 func (store *Storage) GetSize(lumpid lump.LumpId) (size uint32, err error) {
+	//a lump which is replaced or deleted meanwhile gives its blocks to others
 	store.i.RLock()
+	defer store.i.RUnlock()
 	if !store.opened {
-		store.i.RUnlock()
 		return 0, internalerror.StorageClosed
 	}
 	p, err := store.index.Get(lumpid)
-
-	store.i.RUnlock()
-
 	if err != nil {
 		return 0, err
 	}
@@ -440,13 +438,13 @@ func (store *Storage) GetSize(lumpid lump.LumpId) (size uint32, err error) {
 }
 
 func (store *Storage) Get(lumpid lump.LumpId) ([]byte, error) {
+	//a lump which is replaced or deleted meanwhile gives its blocks to others
 	store.i.RLock()
+	defer store.i.RUnlock()
 	if !store.opened {
-		store.i.RUnlock()
 		return nil, internalerror.StorageClosed
 	}
 	p, err := store.index.Get(lumpid)
-	store.i.RUnlock()
 	if err != nil {
 		return nil, err
 	}
@@ -472,13 +470,13 @@ func (store *Storage) Get(lumpid lump.LumpId) ([]byte, error) {
 }
 
 func (store *Storage) GetWithOffset(lumpId lump.LumpId, startOffset uint32, length uint32) ([]byte, error) {
+	//a lump which is replaced or deleted meanwhile gives its blocks to others
 	store.i.RLock()
+	defer store.i.RUnlock()
 	if !store.opened {
-		store.i.RUnlock()
 		return nil, internalerror.StorageClosed
 	}
 	p, err := store.index.Get(lumpId)
-	store.i.RUnlock()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 79ce6852ac25d422ee224019534e9a1e60d5d5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:39 +0000
Subject: [PATCH 35/50] fix: concurrent partial puts lost each other's bytes or
 replaced a lump

---
 storage/storage.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 82f5b96..ad4c59b 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -500,7 +500,6 @@ func (store *Storage) GetWithOffset(lumpId lump.LumpId, startOffset uint32, leng
 
 }
 
-//the value stored before, if any, stays in place until the new one is recorded
 func (store *Storage) put(lumpid lump.LumpId, lumpdata lump.LumpData) (updated bool, err error) {
 	dataPortion, err := store.dataRegion.Put(lumpdata)
 
@@ -509,9 +508,17 @@ func (store *Storage) put(lumpid lump.LumpId, lumpdata lump.LumpData) (updated b
 	if !store.opened {
 		return false, internalerror.StorageClosed
 	}
+	return store.recordPut(lumpid, lumpdata, dataPortion, err)
+}
+
+//record what dataRegion.Put returned for the lump. The index is locked.
+//the value stored before, if any, stays in place until the new one is recorded
+func (store *Storage) recordPut(lumpid lump.LumpId, lumpdata lump.LumpData,
+	dataPortion portion.DataPortion, err error) (bool, error) {
+
 	full := err != nil && errors.Cause(err) == internalerror.StorageFull
 	if err != nil && !full {
-		return
+		return false, err
 	}
 
 	old, notFound := store.index.Get(lumpid)
@@ -523,7 +530,7 @@ func (store *Storage) put(lumpid lump.LumpId, lumpdata lump.LumpData) (updated b
 		inPlace, ok = old.(portion.DataPortion)
 		blocks := store.dataRegion.shiftBlockSize(lumpdata.Inner.Len())
 		if notFound != nil || !ok || blocks > uint32(inPlace.Len) {
-			return
+			return false, err
 		}
 		dataPortion = portion.NewDataPortion(inPlace.Start.AsU64(), uint16(blocks))
 		old = portion.NewDataPortion(inPlace.Start.AsU64()+uint64(blocks), inPlace.Len-uint16(blocks))
@@ -539,7 +546,7 @@ func (store *Storage) put(lumpid lump.LumpId, lumpdata lump.LumpData) (updated b
 		if !full {
 			store.dataRegion.Release(dataPortion)
 		}
-		return
+		return false, err
 	}
 
 	if int64(lumpdata.Inner.Len()) == 1 {
@@ -603,13 +610,13 @@ func paddingWithZero(payload []byte, startOffset, reservation uint32) []byte {
 func (store *Storage) PutWithOffset(lumpid lump.LumpId, lumpdata lump.LumpData,
 	startOffset uint32, reservation uint32) (err error) {
 
-	store.i.RLock()
+	//the blocks around the payload are read and written back
+	store.i.Lock()
+	defer store.i.Unlock()
 	if !store.opened {
-		store.i.RUnlock()
 		return internalerror.StorageClosed
 	}
 	p, err := store.index.Get(lumpid)
-	store.i.RUnlock()
 	payload := lumpdata.AsBytes()
 
 	if err != nil {
@@ -621,7 +628,8 @@ func (store *Storage) PutWithOffset(lumpid lump.LumpId, lumpdata lump.LumpData,
 		toWrite := paddingWithZero(payload, startOffset, reservation)
 		data := block.FromBytes(toWrite, block.Min())
 		lumpdata = lump.NewLumpDataWithAb(data)
-		_, err = store.put(lumpid, lumpdata)
+		dataPortion, err := store.dataRegion.Put(lumpdata)
+		_, err = store.recordPut(lumpid, lumpdata, dataPortion, err)
 		return err
 	}
 
-- 
2.43.0


From d2859dd3611c76e2ecda8bab5c2955029c47034e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:42 +0000
Subject: [PATCH 36/50] fix: the journal GC mode was switched without its lock

---
 storage/storage.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index ad4c59b..3af9bc9 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -242,6 +242,8 @@ func (store *Storage) Header() nvm.StorageHeader {
 }
 
 func (store *Storage) SetAutomaticGcMode(gc bool) {
+	store.jr.Lock()
+	defer store.jr.Unlock()
 	store.journalRegion.SetAutomaticGcMode(gc)
 }
 
-- 
2.43.0


From b2bfce2066ff0ac996cf94785ec36f0422e5785a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:27 +0000
Subject: [PATCH 37/50] fix: a journal snapshot of a closed store crashed

---
 storage/storage.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index 3af9bc9..0b49428 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -378,6 +378,9 @@ type JournalSnapshot struct {
 func (store *Storage) JournalSnapshot() JournalSnapshot {
 	store.jr.Lock()
 	defer store.jr.Unlock()
+	if !store.opened {
+		return JournalSnapshot{}
+	}
 	unreleasedhead, head, tail, entries := store.journalRegion.JournalEntries()
 	return JournalSnapshot{
 		UnreleasedHead: unreleasedhead,
-- 
2.43.0


From 1d85229b13001ca08ddc72c75d09c89706165204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:47 +0000
Subject: [PATCH 38/50] fix: a put failed for want of the blocks a concurrent
 delete had just released

---
 storage/data_region.go | 6 ++++++
 storage/storage.go     | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/storage/data_region.go b/storage/data_region.go
index 866b71f..b344e20 100644
--- a/storage/data_region.go
+++ b/storage/data_region.go
@@ -76,6 +76,12 @@ func (region *DataRegion) Put(data lump.LumpData) (portion.DataPortion, error) {
 	}
 	util.PutUINT16(data.Inner.AsBytes()[trailer_offset:], uint16(padding_len))
 
+	return region.place(data)
+}
+
+//find room for data as left behind by Put and write it
+//thread-safe
+func (region *DataRegion) place(data lump.LumpData) (portion.DataPortion, error) {
 	requiredBlocks := region.shiftBlockSize(data.Inner.Len())
 
 	region.Lock()
diff --git a/storage/storage.go b/storage/storage.go
index 0b49428..c420473 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -513,6 +513,10 @@ func (store *Storage) put(lumpid lump.LumpId, lumpdata lump.LumpData) (updated b
 	if !store.opened {
 		return false, internalerror.StorageClosed
 	}
+	if err != nil && errors.Cause(err) == internalerror.StorageFull {
+		//a lump may have been deleted or replaced meanwhile
+		dataPortion, err = store.dataRegion.place(lumpdata)
+	}
 	return store.recordPut(lumpid, lumpdata, dataPortion, err)
 }
 
-- 
2.43.0


From cd049cb2ef1727b49c2c924ae1585c5110bcaeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:03 +0000
Subject: [PATCH 39/50] fix: the journal snapshot gave every entry the position
 of the head

---
 storage/journal/ring_buffer.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/storage/journal/ring_buffer.go b/storage/journal/ring_buffer.go
index 52264b4..2206554 100644
--- a/storage/journal/ring_buffer.go
+++ b/storage/journal/ring_buffer.go
@@ -264,11 +264,12 @@ func (iter *BufferedIter) Close() {
 
 /*No buffer and update nothing*/
 type ReadIter struct {
-	ring *JournalRingBuffer
+	ring     *JournalRingBuffer
+	position uint64 //of the next entry
 }
 
 /* No buffer and update nothing */
-func (iter ReadIter) PopFront() (entry JournalEntry, err error) {
+func (iter *ReadIter) PopFront() (entry JournalEntry, err error) {
 	record, err := ReadRecordFrom(iter.ring.nvm)
 	if err != nil {
 		return JournalEntry{}, err
@@ -276,16 +277,17 @@ func (iter ReadIter) PopFront() (entry JournalEntry, err error) {
 	switch record.(type) {
 	case GoToFront:
 		iter.ring.nvm.Seek(0, 0)
+		iter.position = 0
 		return iter.PopFront()
 	case EndOfRecords:
 		//this will not update ring.head
 		return JournalEntry{}, internalerror.NoEntries
 	default:
 		entry = JournalEntry{
-			Start:  address.AddressFromU64(iter.ring.head),
+			Start:  address.AddressFromU64(iter.position),
 			Record: record,
 		}
-		//current = entry.End()
+		iter.position = entry.End()
 		return entry, nil
 	}
 }
@@ -321,12 +323,13 @@ func (ring *JournalRingBuffer) DequeueIter() DequeueIter {
 }
 
 /*No buffer and update nothing*/
-func (ring *JournalRingBuffer) ReadIter() ReadIter {
+func (ring *JournalRingBuffer) ReadIter() *ReadIter {
 	if _, err := ring.nvm.Seek(int64(ring.unreleasedHead), 0); err != nil {
 		panic(fmt.Sprintf("panic in new DequeueIter %+v", err))
 	}
-	return ReadIter{
-		ring: ring,
+	return &ReadIter{
+		ring:     ring,
+		position: ring.unreleasedHead,
 	}
 }
 
-- 
2.43.0


From 5139e39dd841e0780998946cbb4f67eaed870159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:04 +0000
Subject: [PATCH 40/50] fix: the allocation map was read while puts and deletes
 changed the allocator

---
 storage/storage.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/storage/storage.go b/storage/storage.go
index c420473..8b38e53 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -718,9 +718,14 @@ func (store *Storage) Delete(lumpid lump.LumpId) (updated bool, size uint32, err
 
 /*
 return value: len([]float) no more than 12800 points, each point is 4MB
-//thread-UNSAFE
+thread-safe
 */
 func (store *Storage) GetAllocationStatus() []float64 {
+	store.i.RLock()
+	defer store.i.RUnlock()
+	if !store.opened {
+		return nil
+	}
 	//each point represents 4M bytes
 	blockSizeBytes := store.storageHeader.BlockSize.AsU32()
 
@@ -736,6 +741,9 @@ func (store *Storage) GetAllocationStatus() []float64 {
 		total = 12800 * n //max size is 50GB
 	}
 
+	//puts and deletes change the allocator while it is read
+	store.dataRegion.Lock()
+	defer store.dataRegion.Unlock()
 	return store.alloc.GetAllocationBitStatus(n, total)
 }
 
-- 
2.43.0


From 1a14cfda735193d110cb5d53b890675b44e3af48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:45 +0000
Subject: [PATCH 41/50] fix: enlarging a store changed the header its snapshot
 shows

---
 cmd/kanils/main.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/kanils/main.go b/cmd/kanils/main.go
index d6b8b44..6bed705 100644
--- a/cmd/kanils/main.go
+++ b/cmd/kanils/main.go
@@ -56,10 +56,16 @@ func printUsage(usage storage.StorageUsage) {
 func expandDataRegionSize(c *cli.Context) (err error) {
 	path := c.String("storage")
 	paramSize := c.Uint64("size")
-	fileNVM, header, err := nvm.Open(path)
+	file, header, err := nvm.Open(path)
 	if err != nil {
 		return err
 	}
+	//a snapshot keeps the header it was taken with
+	fileNVM, err := nvm.NewSnapshotNVM(file)
+	if err != nil {
+		file.Close()
+		return err
+	}
 	defer fileNVM.Close()
 	newSize := fileNVM.BlockSize().FloorAlign(paramSize)
 	if newSize <= header.DataRegionSize {
-- 
2.43.0


From a2967784c9928af7a87e8f3a7ea7678ebd2cd806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:26 +0000
Subject: [PATCH 42/50] fix: Dump succeeded without the lumps behind one it
 could not read

---
 cmd/kanils/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/kanils/main.go b/cmd/kanils/main.go
index 6bed705..8654afb 100644
--- a/cmd/kanils/main.go
+++ b/cmd/kanils/main.go
@@ -152,7 +152,7 @@ func dumpCannyls(c *cli.Context) (err error) {
 	for _, id := range ids {
 		d, err := store.Get(id)
 		if err != nil {
-			break
+			return err
 		}
 
 		fmt.Printf("%s :%s\n", id.String(), string(d))
-- 
2.43.0


From fd6c28a9a4196b0e15c51eda84e2814bdc35b0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:17 +0000
Subject: [PATCH 43/50] fix: lumps in buffers aligned to more than 512 bytes
 had padding read as data, and the largest crashed the store

---
 storage/data_region.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/storage/data_region.go b/storage/data_region.go
index b344e20..7100a8f 100644
--- a/storage/data_region.go
+++ b/storage/data_region.go
@@ -63,6 +63,11 @@ func (region *DataRegion) Put(data lump.LumpData) (portion.DataPortion, error) {
 		return portion.DataPortion{}, errors.Wrap(internalerror.InvalidInput, "lump is too big")
 	}
 
+	if data.Inner.BlockSize() != region.block_size {
+		//the padding is shorter than a block of the region, everything else relies on it
+		*data.Inner = *block.FromBytes(data.AsBytes(), region.block_size)
+	}
+
 	size := data.Inner.Len() + LUMP_DATA_TRAILER_SIZE
 
 	//Aligned
-- 
2.43.0


From 878a3c792eb86bc43fc64d8b95b9450327ae008f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:17 +0000
Subject: [PATCH 44/50] fix: a lump whose padding is damaged was read as one of
 up to 4 GB

---
 storage/data_region.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/storage/data_region.go b/storage/data_region.go
index 7100a8f..5983c7e 100644
--- a/storage/data_region.go
+++ b/storage/data_region.go
@@ -247,8 +247,11 @@ func (region *DataRegion) GetSize(dataPortion portion.DataPortion) (size uint32,
 		return 0, err
 	}
 	paddingSize := uint32(util.GetUINT16(buf[region.block_size-2:]))
-	size = uint32(dataPortion.Len)*uint32(region.block_size) -
-		paddingSize - LUMP_DATA_TRAILER_SIZE
+	onDiskSize := uint32(dataPortion.Len) * uint32(region.block_size)
+	if paddingSize+LUMP_DATA_TRAILER_SIZE > onDiskSize {
+		return 0, errors.Wrap(internalerror.StorageCorrupted, "padding of the lump is too big")
+	}
+	size = onDiskSize - paddingSize - LUMP_DATA_TRAILER_SIZE
 
 	ostats.Record(context.Background(), x.DataRegionMetric.WriteBytes.M(int64(region.block_size)))
 	ostats.Record(context.Background(), x.DataRegionMetric.Writes.M(1))
@@ -276,6 +279,9 @@ func (region *DataRegion) Get(dataPortion portion.DataPortion) (lump.LumpData, e
 		return lump.LumpData{}, err
 	}
 	paddingSize := uint32(util.GetUINT16(ab.AsBytes()[ab.Len()-2:]))
+	if paddingSize+LUMP_DATA_TRAILER_SIZE > ab.Len() {
+		return lump.LumpData{}, errors.Wrap(internalerror.StorageCorrupted, "padding of the lump is too big")
+	}
 
 	ab.Resize(ab.Len() - paddingSize - LUMP_DATA_TRAILER_SIZE)
 
-- 
2.43.0


From 7db107e27f31056dcd3df692137ebf6e6052361b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:32 +0000
Subject: [PATCH 45/50] fix: a power failure while a region was copied to a
 reopened snapshot made the store unopenable

---
 nvm/snapnvm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 554c5dd..a29cc3b 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -469,7 +469,8 @@ func CreateBackingFile(prefix string, maxCapacity uint64, currentCapacity uint64
 }
 
 func OpenBackingFile(fileName string) (*BackingFile, error) {
-	file, err := os.OpenFile(fileName, os.O_RDWR, 0755)
+	//an entry has to be on the device before its region, as in CreateBackingFile
+	file, err := os.OpenFile(fileName, os.O_SYNC|os.O_RDWR, 0755)
 	if err != nil {
 		return nil, errors.Wrapf(internalerror.InvalidInput, "failed to open backfile %v", fileName)
 	}
-- 
2.43.0


From 92e32e170a2d2f63c5ebce356fd60838a96785db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:36 +0000
Subject: [PATCH 46/50] fix: a power failure after the journal GC or the jump
 to the front lost synced lumps or made the store unopenable

---
 storage/journal/journal_header_region.go | 8 +++-----
 storage/journal/region.go                | 6 ++++--
 storage/journal/ring_buffer.go           | 5 ++++-
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/storage/journal/journal_header_region.go b/storage/journal/journal_header_region.go
index e083a76..1d20102 100644
--- a/storage/journal/journal_header_region.go
+++ b/storage/journal/journal_header_region.go
@@ -32,11 +32,9 @@ func (headerRegion *JournalHeaderRegion) WriteTo(head uint64) (err error) {
 		return
 	}
 
-	return nil
-	//if storage crashed, and the headerRegion did not SYNC to disk.
-	//the data consistence is still ensure. we could restore data from
-	//the last headerRegion.
-	//return headerRegion.nvm.Sync()
+	//the bytes before head are going to be written again: after a power failure
+	//the last headerRegion must not be there any more
+	return headerRegion.nvm.Sync()
 }
 
 func (headerRegion *JournalHeaderRegion) ReadFrom() (head uint64, err error) {
diff --git a/storage/journal/region.go b/storage/journal/region.go
index fae47ad..3dc6a41 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -270,7 +270,9 @@ func (journal *JournalRegion) fillGCQueue() error {
 		return nil
 	}
 
-	if err = journal.ring.Flush(); err != nil {
+	//the entries appended again must survive when the device does not begin
+	//with the old ones any more
+	if err = journal.ring.Sync(); err != nil {
 		return errors.Wrap(err, "fillGCQueue")
 	}
 	if err = journal.writeUnusedJournalHeader(journal.ring.head); err != nil {
@@ -425,7 +427,7 @@ func (journal *JournalRegion) GcAllEntries(index *lumpindex.LumpIndex) {
 		}
 	}
 	//the entries appended again must be on the device before the old ones are released
-	if err := journal.ring.Flush(); err != nil {
+	if err := journal.ring.Sync(); err != nil {
 		return
 	}
 	journal.writeUnusedJournalHeader(journal.ring.Head())
diff --git a/storage/journal/ring_buffer.go b/storage/journal/ring_buffer.go
index 2206554..25c793c 100644
--- a/storage/journal/ring_buffer.go
+++ b/storage/journal/ring_buffer.go
@@ -127,8 +127,11 @@ func (ring *JournalRingBuffer) Enqueue(record JournalRecord) (jportion portion.J
 	}
 
 	//4. jump to front. GoToFront replaces the EndOfRecords at the old tail only now,
-	//when it is on the device the front is already there
+	//when it is on the device the front is already there, and stays there
 	if overflow {
+		if err = ring.nvm.Sync(); err != nil {
+			return
+		}
 		if _, err = ring.nvm.Seek(int64(ring.tail), io.SeekStart); err != nil {
 			return
 		}
-- 
2.43.0


From f8d472c08b5f5bf21d392f7a902ec4da8c6bd09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:03 +0000
Subject: [PATCH 47/50] fix: of two who create a store at the same moment the
 second overwrote the first one's

---
 nvm/file.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nvm/file.go b/nvm/file.go
index 9f7b0d4..376b9f6 100644
--- a/nvm/file.go
+++ b/nvm/file.go
@@ -45,7 +45,8 @@ func CreateIfAbsent(path string, capacity uint64) (*FileNVM, error) {
 	var flags int
 	var f *os.File
 	var err error
-	flags = os.O_CREATE | os.O_RDWR
+	//of several creators only one makes the file, the others must not write to it
+	flags = os.O_CREATE | os.O_EXCL | os.O_RDWR
 
 	if f, err = openFileWithDirectIO(path, flags, 0755); err != nil {
 		return nil, errors.Wrapf(err, "failed to open file %s\n", path)
-- 
2.43.0


From 19958c9f6d96be191c66062f15aba787675fdde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:30 +0000
Subject: [PATCH 48/50] fix: a store enlarged while it was being opened was
 used with its old size

---
 nvm/file.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/nvm/file.go b/nvm/file.go
index 376b9f6..7ccec30 100644
--- a/nvm/file.go
+++ b/nvm/file.go
@@ -103,28 +103,30 @@ func Open(path string) (nvm *FileNVM, header *StorageHeader, err error) {
 		return nil, nil, internalerror.InvalidInput
 	}
 
-	if parsedFile, err = os.OpenFile(path, os.O_RDWR, 0755); err != nil {
+	//another process may change the header until the file is locked
+	if f, err = openFileWithDirectIO(path, os.O_RDWR, 0755); err != nil {
 		return nil, nil, err
 	}
-	//read the first sector
-	if header, err = ReadFromFile(parsedFile); err != nil {
-		parsedFile.Close()
+
+	if err = lockFileWithExclusiveLock(f); err != nil {
+		f.Close()
 		return nil, nil, err
 	}
 
-	capacity := header.StorageSize()
-
-	//reopen the file
-	parsedFile.Close()
-
-	if f, err = openFileWithDirectIO(path, os.O_RDWR, 0755); err != nil {
+	if parsedFile, err = os.OpenFile(path, os.O_RDWR, 0755); err != nil {
+		f.Close()
 		return nil, nil, err
 	}
-
-	if err = lockFileWithExclusiveLock(f); err != nil {
+	//read the first sector
+	header, err = ReadFromFile(parsedFile)
+	parsedFile.Close()
+	if err != nil {
 		f.Close()
 		return nil, nil, err
 	}
+
+	capacity := header.StorageSize()
+
 	err = nil
 	nvm = &FileNVM{
 		file:            f,
-- 
2.43.0


From 439b42b8f6649552a4bc8682fd4be13dbe044c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:58 +0000
Subject: [PATCH 49/50] fix: the HTTP service crashed when the snapshot for a
 backup could not be taken

---
 cmd/readup/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/readup/main.go b/cmd/readup/main.go
index 050a128..944e992 100644
--- a/cmd/readup/main.go
+++ b/cmd/readup/main.go
@@ -291,6 +291,10 @@ func ServeStore(store *storage.Storage) {
 			}()
 
 			reader, err := store.GetSnapshotReader()
+			if err != nil {
+				fmt.Printf("backup failed: %+v\n", err)
+				return
+			}
 			fileName := time.Now().Format(time.RFC3339) + "_backup.lusf"
 			backfile, err := os.OpenFile(fileName, os.O_CREATE|os.O_RDWR, 0644)
 			if err != nil {
-- 
2.43.0


From 455d1f450e8e2f2daf54002ea723b5c31e036da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:01 +0000
Subject: [PATCH 50/50] fix: a second backup ran along with the first one and
 lost its snapshot

---
 cmd/readup/main.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/readup/main.go b/cmd/readup/main.go
index 944e992..c849973 100644
--- a/cmd/readup/main.go
+++ b/cmd/readup/main.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"strconv"
+	"sync/atomic"
 
 	"io"
 	"os"
@@ -36,7 +37,7 @@ func favicon(w http.ResponseWriter, r *http.Request) {
 
 //Based on https://medium.com/@cep21/how-to-correctly-use-context-context-in-go-1-7-8f2c0fafdf39
 
-var backupRuning bool = false
+var backupRuning int32 //1 while a backup is running
 
 //put
 type PutRequest struct {
@@ -278,7 +279,7 @@ func ServeStore(store *storage.Storage) {
 			return
 		}
 
-		if backupRuning {
+		if !atomic.CompareAndSwapInt32(&backupRuning, 0, 1) {
 			c.String(http.StatusCreated, "backup is running")
 			return
 		}
@@ -287,7 +288,7 @@ func ServeStore(store *storage.Storage) {
 		backupStopper.RunWorker(func() {
 			//open backup file, name is start time
 			defer func() {
-				backupRuning = false
+				atomic.StoreInt32(&backupRuning, 0)
 			}()
 
 			reader, err := store.GetSnapshotReader()
-- 
2.43.0

