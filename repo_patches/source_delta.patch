From 72735ab3571e5729e5487df08cfb2595ae3fc08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:21 +0000
Subject: [PATCH 01/28] fix: keep the encryption flag of the database info
 header in its own byte

It was written to byte 12 and overwritten by the sequence, and read from byte 7
(the version), so every database was opened as an encrypted one.
---
 db_info.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db_info.go b/db_info.go
index ba56ab4..32ee9f0 100644
--- a/db_info.go
+++ b/db_info.go
@@ -43,7 +43,7 @@ func (inf _DBInfo) MarshalBinary() ([]byte, error) {
 	buf := make([]byte, fixed)
 	copy(buf[:7], inf.header.signature[:])
 	binary.LittleEndian.PutUint32(buf[7:11], inf.header.version)
-	buf[12] = uint8(inf.encryption)
+	buf[11] = uint8(inf.encryption)
 	binary.LittleEndian.PutUint64(buf[12:20], inf.sequence)
 	binary.LittleEndian.PutUint64(buf[20:28], inf.count)
 
@@ -54,7 +54,7 @@ func (inf _DBInfo) MarshalBinary() ([]byte, error) {
 func (inf *_DBInfo) UnmarshalBinary(data []byte) error {
 	copy(inf.header.signature[:], data[:7])
 	inf.header.version = binary.LittleEndian.Uint32(data[7:11])
-	inf.encryption = int8(data[7])
+	inf.encryption = int8(data[11])
 	inf.sequence = binary.LittleEndian.Uint64(data[12:20])
 	inf.count = binary.LittleEndian.Uint64(data[20:28])
 
-- 
2.43.0


From 60ac0f1c48bd80b57be1c4afa4a555d7b642e2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:06 +0000
Subject: [PATCH 02/28] fix: compute block file offsets in 64 bits

The product block size * block number was computed in 32 bits and wrapped from
block 524288 on, so later blocks overwrote earlier ones.
---
 block.go              |  2 +-
 block_writer.go       |  2 +-
 time_window.go        |  2 +-
 time_window_writer.go | 10 +++++-----
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/block.go b/block.go
index 4946422..232df9b 100644
--- a/block.go
+++ b/block.go
@@ -52,7 +52,7 @@ func blockOffset(idx int32) int64 {
 	if idx == -1 {
 		return int64(0)
 	}
-	return int64(blockSize * idx)
+	return int64(blockSize) * int64(idx)
 }
 
 func (e _IndexEntry) mSize() uint32 {
diff --git a/block_writer.go b/block_writer.go
index 8dd0d99..c004b2b 100644
--- a/block_writer.go
+++ b/block_writer.go
@@ -51,7 +51,7 @@ func newBlockWriter(fs *_FileSet, lease *_Lease, buf *bpool.Buffer) (*_BlockWrit
 	if w.indexOffset > 0 {
 		w.blockIdx = int32(w.indexOffset / int64(blockSize))
 		// read final block from index file.
-		if w.indexOffset > int64(w.blockIdx*blockSize) {
+		if w.indexOffset > blockOffset(w.blockIdx) {
 			r := _BlockReader{indexFile: w.indexFile, offset: blockOffset(w.blockIdx)}
 			b, err := r.readIndexBlock()
 			if err != nil {
diff --git a/time_window.go b/time_window.go
index a7eeb4c..aee731b 100644
--- a/time_window.go
+++ b/time_window.go
@@ -101,7 +101,7 @@ func (b *_WinBlock) unmarshalBinary(data []byte) error {
 }
 
 func winBlockOffset(idx int32) int64 {
-	return int64(blockSize * idx)
+	return int64(blockSize) * int64(idx)
 }
 
 type (
diff --git a/time_window_writer.go b/time_window_writer.go
index d836dc0..51961ea 100644
--- a/time_window_writer.go
+++ b/time_window_writer.go
@@ -109,7 +109,7 @@ func (w *_WindowWriter) append(topicHash uint64, off int64, wEntries _WindowEntr
 		}
 		if b.entryIdx == entriesPerWindowBlock {
 			topicHash := b.topicHash
-			next := int64(blockSize * wIdx)
+			next := winBlockOffset(wIdx)
 			// set approximate cutoff on winBlock.
 			b.cutoffTime = time.Now().Unix()
 			w.winBlocks[wIdx] = b
@@ -126,7 +126,7 @@ func (w *_WindowWriter) append(topicHash uint64, off int64, wEntries _WindowEntr
 	}
 	w.winBlocks[wIdx] = b
 
-	return int64(blockSize * wIdx), nil
+	return winBlockOffset(wIdx), nil
 }
 
 func (w *_WindowWriter) write() error {
@@ -134,7 +134,7 @@ func (w *_WindowWriter) write() error {
 		if !b.leased || !b.dirty {
 			continue
 		}
-		off := int64(blockSize * bIdx)
+		off := winBlockOffset(bIdx)
 		if _, err := w.winFile.WriteAt(b.marshalBinary(), off); err != nil {
 			return err
 		}
@@ -162,7 +162,7 @@ func (w *_WindowWriter) write() error {
 	for _, blocks := range winBlocks {
 		if len(blocks) == 1 {
 			bIdx := blocks[0]
-			off := int64(blockSize * bIdx)
+			off := winBlockOffset(bIdx)
 			b := w.winBlocks[bIdx]
 			buf := b.marshalBinary()
 			if _, err := w.winFile.WriteAt(buf, off); err != nil {
@@ -173,7 +173,7 @@ func (w *_WindowWriter) write() error {
 			// fmt.Println("timeWindow.write: topicHash, seq ", b.topicHash, b.entries[0])
 			continue
 		}
-		blockOff := int64(blockSize * blocks[0])
+		blockOff := winBlockOffset(blocks[0])
 		for bIdx := blocks[0]; bIdx <= blocks[1]; bIdx++ {
 			b := w.winBlocks[bIdx]
 			w.buffer.Write(b.marshalBinary())
-- 
2.43.0


From 17e09b8386a548f077973cc27e6a36304cd0fcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:01 +0000
Subject: [PATCH 03/28] fix: keep a free block at offset 0 when the free list
 is reloaded

---
 leasing.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/leasing.go b/leasing.go
index 6a429d8..577ee6a 100644
--- a/leasing.go
+++ b/leasing.go
@@ -94,9 +94,7 @@ func (b *_FreeBlocks) UnmarshalBinary(data []byte, size uint32) error {
 		// _ = data[12] // bounds check hint to compiler; see golang.org/issue/14808.
 		blockOff := int64(binary.LittleEndian.Uint64(data[:8]))
 		blockSize := binary.LittleEndian.Uint32(data[8:12])
-		if blockOff != 0 {
-			b.fb = append(b.fb, _FreeBlock{size: blockSize, offset: blockOff})
-		}
+		b.fb = append(b.fb, _FreeBlock{size: blockSize, offset: blockOff})
 		data = data[12:]
 	}
 	return nil
@@ -161,6 +159,9 @@ func (l *_Lease) freeBlock(off int64, size uint32) {
 	fbs := l.freeBlocks(uint64(off))
 	fbs.Lock()
 	defer fbs.Unlock()
+	if size == 0 {
+		return
+	}
 	// Verify that block is not already free.
 	if fbs.cache[off] {
 		return
-- 
2.43.0


From df2027538c68424e63990b0bec28846e13c64c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:03 +0000
Subject: [PATCH 04/28] fix: drop merged free blocks from the list when
 defragmenting

---
 leasing.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/leasing.go b/leasing.go
index 577ee6a..838138f 100644
--- a/leasing.go
+++ b/leasing.go
@@ -19,6 +19,7 @@ package unitdb
 import (
 	"encoding/binary"
 	"io"
+	"math"
 	"sort"
 	"sync"
 
@@ -132,7 +133,7 @@ func (b *_FreeBlocks) defrag() {
 	curOff := b.fb[0].offset
 	curSize := b.fb[0].size
 	for i := 1; i < l; i++ {
-		if curOff+int64(curSize) == b.fb[i].offset {
+		if curOff+int64(curSize) == b.fb[i].offset && uint64(curSize)+uint64(b.fb[i].size) <= math.MaxUint32 {
 			curSize += b.fb[i].size
 			delete(b.cache, b.fb[i].offset)
 		} else {
@@ -145,7 +146,7 @@ func (b *_FreeBlocks) defrag() {
 	sort.Slice(merged, func(i, j int) bool {
 		return merged[i].size < merged[j].size
 	})
-	copy(b.fb[:l], merged)
+	b.fb = merged
 }
 
 func (l *_Lease) defrag() {
-- 
2.43.0


From 4ddc90f1ef853e92a805297e850979c08e3273de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:48 +0000
Subject: [PATCH 05/28] fix: encrypt payloads shorter than the epoch and keep
 the source bytes when decrypting

---
 crypto/mac.go | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/crypto/mac.go b/crypto/mac.go
index c70d0f6..d33efc5 100644
--- a/crypto/mac.go
+++ b/crypto/mac.go
@@ -79,15 +79,30 @@ func Signature(value uint32) []byte {
 	return sig
 }
 
+// shortMessage is the additional data of messages shorter than the epoch,
+// those are sealed as a whole.
+var shortMessage = []byte("short")
+
+// nonce returns nonce of the message for the given header.
+func (m *MAC) nonce(header []byte) []byte {
+	nonce := make([]byte, 0, len(m.salt)+MessageOffset)
+	nonce = append(nonce, m.salt...)
+	return append(nonce, header...)
+}
+
 // Encrypt encrypts src and appends to dst, returning the
 // resulting byte slice
 func (m *MAC) Encrypt(dst, src []byte) []byte {
 	//Copy first 4 bytes epoch from source
-	dst = append(dst, src[:EpochSize]...)
+	header := make([]byte, EpochSize, MessageOffset)
+	copy(header, src)
 	h := hash.New(src)
-	dst = append(dst, Signature(h)...)
-	nonce := append(m.salt, dst[:MessageOffset]...)
-	return m.parent.Seal(dst, nonce, src[EpochSize:], nil)
+	header = append(header, Signature(h)...)
+	dst = append(dst, header...)
+	if len(src) < EpochSize {
+		return m.parent.Seal(dst, m.nonce(header), src, shortMessage)
+	}
+	return m.parent.Seal(dst, m.nonce(header), src[EpochSize:], nil)
 }
 
 // Decrypt decrypts src and appends to dst, returning the
@@ -95,16 +110,21 @@ func (m *MAC) Encrypt(dst, src []byte) []byte {
 // authenticated.
 func (m *MAC) Decrypt(dst, src []byte) ([]byte, error) {
 
-	if len(src) < m.Overhead() {
+	if len(src) < MessageOffset+m.parent.Overhead() {
 		return dst, errors.New("Authentication failed.")
 	}
 
-	nonce := append(m.salt, src[:MessageOffset]...)
-	dst, err := m.parent.Open(dst, nonce, src[MessageOffset:], nil)
+	header := src[:MessageOffset]
+	epoch := header[:EpochSize]
+	msg, err := m.parent.Open(nil, m.nonce(header), src[MessageOffset:], nil)
+	if err != nil && len(src) < m.Overhead()+MessageOffset {
+		epoch = nil
+		msg, err = m.parent.Open(nil, m.nonce(header), src[MessageOffset:], shortMessage)
+	}
 	if err != nil {
 		return dst, errors.New("Authentication failed.")
 	}
 	// Append epoch to dst at the beginning
-	dst = append(src[:EpochSize], dst...)
-	return dst, nil
+	dst = append(dst, epoch...)
+	return append(dst, msg...), nil
 }
-- 
2.43.0


From 2c42bdc3622d667029fe4acbe34aa6f1789ff5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:42 +0000
Subject: [PATCH 06/28] fix: initialize places and successors of initially
 unused blocks in consistent hash

---
 hash/consistent.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hash/consistent.go b/hash/consistent.go
index fa3299f..3ee808a 100644
--- a/hash/consistent.go
+++ b/hash/consistent.go
@@ -41,8 +41,8 @@ func InitConsistent(blocks, used int) *Consistent {
 		R: make([]uint16, blocks-used, blocks),
 		N: uint16(used),
 	}
-	for b := uint16(0); b < uint16(used); b++ {
-		c.K[b], c.W[b], c.L[b] = b, b, b
+	for b := range c.K {
+		c.K[b], c.W[b], c.L[b] = uint16(b), uint16(b), uint16(b)
 	}
 	for b, r := uint16(blocks)-1, 0; b >= uint16(used); b, r = b-1, r+1 {
 		c.A[b], c.R[r] = b, b
-- 
2.43.0


From 52b75d87ae6e9ddb2b1d544d7c610af57702a32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:12 +0000
Subject: [PATCH 07/28] fix: refuse an empty topic in ParseKey instead of
 panicking

---
 server/internal/message/security/key.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server/internal/message/security/key.go b/server/internal/message/security/key.go
index 6e081c7..0dd4c75 100644
--- a/server/internal/message/security/key.go
+++ b/server/internal/message/security/key.go
@@ -101,7 +101,11 @@ func ParseKey(text string) (topic *Topic) {
 	var fn splitFunc
 
 	parts := strings.FieldsFunc(text, fn.splitKey)
-	if parts == nil || len(parts) < 2 {
+	if len(parts) == 0 {
+		topic.TopicType = TopicInvalid
+		return topic
+	}
+	if len(parts) < 2 {
 		// topic.TopicType = TopicInvalid
 		topic.Topic = parts[0]
 		topic.Size = len(parts[0])
-- 
2.43.0


From fc6715a4f6e897439c0a84f1c3a05589cb744867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 08/28] fix: keep the source bytes when decrypting in the
 server's MAC

---
 server/internal/pkg/crypto/mac.go | 40 +++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/server/internal/pkg/crypto/mac.go b/server/internal/pkg/crypto/mac.go
index 4b62bdb..88afb74 100644
--- a/server/internal/pkg/crypto/mac.go
+++ b/server/internal/pkg/crypto/mac.go
@@ -74,15 +74,30 @@ func Signature(value uint32) []byte {
 	return sig
 }
 
+// shortMessage is the additional data of messages shorter than the epoch,
+// those are sealed as a whole.
+var shortMessage = []byte("short")
+
+// nonce returns nonce of the message for the given header.
+func (m *MAC) nonce(header []byte) []byte {
+	nonce := make([]byte, 0, len(m.salt)+MessageOffset)
+	nonce = append(nonce, m.salt...)
+	return append(nonce, header...)
+}
+
 // Encrypt encrypts src and appends to dst, returning the
 // resulting byte slice
 func (m *MAC) Encrypt(dst, src []byte) []byte {
 	//Copy first 4 bytes epoch from source
-	dst = append(dst, src[:EpochSize]...)
+	header := make([]byte, EpochSize, MessageOffset)
+	copy(header, src)
 	h := hash.New(src)
-	dst = append(dst, Signature(h)...)
-	nonce := append(m.salt, dst[:MessageOffset]...)
-	return m.parent.Seal(dst, nonce, src[EpochSize:], nil)
+	header = append(header, Signature(h)...)
+	dst = append(dst, header...)
+	if len(src) < EpochSize {
+		return m.parent.Seal(dst, m.nonce(header), src, shortMessage)
+	}
+	return m.parent.Seal(dst, m.nonce(header), src[EpochSize:], nil)
 }
 
 // Decrypt decrypts src and appends to dst, returning the
@@ -90,16 +105,21 @@ func (m *MAC) Encrypt(dst, src []byte) []byte {
 // authenticated.
 func (m *MAC) Decrypt(dst, src []byte) ([]byte, error) {
 
-	if len(src) < m.Overhead() {
+	if len(src) < MessageOffset+m.parent.Overhead() {
 		return dst, errors.New("Authentication failed.")
 	}
 
-	nonce := append(m.salt, src[:MessageOffset]...)
-	dst, err := m.parent.Open(dst, nonce, src[MessageOffset:], nil)
+	header := src[:MessageOffset]
+	epoch := header[:EpochSize]
+	msg, err := m.parent.Open(nil, m.nonce(header), src[MessageOffset:], nil)
+	if err != nil && len(src) < m.Overhead()+MessageOffset {
+		epoch = nil
+		msg, err = m.parent.Open(nil, m.nonce(header), src[MessageOffset:], shortMessage)
+	}
 	if err != nil {
 		return dst, errors.New("Authentication failed.")
 	}
-	// Append epoch to dst at the begining
-	dst = append(src[:EpochSize], dst...)
-	return dst, nil
+	// Append epoch to dst at the beginning
+	dst = append(dst, epoch...)
+	return append(dst, msg...), nil
 }
-- 
2.43.0


From ae814b66546096e08214c8c351259036bff7cb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:32 +0000
Subject: [PATCH 09/28] fix: persist the deletion of an index entry and free
 the range it occupied

---
 block_writer.go | 13 ++++++++-----
 db_internal.go  |  3 +++
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/block_writer.go b/block_writer.go
index c004b2b..c001c6e 100644
--- a/block_writer.go
+++ b/block_writer.go
@@ -82,7 +82,7 @@ func (w *_BlockWriter) extend(upperSeq uint64) (int64, error) {
 func (w *_BlockWriter) del(seq uint64) (_IndexEntry, error) {
 	var delEntry _IndexEntry
 	bIdx := blockIndex(seq)
-	if bIdx > w.blockIdx {
+	if blockOffset(bIdx) >= w.indexFile.currSize() {
 		return delEntry, nil // no entry in db to delete
 	}
 	r := _BlockReader{indexFile: w.indexFile, offset: blockOffset(bIdx)}
@@ -94,7 +94,9 @@ func (w *_BlockWriter) del(seq uint64) (_IndexEntry, error) {
 	for i := 0; i < int(b.entryIdx); i++ {
 		e := b.entries[i]
 		if e.seq == seq { //record exist in db
-			entryIdx = i
+			if e.msgOffset != -1 {
+				entryIdx = i
+			}
 			break
 		}
 	}
@@ -102,9 +104,10 @@ func (w *_BlockWriter) del(seq uint64) (_IndexEntry, error) {
 		return delEntry, nil // no entry in db to delete
 	}
 	delEntry = b.entries[entryIdx]
-	delEntry.msgOffset = -1
-	b.entries[entryIdx] = delEntry
-	b.dirty = true
+	b.entries[entryIdx].msgOffset = -1
+	if _, err := w.indexFile.WriteAt(b.marshalBinary(), blockOffset(bIdx)); err != nil {
+		return _IndexEntry{}, err
+	}
 	w.indexBlocks[bIdx] = b
 
 	return delEntry, nil
diff --git a/db_internal.go b/db_internal.go
index 8b59f82..6b91ef3 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -334,6 +334,9 @@ func (db *DB) delete(topicHash, seq uint64) error {
 	if err != nil {
 		return err
 	}
+	if e.seq == 0 {
+		return nil // message is not stored
+	}
 	db.internal.freeList.freeBlock(e.msgOffset, e.mSize())
 	db.decount(1)
 	if db.internal.syncWrites {
-- 
2.43.0


From 74119b404d5109177ce87cca604da96970947002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:07 +0000
Subject: [PATCH 10/28] fix: return the most recent window entries up to the
 limit from memory and from every linked block

---
 time_window.go | 56 +++++++++++++++++---------------------------------
 1 file changed, 19 insertions(+), 37 deletions(-)

diff --git a/time_window.go b/time_window.go
index aee731b..0de1b72 100644
--- a/time_window.go
+++ b/time_window.go
@@ -19,6 +19,7 @@ package unitdb
 import (
 	"encoding/binary"
 	"fmt"
+	"sort"
 	"sync"
 	"time"
 
@@ -223,31 +224,30 @@ func (tw *_TimeWindowBucket) ilookup(topicHash uint64, limit int) (winEntries _W
 	b := tw.windowBlocks.getWindowBlock(topicHash)
 	b.mu.RLock()
 	defer b.mu.RUnlock()
-	var l int
-	var expiryCount int
 
+	// entries are added to the most recent time blocks last.
+	var keys []_Key
 	for key := range b.entries {
-		if key.topicHash != topicHash {
-			continue
+		if key.topicHash == topicHash {
+			keys = append(keys, key)
 		}
+	}
+	sort.Slice(keys[:], func(i, j int) bool { return keys[i].timeID > keys[j].timeID })
+	for _, key := range keys {
 		wEntries := b.entries[key]
-		if len(wEntries) > 0 {
-			l = limit + expiryCount - l
-			if len(wEntries) < l {
-				l = len(wEntries)
+		for i := len(wEntries) - 1; i >= 0; i-- {
+			if len(winEntries) >= limit {
+				return winEntries
 			}
-			for i := len(wEntries) - 1; i >= len(wEntries)-l; i-- {
-				we := wEntries[i]
-				if we.isExpired() {
-					if err := tw.expiryWindowBucket.addExpiry(we); err != nil {
-						expiryCount++
-						logger.Error().Err(err).Str("context", "timeWindow.addExpiry")
-					}
-					// if id is expired it does not return an error but continue the iteration.
-					continue
+			we := wEntries[i]
+			if we.isExpired() {
+				if err := tw.expiryWindowBucket.addExpiry(we); err != nil {
+					logger.Error().Err(err).Str("context", "timeWindow.addExpiry")
 				}
-				winEntries = append(winEntries, we)
+				// if id is expired it does not return an error but continue the iteration.
+				continue
 			}
+			winEntries = append(winEntries, we)
 		}
 	}
 	return winEntries
@@ -280,42 +280,24 @@ func (tw *_TimeWindowBucket) lookup(fs *_FileSet, topicHash uint64, off, cutoff
 			blockOff = b.next
 		}
 	}
-	expiryCount := 0
 	err = next(off, func(curb _WinBlock) (bool, error) {
 		b := &curb
 		if b.topicHash != topicHash {
 			return true, nil
 		}
-		if len(winEntries) > limit-int(b.entryIdx) {
-			limit = limit - len(winEntries)
-			for i := len(b.entries[:b.entryIdx]) - 1; i >= len(b.entries[:b.entryIdx])-limit; i-- {
-				we := b.entries[i]
-				if we.isExpired() {
-					if err := tw.expiryWindowBucket.addExpiry(we); err != nil {
-						expiryCount++
-						logger.Error().Err(err).Str("context", "timeWindow.addExpiry")
-					}
-					// if id is expired it does not return an error but continue the iteration.
-					continue
-				}
-				winEntries = append(winEntries, we)
-			}
+		for i := len(b.entries[:b.entryIdx]) - 1; i >= 0; i-- {
 			if len(winEntries) >= limit {
 				return true, nil
 			}
-		}
-		for i := len(b.entries[:b.entryIdx]) - 1; i >= 0; i-- {
 			we := b.entries[i]
 			if we.isExpired() {
 				if err := tw.expiryWindowBucket.addExpiry(we); err != nil {
-					expiryCount++
 					logger.Error().Err(err).Str("context", "timeWindow.addExpiry")
 				}
 				// if id is expired it does not return an error but continue the iteration.
 				continue
 			}
 			winEntries = append(winEntries, we)
-
 		}
 		if b.cutoff(cutoff) {
 			return true, nil
-- 
2.43.0


From ac0819b2084fd741f21f6012ce3610da2c5cc2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:07 +0000
Subject: [PATCH 11/28] fix: link window blocks of a topic across syncs and
 load the last one on open

A window block at offset 0 could not be told from no block, so the first
topic lost its earlier entries; open loaded the oldest block of a topic and
lost the topic if its first entry did not carry it.
---
 db_internal.go        | 45 +++++++++++++++++++++++++------------------
 time_window_reader.go |  6 +++---
 time_window_writer.go |  7 ++++---
 3 files changed, 33 insertions(+), 25 deletions(-)

diff --git a/db_internal.go b/db_internal.go
index 6b91ef3..9c33b11 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -167,25 +167,32 @@ func (db *DB) close() error {
 // loadTopicHash loads topic and offset from window blocks on stored on disk.
 func (db *DB) loadTrie() error {
 	r := newWindowReader(db.fs)
-	err := r.blockIterator(func(startSeq, topicHash uint64, off int64) (bool, error) {
-		e, err := db.internal.reader.readEntry(startSeq)
-		if err != nil {
-			return true, err
-		}
-		if e.topicSize == 0 {
+	err := r.blockIterator(func(b _WinBlock, off int64) (bool, error) {
+		// blocks of a topic are linked in reverse order, the trie keeps the last one.
+		if ok := db.internal.trie.setOffset(newTopic(b.topicHash, off)); ok {
 			return false, nil
 		}
-		rawtopic, err := db.internal.reader.readTopic(e)
-		if err != nil {
-			return true, err
-		}
-		t := new(message.Topic)
-		err = t.Unmarshal(rawtopic)
-		if err != nil {
-			return true, err
-		}
-		if ok := db.internal.trie.add(newTopic(topicHash, off), t.Parts, t.Depth); !ok {
-			logger.Info().Str("context", "db.loadTrie: topic exist in the trie")
+		// topic is packed with first entries of the topic.
+		for _, we := range b.entries[:b.entryIdx] {
+			e, err := db.internal.reader.readEntry(we.sequence)
+			if err != nil {
+				if err == errMsgIDDeleted || err == errEntryInvalid || err == io.EOF {
+					continue
+				}
+				return true, err
+			}
+			if e.topicSize == 0 {
+				continue
+			}
+			rawtopic, err := db.internal.reader.readTopic(e)
+			if err != nil {
+				return true, err
+			}
+			t := new(message.Topic)
+			if err := t.Unmarshal(rawtopic); err != nil {
+				return true, err
+			}
+			db.internal.trie.add(newTopic(b.topicHash, off), t.Parts, t.Depth)
 			return false, nil
 		}
 		return false, nil
@@ -268,8 +275,8 @@ func (db *DB) setEntry(e *Entry) error {
 		}
 		t.AddContract(e.Contract)
 		e.entry.topicHash = t.GetHash(e.Contract)
-		// topic is packed if it is new topic entry
-		if _, ok := db.internal.trie.getOffset(e.entry.topicHash); !ok {
+		// topic is packed until an entry of the topic is synced, so it stays with the topic if an earlier entry is not stored.
+		if off, _ := db.internal.trie.getOffset(e.entry.topicHash); off == 0 {
 			rawTopic = t.Marshal()
 			e.entry.topicSize = uint16(len(rawTopic))
 		}
diff --git a/time_window_reader.go b/time_window_reader.go
index cfe3ca2..7b130d4 100644
--- a/time_window_reader.go
+++ b/time_window_reader.go
@@ -55,7 +55,7 @@ func (r *_WindowReader) readWindowBlock() (_WinBlock, error) {
 }
 
 // blockIterator iterates all window blocks from disk.
-func (r *_WindowReader) blockIterator(f func(startSeq, topicHash uint64, off int64) (bool, error)) (err error) {
+func (r *_WindowReader) blockIterator(f func(b _WinBlock, off int64) (bool, error)) (err error) {
 	windowIdx := int32(0)
 	nBlocks := r.windowIdx
 	for windowIdx <= nBlocks {
@@ -68,11 +68,11 @@ func (r *_WindowReader) blockIterator(f func(startSeq, topicHash uint64, off int
 			return err
 		}
 		windowIdx++
-		if b.entryIdx == 0 || b.next != 0 {
+		if b.entryIdx == 0 {
 			continue
 		}
 		// fmt.Println("timeWindow.blockIterator: topicHash, seq ", b.topicHash, b.entries[0].sequence)
-		if stop, err := f(b.entries[0].sequence, b.topicHash, r.offset); stop || err != nil {
+		if stop, err := f(b, r.offset); stop || err != nil {
 			return err
 		}
 	}
diff --git a/time_window_writer.go b/time_window_writer.go
index 51961ea..7d8868a 100644
--- a/time_window_writer.go
+++ b/time_window_writer.go
@@ -35,7 +35,8 @@ type _WindowWriter struct {
 }
 
 func newWindowWriter(fs *_FileSet, buf *bpool.Buffer) (*_WindowWriter, error) {
-	w := &_WindowWriter{windowIdx: -1, winBlocks: make(map[int32]_WinBlock), winLeases: make(map[int32][]uint64), fs: fs, buffer: buf}
+	// The block at offset 0 is never used: offset 0 stands for a topic without window blocks and ends a chain of blocks.
+	w := &_WindowWriter{windowIdx: 0, winBlocks: make(map[int32]_WinBlock), winLeases: make(map[int32][]uint64), fs: fs, buffer: buf}
 	winFile, err := fs.getFile(_FileDesc{fileType: typeTimeWindow})
 	if err != nil {
 		return nil, err
@@ -43,7 +44,7 @@ func newWindowWriter(fs *_FileSet, buf *bpool.Buffer) (*_WindowWriter, error) {
 	w.winFile = winFile
 	w.offset = winFile.currSize()
 	if w.offset > 0 {
-		w.windowIdx = int32(w.offset / int64(blockSize))
+		w.windowIdx = int32(w.offset/int64(blockSize)) - 1
 	}
 
 	return w, nil
@@ -70,7 +71,7 @@ func (w *_WindowWriter) del(seq uint64, winIdx int32) error {
 	b.entryIdx--
 
 	i := entryIdx
-	for ; i < entriesPerIndexBlock-1; i++ {
+	for ; i < entriesPerWindowBlock-1; i++ {
 		b.entries[i] = b.entries[i+1]
 	}
 	b.entries[i] = _WinEntry{}
-- 
2.43.0


From c8482a2fe265291bc0db90ab416eff3779cc9dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:49 +0000
Subject: [PATCH 12/28] fix: tell topics apart by order and wildcards and match
 a leading wildcard

The topic hash xored the parts, so a.b and b.a, or a.*.b and a.b.*, were one
topic; a topic starting with '*' never matched; a topic without levels was
accepted; topics deeper than the maximum wrapped the depth.
---
 entry.go         |  1 +
 message/topic.go | 52 ++++++++++++++++++++++--------------------------
 2 files changed, 25 insertions(+), 28 deletions(-)

diff --git a/entry.go b/entry.go
index 1eac420..71a6ec4 100644
--- a/entry.go
+++ b/entry.go
@@ -97,6 +97,7 @@ func (e *Entry) WithEncryption() *Entry {
 func (e *Entry) reset() {
 	e.entry.seq = 0
 	e.entry.topicSize = 0
+	e.entry.parsed = false
 	e.entry.cache = nil
 	e.ID = nil
 	e.Payload = nil
diff --git a/message/topic.go b/message/topic.go
index 78d122e..1173fe7 100644
--- a/message/topic.go
+++ b/message/topic.go
@@ -40,6 +40,10 @@ const (
 
 	// Wildcard wildcard is hash for wildcard topic such as '*' or '...'
 	Wildcard = uint32(857445537)
+
+	// offset64 and prime64 are used to combine the parts of a topic.
+	offset64 = uint64(14695981039346656037)
+	prime64  = uint64(1099511628211)
 )
 
 // TopicOption represents a key/value pair option.
@@ -62,28 +66,28 @@ type Topic struct {
 	Depth        uint8
 	Options      []TopicOption // Gets or sets the options.
 	TopicType    uint8
+
+	wildchars uint8 // wildchars is number of wildcard parts the topic starts with.
 }
 
 // AddContract adds contract to the parts of a topic.
 func (t *Topic) AddContract(contract uint32) {
 	part := Part{
-		Wildchars: 0,
+		Wildchars: t.wildchars,
 		Hash:      contract,
 	}
 	parts := []Part{part}
 	t.Parts = append(parts, t.Parts...)
 }
 
-// GetHash combines the parts into a single hash.
+// GetHash combines the parts into a single hash. The hash depends on the order of the parts and on the wildcards.
 func (t *Topic) GetHash(contract uint32) uint64 {
-	if len(t.Parts) == 1 {
-		return uint64(contract)
-	}
-	h := t.Parts[0].Hash
-	for _, i := range t.Parts[1:] {
-		h ^= i.Hash
+	h := (offset64 ^ uint64(contract)) * prime64
+	for _, p := range t.Parts {
+		h = (h ^ uint64(p.Hash)) * prime64
+		h = (h ^ uint64(p.Wildchars)) * prime64
 	}
-	return uint64(h)<<32 + uint64((contract<<8)|uint32(t.Depth))
+	return h
 }
 
 // _SplitFunc various split function to split topic using delimeter.
@@ -252,37 +256,29 @@ func parseWildcardTopic(contract uint32, topic *Topic) (ok bool) {
 	}
 
 	parts := bytes.FieldsFunc(topic.Topic, fn.splitTopic)
+	if len(parts) == 0 && topic.TopicType != TopicWildcard || len(parts) > TopicMaxDepth {
+		topic.TopicType = TopicInvalid
+		return false
+	}
 	q = []byte{TopicWildcardSymbol}
 	part = Part{}
-	wildchars := uint8(0)
-	wildcharcount := 0
-	for idx, p := range parts {
+	topic.wildchars = 0
+	for _, p := range parts {
 		depth++
 		if bytes.HasSuffix(p, q) {
 			topic.TopicType = TopicWildcard
-			if idx == 0 {
-				part.Hash = hash.WithSalt(p, contract)
-				topic.Parts = append(topic.Parts, part)
+			// wildcards are counted on the part these follow, or on the contract if topic starts with a wildcard.
+			if l := len(topic.Parts); l > 0 {
+				topic.Parts[l-1].Wildchars++
+			} else {
+				topic.wildchars++
 			}
-			wildchars++
-			wildcharcount++
 			continue
 		}
 		part.Hash = hash.WithSalt(p, contract)
 		topic.Parts = append(topic.Parts, part)
-		if wildchars > 0 {
-			if idx-wildcharcount-1 >= 0 {
-				topic.Parts[idx-wildcharcount-1].Wildchars = wildchars
-			} else {
-				topic.Parts[0].Wildchars = wildchars
-			}
-			wildchars = 0
-		}
 	}
 
-	if wildchars > 0 {
-		topic.Parts[len(topic.Parts)-1:][0].Wildchars = wildchars
-	}
 	if topic.Depth == TopicMaxDepth {
 		part.Hash = Wildcard
 		topic.Parts = append(topic.Parts, part)
-- 
2.43.0


From 2f4915c126748065b0d8929ff5cedc3ba856748a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:46 +0000
Subject: [PATCH 13/28] fix: skip inconsistent write ahead logs whole and read
 logs in the order written

---
 wal/file.go   | 84 ++++++++++++++++++++++++++++++++++++---------------
 wal/reader.go |  5 ++-
 2 files changed, 63 insertions(+), 26 deletions(-)

diff --git a/wal/file.go b/wal/file.go
index a2a8ab9..29b6a30 100644
--- a/wal/file.go
+++ b/wal/file.go
@@ -17,6 +17,7 @@
 package wal
 
 import (
+	"encoding/binary"
 	"errors"
 	"fmt"
 	"io/ioutil"
@@ -24,11 +25,14 @@ import (
 	"path"
 	"sort"
 	"strconv"
+	"strings"
 	"sync"
 
 	"github.com/unit-io/bpool"
 )
 
+var errCorrupted = errors.New("the log is corrupted")
+
 type (
 	_FileStore struct {
 		sync.RWMutex
@@ -125,37 +129,57 @@ func (fs *_FileStore) read(timeID int64, data *bpool.Buffer) _LogInfo {
 		return info
 	}
 
-	buf := make([]byte, uint32(logHeaderSize))
-	if _, err := f.ReadAt(buf, 0); err != nil {
-		f.Close()
-		os.Rename(log, corruptPath(fs.dirName, timeID))
-
+	err = readLog(f, timeID, &info, data)
+	f.Close()
+	if err != nil {
 		// log was unreadable, return nil
-		return info
+		os.Rename(log, corruptPath(fs.dirName, timeID))
+		data.Reset()
+		return _LogInfo{}
 	}
 
-	if err := info.UnmarshalBinary(buf); err != nil {
-		f.Close()
-		os.Rename(log, corruptPath(fs.dirName, timeID))
+	return info
+}
 
-		// log was unreadable, return nil
-		return info
+// readLog reads the log header and the log data. It returns an error if these are not as the log was written.
+func readLog(f *os.File, timeID int64, info *_LogInfo, data *bpool.Buffer) error {
+	buf := make([]byte, uint32(logHeaderSize))
+	if _, err := f.ReadAt(buf, 0); err != nil {
+		return err
+	}
+	if err := info.UnmarshalBinary(buf); err != nil {
+		return err
+	}
+	stat, err := f.Stat()
+	if err != nil {
+		return err
+	}
+	if info.timeID != timeID || info.size == 0 || stat.Size() != int64(logHeaderSize)+int64(info.size) {
+		return errCorrupted
 	}
-
 	if _, err := data.Extend(int64(info.size)); err != nil {
-		return info
+		return err
 	}
-
-	if _, err := f.ReadAt(data.Internal(), int64(logHeaderSize)); err != nil {
-		f.Close()
-		os.Rename(log, corruptPath(fs.dirName, timeID))
-
-		// log was unreadable, return nil
-		return info
+	raw := data.Internal()[:info.size]
+	if _, err := f.ReadAt(raw, int64(logHeaderSize)); err != nil {
+		return err
+	}
+	// records fill the log.
+	for i := uint32(0); i < info.count; i++ {
+		if len(raw) < 4 {
+			return errCorrupted
+		}
+		dataLen := binary.LittleEndian.Uint32(raw[:4])
+		if dataLen < 4 || int64(dataLen) > int64(len(raw)) {
+			return errCorrupted
+		}
+		raw = raw[dataLen:]
+	}
+	if len(raw) != 0 {
+		return errCorrupted
 	}
-	f.Close()
 
-	return info
+	return nil
 }
 
 // all provides a list of all time IDs currently stored in the file store.
@@ -178,17 +202,27 @@ func (fs *_FileStore) all() []int64 {
 	// })
 
 	sort.Slice(files[:], func(i, j int) bool {
-		return files[i].ModTime().Before(files[j].ModTime())
+		if !files[i].ModTime().Equal(files[j].ModTime()) {
+			return files[i].ModTime().Before(files[j].ModTime())
+		}
+		// logs written within a tick of the file system clock are in order of time ID.
+		if len(files[i].Name()) != len(files[j].Name()) {
+			return len(files[i].Name()) < len(files[j].Name())
+		}
+		return files[i].Name() < files[j].Name()
 	})
 
 	for _, f := range files {
 		name := f.Name()
-		if name[len(name)-4:] != logExt {
+		if !strings.HasSuffix(name, logExt) {
 			// skipping file, doesn't have right extension.
 			continue
 		}
 
-		timeID, _ := strconv.ParseInt(name[:len(name)-4], 10, 64) // remove file extension
+		timeID, err := strconv.ParseInt(name[:len(name)-len(logExt)], 10, 64) // remove file extension
+		if err != nil {
+			continue
+		}
 		timeIDs = append(timeIDs, timeID)
 	}
 
diff --git a/wal/reader.go b/wal/reader.go
index f704e0c..5559dab 100644
--- a/wal/reader.go
+++ b/wal/reader.go
@@ -82,7 +82,10 @@ func (r *Reader) Next() ([]byte, bool, error) {
 		return nil, false, nil
 	}
 	r.entryCount--
-	scratch, _ := r.buffer.Slice(r.offset, r.offset+4)
+	scratch, err := r.buffer.Slice(r.offset, r.offset+4)
+	if err != nil {
+		return nil, false, errors.New("error reading log")
+	}
 	dataLen := binary.LittleEndian.Uint32(scratch)
 	data, err := r.buffer.Slice(r.offset+4, r.offset+int64(dataLen))
 	if err != nil {
-- 
2.43.0


From d74676191cf99157bc3100ef39315248d634b662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:46 +0000
Subject: [PATCH 14/28] fix: find, move and release entries of any memdb time
 block and keep batch and closed semantics

---
 memdb/batch.go       |  13 +++-
 memdb/block.go       |  10 ++-
 memdb/db.go          | 171 ++++++++++++-------------------------------
 memdb/db_internal.go |  71 +++++-------------
 memdb/recovery.go    |  46 +-----------
 memdb/tiny_log.go    |  22 ++----
 6 files changed, 93 insertions(+), 240 deletions(-)

diff --git a/memdb/batch.go b/memdb/batch.go
index 7290373..10b98d4 100644
--- a/memdb/batch.go
+++ b/memdb/batch.go
@@ -81,6 +81,10 @@ func (b *Batch) Put(key uint64, data []byte) error {
 
 // Write starts writing entries into DB.
 func (b *Batch) Write() error {
+	if err := b.db.ok(); err != nil {
+		return err
+	}
+
 	b.writeLockC <- struct{}{}
 	defer func() {
 		<-b.writeLockC
@@ -119,8 +123,13 @@ func (b *Batch) Commit() error {
 //Abort aborts batch or perform cleanup operation on batch complete.
 func (b *Batch) Abort() error {
 	_assert(!b.managed, "managed batch abort not allowed")
-	for _, ID := range b.batchGroup {
-		if err := b.db.releaseLog(ID); err != nil {
+	if b.db == nil {
+		// batch is already complete.
+		return nil
+	}
+	// release time blocks of the batch including the block that is not written.
+	for _, ID := range append(b.batchGroup, b.tinyLog.timeID()) {
+		if err := b.db.releaseLog(ID); err != nil && err != errEntryDoesNotExist {
 			return err
 		}
 	}
diff --git a/memdb/block.go b/memdb/block.go
index 59ee26b..62adf3d 100644
--- a/memdb/block.go
+++ b/memdb/block.go
@@ -49,7 +49,8 @@ type (
 		sync.RWMutex // Read Write mutex, guards access to internal map.
 		count        int64
 		data         *bpool.Buffer
-		records      map[_Key]int64 // map[key]offset
+		records      map[_Key]int64       // map[key]offset
+		delKeys      map[uint64][]_TimeID // map[key]timeIDs of blocks the key was deleted from
 
 		timeRefs   []_TimeID
 		lastOffset int64 // last offset of block data written to the log
@@ -101,7 +102,7 @@ func (b *_Block) put(ikey _Key, data []byte) error {
 	if _, err := b.data.WriteAt(data, off+8+1+4); err != nil {
 		return err
 	}
-	if ikey.delFlag == 0 {
+	if _, ok := b.records[ikey]; !ok && ikey.delFlag == 0 {
 		b.count++
 	}
 	b.records[ikey] = off
@@ -111,7 +112,10 @@ func (b *_Block) put(ikey _Key, data []byte) error {
 
 func (b *_Block) delete(key uint64) error {
 	ikey := iKey(false, key)
-	off := b.records[ikey]
+	off, ok := b.records[ikey]
+	if !ok {
+		return errEntryDoesNotExist
+	}
 	// k with flag bit
 	var k [9]byte
 	k[0] = 1
diff --git a/memdb/db.go b/memdb/db.go
index 3bffcce..8d5e353 100644
--- a/memdb/db.go
+++ b/memdb/db.go
@@ -20,7 +20,6 @@ import (
 	"encoding/binary"
 	"errors"
 	"os"
-	"sort"
 	"sync"
 	"time"
 
@@ -97,9 +96,6 @@ func Open(opts ...Options) (*DB, error) {
 		}
 	}
 
-	// Query manager
-	db.newQueryManager()
-
 	// Log Manager
 	db.newLogManager(&_TinyLogOptions{poolCapacity: nPoolSize, writeInterval: options.logInterval, blockDuration: options.timeBlockDuration})
 
@@ -181,78 +177,23 @@ func (db *DB) Get(key uint64) ([]byte, error) {
 		return nil, err
 	}
 
-	db.mu.RLock()
-	// Get time block
-	blockKey := db.blockKey(key)
-	db.mu.RUnlock()
-
-	// first execute query plan
-	if len(db.internal.queryManager.timeFilters[blockKey].timeRecords) == 0 {
-		if err := db.seek(key, 0); err != nil {
-			return nil, err
+	for _, timeID := range db.timeRecords(key) {
+		block, ok := db.timeBlock(timeID)
+		if !ok {
+			continue
 		}
-	}
-
-	// Lookup key first for the current timeRecord.
-	block, ok := db.internal.queryManager.timeBlocks[db.internal.queryManager.timeRcord]
-	if ok {
 		block.RLock()
 		off, ok := block.records[iKey(false, key)]
-		block.RUnlock()
 		if ok {
-			block.RLock()
 			defer block.RUnlock()
-
 			db.internal.meter.Gets.Inc(1)
 
 			return block.get(off)
 		}
+		block.RUnlock()
 	}
 
-	db.mu.RLock()
-	// Get time block
-	r, ok := db.internal.queryManager.timeFilters[blockKey]
-	db.mu.RUnlock()
-	if !ok {
-		return nil, errEntryDoesNotExist
-	}
-
-	var timeIDs []_TimeID
-	r.RLock()
-	for timeID := range r.timeRecords {
-		timeIDs = append(timeIDs, timeID)
-	}
-	r.RUnlock()
-	sort.Slice(timeIDs[:], func(i, j int) bool {
-		return timeIDs[i] > timeIDs[j]
-	})
-	for _, timeID := range timeIDs {
-		block, ok := db.internal.queryManager.timeBlocks[timeID]
-		if ok {
-			block.RLock()
-			off, ok := block.records[iKey(false, key)]
-			block.RUnlock()
-			if ok {
-				block.RLock()
-				defer block.RUnlock()
-				db.internal.meter.Gets.Inc(1)
-				db.internal.queryManager.timeRcord = timeID
-
-				return block.get(off)
-			}
-			r.RLock()
-			fltr := r.timeRecords[timeID]
-			r.RUnlock()
-			if !fltr.Test(key) {
-				break
-			}
-		}
-	}
-
-	// reset timeBlock and start over
-	db.internal.queryManager.timeFilters[blockKey] = &_TimeFilter{timeRecords: make(map[_TimeID]*filter.Block), filter: filter.NewFilterGenerator()}
-
-	return db.Get(key)
+	return nil, errEntryDoesNotExist
 }
 
 // BlockIterator iterates all time blocks from DB committed to the WAL.
@@ -293,71 +234,48 @@ func (db *DB) Delete(key uint64) error {
 		return err
 	}
 
-	db.mu.RLock()
-	// Get time block
-	blockKey := db.blockKey(key)
-	r, ok := db.timeFilters[blockKey]
-	db.mu.RUnlock()
-	if !ok {
-		return errEntryDoesNotExist
-	}
-
-	var timeIDs []_TimeID
-	r.RLock()
-	for timeID := range r.timeRecords {
-		timeIDs = append(timeIDs, timeID)
-	}
-	r.RUnlock()
-	sort.Slice(timeIDs[:], func(i, j int) bool {
-		return timeIDs[i] > timeIDs[j]
-	})
 	ikey := iKey(false, key)
-	for _, timeID := range timeIDs {
-		db.mu.RLock()
-		block, ok := db.timeBlocks[timeID]
-		db.mu.RUnlock()
-		if ok {
-			block.RLock()
-			_, ok := block.records[ikey]
-			block.RUnlock()
-			if !ok {
-				r.RLock()
-				fltr := r.timeRecords[timeID]
-				r.RUnlock()
-				if !fltr.Test(key) {
-					return errEntryDoesNotExist
-				}
-				continue
-			}
+	for _, timeID := range db.timeRecords(key) {
+		block, ok := db.timeBlock(timeID)
+		if !ok {
+			continue
+		}
+		block.RLock()
+		_, ok = block.records[ikey]
+		block.RUnlock()
+		if !ok {
+			continue
+		}
+
+		timeLock := db.timeLock()
+		timeLock.RLock()
+		defer timeLock.RUnlock()
 
-			timeLock := db.timeLock()
-			timeLock.RLock()
-			defer timeLock.RUnlock()
-
-			block.Lock()
-			block.delete(key)
-			db.internal.meter.Dels.Inc(1)
-			if block.count == 0 {
-				// all entries are deleted from the block,
-				// now check if timeIDs for deleted entries are released.
-				for ikey, timeID := range block.records {
-					db.mu.RLock()
-					if _, ok := db.timeBlocks[_TimeID(timeID)]; ok {
-						db.move(_TimeID(timeID), ikey.key)
-					}
-					db.mu.RUnlock()
-					delete(block.records, ikey)
+		block.Lock()
+		if err := block.delete(key); err != nil {
+			block.Unlock()
+			return err
+		}
+		db.internal.meter.Dels.Inc(1)
+		if block.count != 0 || timeID >= db.timeID() {
+			block.Unlock()
+			return db.move(timeID, key)
+		}
+		// all entries are deleted from the block, move entries deleted from
+		// other time blocks and release timeblock from the WAL.
+		delKeys := block.delKeys
+		block.Unlock()
+		for key, refs := range delKeys {
+			for _, timeRef := range refs {
+				if _, ok := db.timeBlock(timeRef); !ok || timeRef == timeID {
+					continue
 				}
-				// released timeblock from the WAL if all records are deleted.
-				if len(block.records) == 0 && timeID < db.timeID() {
-					block.Unlock()
-					return db.releaseLog(timeID)
+				if err := db.move(timeRef, key); err != nil {
+					return err
 				}
 			}
-			block.Unlock()
-
-			return db.move(timeID, key)
 		}
+		return db.releaseLog(timeID)
 	}
 
 	return errEntryDoesNotExist
@@ -403,11 +321,16 @@ func (db *DB) NewBatch() *Batch {
 //
 // Attempting to manually commit or rollback within the function will cause a panic.
 func (db *DB) Batch(fn func(*Batch, <-chan struct{}) error) error {
+	if err := db.ok(); err != nil {
+		return err
+	}
+
 	b := db.batch()
 
 	b.setManaged()
 	// If an error is returned from the function then rollback and return error.
 	if err := fn(b, b.commitComplete); err != nil {
+		b.unsetManaged()
 		b.Abort()
 		close(b.commitComplete)
 		return err
diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index c86d10f..11c6884 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -73,9 +73,6 @@ type _DB struct {
 	// Write ahead log
 	wal *wal.WAL
 
-	// query
-	queryManager *_QueryManager
-
 	// close
 	closed uint32
 	closer io.Closer
@@ -132,6 +129,9 @@ func (db *DB) cap() float64 {
 func (db *DB) addTimeBlock(timeID _TimeID) (ok bool) {
 	db.mu.Lock()
 	defer db.mu.Unlock()
+	if db.timeBlocks == nil {
+		return false
+	}
 	if _, ok := db.timeBlocks[timeID]; !ok {
 		db.timeBlocks[timeID] = &_Block{data: db.internal.buffer.Get(), records: make(map[_Key]int64)}
 		return true
@@ -172,31 +172,14 @@ func (db *DB) addTimeFilter(timeID _TimeID, key uint64) error {
 	return nil
 }
 
-func (db *DB) newQueryManager() {
-	queryManager := &_QueryManager{timeBlocks: make(map[_TimeID]*_Block), timeFilters: make(map[_BlockKey]*_TimeFilter)}
-	for i := 0; i < nBlocks; i++ {
-		queryManager.timeFilters[_BlockKey(i)] = &_TimeFilter{timeRecords: make(map[_TimeID]*filter.Block), filter: filter.NewFilterGenerator()}
-	}
-
-	db.internal.queryManager = queryManager
-}
-
-// seek finds timeRecords and timeBlock for the provided key and cutoff duration and caches those for query.
-func (db *DB) seek(key uint64, cutoff int64) error {
-	if err := db.ok(); err != nil {
-		return err
-	}
-
+// timeRecords returns IDs of time blocks the key could be in, most recent first.
+func (db *DB) timeRecords(key uint64) (timeIDs []_TimeID) {
 	db.mu.RLock()
-	// Get time block
-	blockKey := db.blockKey(key)
-	r, ok := db.timeFilters[blockKey]
+	r, ok := db.timeFilters[db.blockKey(key)]
 	db.mu.RUnlock()
 	if !ok {
-		return errEntryDoesNotExist
+		return nil
 	}
-
-	var timeIDs []_TimeID
 	r.RLock()
 	for timeID := range r.timeRecords {
 		timeIDs = append(timeIDs, timeID)
@@ -205,35 +188,8 @@ func (db *DB) seek(key uint64, cutoff int64) error {
 	sort.Slice(timeIDs[:], func(i, j int) bool {
 		return timeIDs[i] > timeIDs[j]
 	})
-	for _, timeID := range timeIDs {
-		db.mu.RLock()
-		block, ok := db.timeBlocks[timeID]
-		db.mu.RUnlock()
-		if ok {
-			block.RLock()
-			_, ok := block.records[iKey(false, key)]
-			block.RUnlock()
-			if ok {
-				b, ok := db.internal.queryManager.timeFilters[blockKey]
-				if ok {
-					b.timeRecords[timeID] = filter.NewFilterBlock(r.filter.Bytes())
-				}
-				db.internal.queryManager.timeBlocks[timeID] = block
-				if cutoff != 0 {
-					db.internal.queryManager.cutoff = _TimeID(cutoff)
-				}
-				return nil
-			}
-			r.RLock()
-			fltr := r.timeRecords[timeID]
-			r.RUnlock()
-			if !fltr.Test(key) {
-				return errEntryDoesNotExist
-			}
-		}
-	}
 
-	return errEntryDoesNotExist
+	return timeIDs
 }
 
 // move moves the entry to the new block
@@ -251,7 +207,10 @@ func (db *DB) move(timeID _TimeID, key uint64) error {
 	rawTimeID := make([]byte, 8)
 	binary.LittleEndian.PutUint64(rawTimeID[:8], uint64(timeID))
 
-	newBlock.records[dkey] = int64(newTimeID)
+	if newBlock.delKeys == nil {
+		newBlock.delKeys = make(map[uint64][]_TimeID)
+	}
+	newBlock.delKeys[key] = append(newBlock.delKeys[key], timeID)
 	return newBlock.put(dkey, rawTimeID)
 }
 
@@ -327,6 +286,12 @@ func (db *DB) releaseLog(timeID _TimeID) error {
 		}
 	}
 
+	for _, r := range db.timeFilters {
+		r.Lock()
+		delete(r.timeRecords, timeID)
+		r.Unlock()
+	}
+
 	db.mu.Lock()
 	defer db.mu.Unlock()
 	delete(db.timeBlocks, _TimeID(timeID))
diff --git a/memdb/recovery.go b/memdb/recovery.go
index f5fbbe8..c140950 100644
--- a/memdb/recovery.go
+++ b/memdb/recovery.go
@@ -51,12 +51,6 @@ func (db *DB) delete(key uint64) error {
 			_, ok := block.records[iKey(false, key)]
 			block.RUnlock()
 			if !ok {
-				r.RLock()
-				fltr := r.timeRecords[timeID]
-				r.RUnlock()
-				if !fltr.Test(key) {
-					return errEntryDoesNotExist
-				}
 				continue
 			}
 			block.Lock()
@@ -88,7 +82,6 @@ func (db *DB) startRecovery() error {
 		return err
 	}
 
-	delKeys := make(map[_TimeID][]uint64)
 	err = r.Iterator(func(ID int64) (ok bool, err error) {
 		log := make(map[uint64][]byte)
 		l := r.Count()
@@ -111,12 +104,9 @@ func (db *DB) startRecovery() error {
 				val := data[9:]
 				off += dataLen
 				if dBit == 1 {
-					timeRefID := _TimeID(binary.LittleEndian.Uint64(val[:8]))
-					if _, ok := delKeys[timeRefID]; ok {
-						delKeys[timeRefID] = append(delKeys[timeRefID], key)
-					} else {
-						delKeys[timeRefID] = []uint64{key}
-					}
+					// logs are in the order written so the deleted entry precedes.
+					delete(log, key)
+					db.delete(key)
 				} else {
 					log[key] = val
 				}
@@ -153,35 +143,7 @@ func (db *DB) startRecovery() error {
 		return false, nil
 	})
 
-	for timeID, keys := range delKeys {
-		if block, exists := db.timeBlocks[timeID]; exists {
-			for _, key := range keys {
-				ikey := iKey(false, key)
-				block.RLock()
-				_, ok := block.records[ikey]
-				block.RUnlock()
-				if !ok {
-					// errEntryDoesNotExist
-					continue
-				}
-				block.Lock()
-				delete(block.records, ikey)
-				block.count--
-				db.internal.meter.Dels.Inc(1)
-				if len(block.records) == 0 {
-					delete(db.timeBlocks, _TimeID(timeID))
-					db.internal.buffer.Put(block.data)
-				}
-				block.Unlock()
-			}
-		} else {
-			for _, key := range keys {
-				db.delete(key)
-			}
-		}
-	}
-
-	return nil
+	return err
 }
 
 // All gets all keys from DB recovered from WAL.
diff --git a/memdb/tiny_log.go b/memdb/tiny_log.go
index a7c2fd1..c2b4572 100644
--- a/memdb/tiny_log.go
+++ b/memdb/tiny_log.go
@@ -150,7 +150,7 @@ func (db *DB) newLogManager(opts *_TinyLogOptions) {
 	// start the dispacther
 	for i := 0; i < opts.logCount; i++ {
 		logManager.stopWg.Add(1)
-		go logManager.dispatch(opts.timeout)
+		go logManager.dispatch()
 	}
 
 	db.internal.logManager = logManager
@@ -233,17 +233,17 @@ func (p *_TinyLogManager) writeLoop(interval time.Duration) {
 				fallthrough
 			default:
 				p.mu.Lock()
-				p.write()
+				tinyLog := p.tinyLog
 				p.newTinyLog()
 				p.mu.Unlock()
+				p.writeQueue <- tinyLog
 			}
 		}
 	}
 }
 
 // dispatch handles tiny log commit for the jobs in queue.
-func (p *_TinyLogManager) dispatch(timeout time.Duration) {
-LOOP:
+func (p *_TinyLogManager) dispatch() {
 	for {
 		select {
 		case tinyLog, ok := <-p.writeQueue:
@@ -254,20 +254,10 @@ LOOP:
 				return
 			}
 
-			// return tinyLog to the pool
-			select {
-			case p.logQueue <- tinyLog:
-			default:
-				// pool is full, let GC handle the buffer
-				goto WAIT
-			}
+			// return tinyLog to the pool, wait if pool is full
+			p.logQueue <- tinyLog
 		}
 	}
-
-WAIT:
-	// Wait for a while
-	time.Sleep(timeout)
-	goto LOOP
 }
 
 // commitLoop commits the tiny log to the WAL.
-- 
2.43.0


From 8f8eb1c10ddb91301180bf6f4a1c049525fd6137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:02 +0000
Subject: [PATCH 15/28] fix: report batch errors, roll a failed batch back and
 apply its deletes on commit

---
 batch.go | 40 ++++++++++++++++++++++++++++------------
 db.go    |  5 +++++
 2 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/batch.go b/batch.go
index d592255..d300078 100644
--- a/batch.go
+++ b/batch.go
@@ -48,9 +48,11 @@ type (
 		managed    bool
 		writeLockC chan struct{}
 
-		index  []_BatchIndex
-		buffer *bpool.Buffer
-		size   int64
+		index   []_BatchIndex
+		buffer  *bpool.Buffer
+		size    int64
+		timeIDs []int64  // time IDs of the entries written and not yet committed.
+		deletes []_Entry // entries to delete on commit.
 
 		// commitComplete is used to signal if batch commit is complete and batch is fully written to DB.
 		commitComplete chan struct{}
@@ -168,11 +170,7 @@ func (b *Batch) writeInternal(fn func(i int, e _Entry, data []byte) error) error
 			return err
 		}
 		if index.delFlag && e.seq != 0 {
-			/// Test filter block for presence.
-			if !b.db.internal.filter.Test(e.seq) {
-				return nil
-			}
-			b.db.delete(e.topicHash, e.seq)
+			b.deletes = append(b.deletes, e)
 			continue
 		}
 
@@ -203,8 +201,8 @@ func (b *Batch) Write() error {
 	}
 	topics := make(map[uint64]*message.Topic)
 	timeID := b.mem.TimeID()
-	var seqs []uint64
-	b.writeInternal(func(i int, e _Entry, data []byte) error {
+	b.timeIDs = append(b.timeIDs, timeID)
+	err := b.writeInternal(func(i int, e _Entry, data []byte) error {
 		if e.topicSize != 0 {
 			t, ok := topics[e.topicHash]
 			if !ok {
@@ -221,11 +219,15 @@ func (b *Batch) Write() error {
 		if ok := b.db.internal.timeWindow.add(timeID, e.topicHash, newWinEntry(e.seq, e.expiresAt)); !ok {
 			return errForbidden
 		}
-		seqs = append(seqs, e.seq)
 		return nil
 	})
+	if err != nil {
+		return err
+	}
 
-	b.mem.Write()
+	if err := b.mem.Write(); err != nil {
+		return err
+	}
 	b.reset()
 
 	return nil
@@ -252,6 +254,13 @@ func (b *Batch) Commit() error {
 	if err := b.mem.Commit(); err != nil {
 		return err
 	}
+	b.timeIDs = b.timeIDs[:0]
+
+	for _, e := range b.deletes {
+		if err := b.db.delete(e.topicHash, e.seq); err != nil {
+			return err
+		}
+	}
 
 	return nil
 }
@@ -268,6 +277,13 @@ func (b *Batch) Abort() {
 
 	b.reset()
 	b.mem.Abort()
+	// release window entries of the batch that is not committed.
+	if len(b.timeIDs) != 0 {
+		timeRelease := b.db.internal.timeWindow.release()
+		for _, timeID := range b.timeIDs {
+			timeRelease(timeID)
+		}
+	}
 	b.db.internal.bufPool.Put(b.buffer)
 	b.db = nil
 }
diff --git a/db.go b/db.go
index 59bc810..a612392 100644
--- a/db.go
+++ b/db.go
@@ -432,12 +432,17 @@ func (db *DB) DeleteEntry(e *Entry) error {
 //
 // Attempting to manually commit or rollback within the function will cause a panic.
 func (db *DB) Batch(fn func(*Batch, <-chan struct{}) error) error {
+	if err := db.ok(); err != nil {
+		return err
+	}
+
 	b := db.batch()
 
 	b.setManaged()
 
 	// If an error is returned from the function then rollback and return error.
 	if err := fn(b, b.commitComplete); err != nil {
+		b.unsetManaged()
 		b.Abort()
 		close(b.commitComplete)
 		return err
-- 
2.43.0


From 1ecb5afc6b4959567656a4364bf829b3d09ca062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 16/28] fix: return stored messages up to the limit skipping
 deleted and repeated entries and cap the limit

---
 block_reader.go |   6 +--
 db.go           | 133 ++++++++++++++++++++++--------------------------
 db_internal.go  |  20 ++++----
 query.go        |  12 ++---
 4 files changed, 80 insertions(+), 91 deletions(-)

diff --git a/block_reader.go b/block_reader.go
index aa9085c..bc60818 100644
--- a/block_reader.go
+++ b/block_reader.go
@@ -54,9 +54,9 @@ func (r *_BlockReader) readIndexBlock() (_IndexBlock, error) {
 }
 
 func (r *_BlockReader) readEntry(seq uint64) (_IndexEntry, error) {
-	bIdx := blockIndex(seq)
-	r.offset = blockOffset(bIdx)
-	b, err := r.readIndexBlock()
+	// the reader is shared by concurrent queries.
+	br := _BlockReader{indexFile: r.indexFile, offset: blockOffset(blockIndex(seq))}
+	b, err := br.readIndexBlock()
 	if err != nil {
 		return _IndexEntry{}, err
 	}
diff --git a/db.go b/db.go
index a612392..dd2fcae 100644
--- a/db.go
+++ b/db.go
@@ -20,9 +20,9 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"math/rand"
 	"os"
-	"sort"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -238,86 +238,75 @@ func (db *DB) Get(q *Query) (items [][]byte, err error) {
 	mu := db.internal.mutex.getMutex(q.internal.prefix)
 	mu.RLock()
 	defer mu.RUnlock()
-	db.lookup(q)
-	if len(q.internal.winEntries) == 0 {
-		return
-	}
-	sort.Slice(q.internal.winEntries[:], func(i, j int) bool {
-		return q.internal.winEntries[i].seq > q.internal.winEntries[j].seq
-	})
-	start := 0
-	limit := q.Limit
-	if len(q.internal.winEntries) < int(q.Limit) {
-		limit = len(q.internal.winEntries)
-	}
-
-	for {
-		invalidCount := 0
-		for _, query := range q.internal.winEntries[start:limit] {
-			err = func() error {
-				if query.seq == 0 {
-					return nil
-				}
-				s, err := db.readEntry(query)
-				if err != nil {
-					if err == errMsgIDDeleted {
-						invalidCount++
-						return nil
-					}
-					logger.Error().Err(err).Str("context", "db.readEntry")
-					return err
-				}
-				id, val, err := db.internal.reader.readMessage(s)
-				if err != nil {
-					logger.Error().Err(err).Str("context", "data.readMessage")
-					return err
-				}
-				msgID := message.ID(id)
-				if !msgID.EvalPrefix(q.Contract, q.internal.cutoff) {
-					invalidCount++
-					return nil
-				}
-
-				// last bit of ID is an encryption flag.
-				if uint8(id[idSize-1]) == 1 {
-					val, err = db.internal.mac.Decrypt(nil, val)
-					if err != nil {
-						logger.Error().Err(err).Str("context", "mac.decrypt")
-						return err
-					}
-				}
-				var buffer []byte
-				val, err = snappy.Decode(buffer, val)
-				if err != nil {
-					logger.Error().Err(err).Str("context", "snappy.Decode")
-					return err
-				}
-				items = append(items, val)
-				db.internal.meter.OutBytes.Inc(int64(s.valueSize))
-				return nil
-			}()
-			if err != nil {
-				return items, err
-			}
+	// look up more window entries until there are enough entries that are stored.
+	for limit := q.Limit; ; limit *= 2 {
+		more := db.lookup(q, limit)
+		var n int
+		if items, n, err = db.readItems(q); err != nil {
+			return items, err
 		}
-
-		if invalidCount == 0 || len(items) == int(q.Limit) || len(q.internal.winEntries) == limit {
+		if !more || (len(items) == q.Limit && n <= limit) {
 			break
 		}
-
-		if len(q.internal.winEntries) <= int(q.Limit+invalidCount) {
-			start = limit
-			limit = len(q.internal.winEntries)
-		} else {
-			start = limit
-			limit = limit + invalidCount
-		}
 	}
 	db.internal.meter.Gets.Inc(int64(len(items)))
 	db.internal.meter.OutMsgs.Inc(int64(len(items)))
 	return items, nil
 }
 
+// readItems reads messages of the query in order of the window entries until the limit is reached.
+// It returns the messages and the number of window entries used.
+func (db *DB) readItems(q *Query) (items [][]byte, n int, err error) {
+	var lastSeq uint64
+	for _, query := range q.internal.winEntries {
+		if len(items) == q.Limit {
+			break
+		}
+		n++
+		// entry could be synced while in memory.
+		if query.seq == 0 || query.seq == lastSeq {
+			continue
+		}
+		lastSeq = query.seq
+		s, err := db.readEntry(query)
+		if err != nil {
+			if err == errMsgIDDeleted || err == errEntryInvalid || err == io.EOF {
+				// message is deleted.
+				continue
+			}
+			logger.Error().Err(err).Str("context", "db.readEntry")
+			return items, n, err
+		}
+		id, val, err := db.internal.reader.readMessage(s)
+		if err != nil {
+			logger.Error().Err(err).Str("context", "data.readMessage")
+			return items, n, err
+		}
+		msgID := message.ID(id)
+		if !msgID.EvalPrefix(q.Contract, q.internal.cutoff) {
+			continue
+		}
+
+		// last bit of ID is an encryption flag.
+		if uint8(id[idSize-1]) == 1 {
+			val, err = db.internal.mac.Decrypt(nil, val)
+			if err != nil {
+				logger.Error().Err(err).Str("context", "mac.decrypt")
+				return items, n, err
+			}
+		}
+		var buffer []byte
+		val, err = snappy.Decode(buffer, val)
+		if err != nil {
+			logger.Error().Err(err).Str("context", "snappy.Decode")
+			return items, n, err
+		}
+		items = append(items, val)
+		db.internal.meter.OutBytes.Inc(int64(s.valueSize))
+	}
+	return items, n, nil
+}
+
 // NewContract generates a new Contract.
 func (db *DB) NewContract() (uint32, error) {
 	raw := make([]byte, 4)
diff --git a/db_internal.go b/db_internal.go
index 9c33b11..e53745e 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -221,23 +221,25 @@ func (db *DB) readEntry(q _Query) (_IndexEntry, error) {
 // lookups are performed in following order
 // ilookup lookups in memory entries from timeWindow
 // lookup lookups persisted entries from timeWindow file.
-func (db *DB) lookup(q *Query) error {
+// lookup collects up to limit most recent window entries of each topic of the query in order of
+// decreasing sequence. It returns true if a topic could have more window entries.
+func (db *DB) lookup(q *Query, limit int) (more bool) {
+	q.internal.winEntries = q.internal.winEntries[:0]
 	topics := db.internal.trie.lookup(q.internal.parts, q.internal.depth, q.internal.topicType)
-	sort.Slice(topics[:], func(i, j int) bool {
-		return topics[i].offset > topics[j].offset
-	})
 	for _, topic := range topics {
-		if len(q.internal.winEntries) > q.Limit {
-			break
-		}
-		limit := q.Limit - len(q.internal.winEntries)
 		wEntries := db.internal.timeWindow.lookup(db.fs, topic.hash, topic.offset, q.internal.cutoff, limit)
 		for _, we := range wEntries {
 			q.internal.winEntries = append(q.internal.winEntries, _Query{topicHash: topic.hash, seq: we.seq()})
 		}
+		if len(wEntries) >= limit {
+			more = true
+		}
 	}
+	sort.Slice(q.internal.winEntries[:], func(i, j int) bool {
+		return q.internal.winEntries[i].seq > q.internal.winEntries[j].seq
+	})
 
-	return nil
+	return more
 }
 
 func (db *DB) parseTopic(contract uint32, topic []byte) (*message.Topic, uint32, error) {
diff --git a/query.go b/query.go
index c6b2d96..00053b9 100644
--- a/query.go
+++ b/query.go
@@ -107,17 +107,15 @@ func (q *Query) parse() error {
 	// In case of last, include it to the query.
 	if from, limit, ok := topic.Last(); ok {
 		q.internal.cutoff = from.Unix()
-		switch {
-		case (q.Limit == 0 && limit == 0):
-			q.Limit = q.internal.opts.defaultQueryLimit
-		case q.Limit > q.internal.opts.maxQueryLimit || limit > q.internal.opts.maxQueryLimit:
-			q.Limit = q.internal.opts.maxQueryLimit
-		case limit > q.Limit:
+		if limit > q.Limit {
 			q.Limit = limit
 		}
 	}
-	if q.Limit == 0 {
+	if q.Limit <= 0 {
 		q.Limit = q.internal.opts.defaultQueryLimit
 	}
+	if q.Limit > q.internal.opts.maxQueryLimit {
+		q.Limit = q.internal.opts.maxQueryLimit
+	}
 	return nil
 }
-- 
2.43.0


From 00e98933a2dbb58c36898f652da175c6f4f8e152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:32 +0000
Subject: [PATCH 17/28] fix: keep the topic of a deleted entry, free an entry
 once and refuse malformed IDs and closed databases

---
 batch.go        |  8 ++++++++
 block_reader.go |  6 ++++--
 block_writer.go |  6 +++++-
 db.go           |  7 +++++++
 db_internal.go  | 40 +++++++++++++++++++++++++++++++++-------
 db_sync.go      |  9 +--------
 6 files changed, 58 insertions(+), 18 deletions(-)

diff --git a/batch.go b/batch.go
index d300078..9714dad 100644
--- a/batch.go
+++ b/batch.go
@@ -71,6 +71,10 @@ func (b *Batch) Put(topic, payload []byte) error {
 // It is safe to modify the contents of the argument after Put returns but not
 // before.
 func (b *Batch) PutEntry(e *Entry) error {
+	if err := b.db.ok(); err != nil {
+		return err
+	}
+
 	switch {
 	case len(e.Topic) == 0:
 		return errTopicEmpty
@@ -115,6 +119,10 @@ func (b *Batch) Delete(id, topic []byte) error {
 // It is safe to modify the contents of the argument after Delete returns but
 // not before.
 func (b *Batch) DeleteEntry(e *Entry) error {
+	if err := b.db.ok(); err != nil {
+		return err
+	}
+
 	switch {
 	case b.db.opts.flags.immutable:
 		return errImmutable
diff --git a/block_reader.go b/block_reader.go
index bc60818..b150969 100644
--- a/block_reader.go
+++ b/block_reader.go
@@ -64,8 +64,10 @@ func (r *_BlockReader) readEntry(seq uint64) (_IndexEntry, error) {
 	for i := 0; i < entriesPerIndexBlock; i++ {
 		e := b.entries[i]
 		if e.seq == seq { //topic exist in db
-			if e.msgOffset == -1 {
-				return _IndexEntry{}, errMsgIDDeleted
+			if e.msgOffset < 0 {
+				// topic stays with the deleted entry.
+				e.msgOffset = -2 - e.msgOffset
+				return e, errMsgIDDeleted
 			}
 			entryIdx = i
 			break
diff --git a/block_writer.go b/block_writer.go
index c001c6e..e0f4e2e 100644
--- a/block_writer.go
+++ b/block_writer.go
@@ -94,7 +94,7 @@ func (w *_BlockWriter) del(seq uint64) (_IndexEntry, error) {
 	for i := 0; i < int(b.entryIdx); i++ {
 		e := b.entries[i]
 		if e.seq == seq { //record exist in db
-			if e.msgOffset != -1 {
+			if e.msgOffset >= 0 {
 				entryIdx = i
 			}
 			break
@@ -104,7 +104,11 @@ func (w *_BlockWriter) del(seq uint64) (_IndexEntry, error) {
 		return delEntry, nil // no entry in db to delete
 	}
 	delEntry = b.entries[entryIdx]
+	// topic stays with the deleted entry so its offset is kept.
 	b.entries[entryIdx].msgOffset = -1
+	if delEntry.topicSize != 0 {
+		b.entries[entryIdx].msgOffset = -2 - delEntry.msgOffset
+	}
 	if _, err := w.indexFile.WriteAt(b.marshalBinary(), blockOffset(bIdx)); err != nil {
 		return _IndexEntry{}, err
 	}
diff --git a/db.go b/db.go
index dd2fcae..642add6 100644
--- a/db.go
+++ b/db.go
@@ -386,6 +386,10 @@ func (db *DB) Delete(id, topic []byte) error {
 // It is safe to modify the contents of the argument after Delete returns but
 // not before.
 func (db *DB) DeleteEntry(e *Entry) error {
+	if err := db.ok(); err != nil {
+		return err
+	}
+
 	switch {
 	case db.opts.flags.immutable:
 		return errImmutable
@@ -397,6 +401,9 @@ func (db *DB) DeleteEntry(e *Entry) error {
 		return errTopicTooLarge
 	}
 	id := message.ID(e.ID)
+	if len(id) != id.Size() {
+		return errBadRequest
+	}
 	topic, _, err := db.parseTopic(e.Contract, e.Topic)
 	if err != nil {
 		return err
diff --git a/db_internal.go b/db_internal.go
index e53745e..f914c86 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -175,8 +175,8 @@ func (db *DB) loadTrie() error {
 		// topic is packed with first entries of the topic.
 		for _, we := range b.entries[:b.entryIdx] {
 			e, err := db.internal.reader.readEntry(we.sequence)
-			if err != nil {
-				if err == errMsgIDDeleted || err == errEntryInvalid || err == io.EOF {
+			if err != nil && err != errMsgIDDeleted {
+				if err == errEntryInvalid || err == io.EOF {
 					continue
 				}
 				return true, err
@@ -284,8 +284,11 @@ func (db *DB) setEntry(e *Entry) error {
 		}
 		e.entry.parsed = true
 	}
-	if e.ID != nil {
+	if len(e.ID) != 0 {
 		id = message.ID(e.ID)
+		if len(id) != id.Size() || id.Sequence() == 0 {
+			return errBadRequest
+		}
 		seq = id.Sequence()
 	} else {
 		seq = db.nextSeq()
@@ -327,9 +330,30 @@ func (db *DB) delete(topicHash, seq uint64) error {
 		return nil
 	}
 
+	// delete is not performed while entries are being synced.
+	select {
+	case db.internal.syncLockC <- struct{}{}:
+	case <-db.internal.closeC:
+		return errClosed
+	}
+	defer func() {
+		<-db.internal.syncLockC
+	}()
+
 	db.internal.meter.Dels.Inc(1)
 	db.internal.mem.Delete(seq)
 
+	if err := db.deleteEntry(seq); err != nil {
+		return err
+	}
+	if db.internal.syncWrites {
+		return db.sync()
+	}
+	return nil
+}
+
+// deleteEntry deletes the entry synced to the DB and frees its data.
+func (db *DB) deleteEntry(seq uint64) error {
 	// Test filter block for the message id presence.
 	if !db.internal.filter.Test(seq) {
 		return nil
@@ -346,11 +370,13 @@ func (db *DB) delete(topicHash, seq uint64) error {
 	if e.seq == 0 {
 		return nil // message is not stored
 	}
-	db.internal.freeList.freeBlock(e.msgOffset, e.mSize())
-	db.decount(1)
-	if db.internal.syncWrites {
-		return db.sync()
+	if e.topicSize != 0 {
+		// topic stays with the deleted entry.
+		db.internal.freeList.freeBlock(e.msgOffset+int64(idSize)+int64(e.topicSize), e.valueSize)
+	} else {
+		db.internal.freeList.freeBlock(e.msgOffset, e.mSize())
 	}
+	db.decount(1)
 	return nil
 }
 
diff --git a/db_sync.go b/db_sync.go
index 8515c7f..af6324e 100644
--- a/db_sync.go
+++ b/db_sync.go
@@ -312,16 +312,9 @@ func (db *DB) expireEntries() error {
 	expiredEntries := db.internal.timeWindow.expiryWindowBucket.getExpiredEntries(db.opts.queryOptions.defaultQueryLimit)
 	for _, expiredEntry := range expiredEntries {
 		we := expiredEntry.(_WinEntry)
-		/// Test filter block if message hash presence.
-		if !db.internal.filter.Test(we.seq()) {
-			continue
-		}
-		e, err := db.internal.reader.readEntry(we.seq())
-		if err != nil {
+		if err := db.deleteEntry(we.seq()); err != nil {
 			return err
 		}
-		db.internal.freeList.free(e.seq, e.msgOffset, e.mSize())
-		db.decount(1)
 	}
 
 	return nil
-- 
2.43.0


From 78a25cf686d047fa762f4db8f048d50b264eb0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:31 +0000
Subject: [PATCH 18/28] fix: expire entries the given time to live after now
 and parse the topic of every entry put

---
 db_internal.go   | 38 ++++++++++++++++++--------------------
 entry.go         |  5 ++---
 message/topic.go |  2 +-
 3 files changed, 21 insertions(+), 24 deletions(-)

diff --git a/db_internal.go b/db_internal.go
index f914c86..51fb9fc 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -264,25 +264,24 @@ func (db *DB) setEntry(e *Entry) error {
 	var eBit uint8
 	var seq uint64
 	var rawTopic []byte
-	if !e.entry.parsed {
-		if e.Contract == 0 {
-			e.Contract = message.MasterContract
-		}
-		t, ttl, err := db.parseTopic(e.Contract, e.Topic)
-		if err != nil {
-			return err
-		}
-		if e.ExpiresAt == 0 && ttl > 0 {
-			e.ExpiresAt = ttl
-		}
-		t.AddContract(e.Contract)
-		e.entry.topicHash = t.GetHash(e.Contract)
-		// topic is packed until an entry of the topic is synced, so it stays with the topic if an earlier entry is not stored.
-		if off, _ := db.internal.trie.getOffset(e.entry.topicHash); off == 0 {
-			rawTopic = t.Marshal()
-			e.entry.topicSize = uint16(len(rawTopic))
-		}
-		e.entry.parsed = true
+	if e.Contract == 0 {
+		e.Contract = message.MasterContract
+	}
+	t, ttl, err := db.parseTopic(e.Contract, e.Topic)
+	if err != nil {
+		return err
+	}
+	e.entry.expiresAt = e.ExpiresAt
+	if e.ExpiresAt == 0 && ttl > 0 {
+		e.entry.expiresAt = ttl
+	}
+	t.AddContract(e.Contract)
+	e.entry.topicHash = t.GetHash(e.Contract)
+	e.entry.topicSize = 0
+	// topic is packed until an entry of the topic is synced, so it stays with the topic if an earlier entry is not stored.
+	if off, _ := db.internal.trie.getOffset(e.entry.topicHash); off == 0 {
+		rawTopic = t.Marshal()
+		e.entry.topicSize = uint16(len(rawTopic))
 	}
 	if len(e.ID) != 0 {
 		id = message.ID(e.ID)
@@ -300,7 +299,6 @@ func (db *DB) setEntry(e *Entry) error {
 
 	id.SetContract(e.Contract)
 	e.entry.seq = seq
-	e.entry.expiresAt = e.ExpiresAt
 	val := snappy.Encode(nil, e.Payload)
 	if db.internal.dbInfo.encryption == 1 || e.Encryption {
 		eBit = 1
diff --git a/entry.go b/entry.go
index 71a6ec4..8a3390a 100644
--- a/entry.go
+++ b/entry.go
@@ -34,7 +34,6 @@ type (
 		valueSize uint32
 		expiresAt uint32 // expiresAt for recovery from log and not persisted to index file but persisted to the time window file.
 
-		parsed    bool
 		topicHash uint64 // topicHash for recovery from log and not persisted to the DB.
 		cache     []byte // entry from memdb if it exist.
 	}
@@ -80,7 +79,8 @@ func (e *Entry) WithContract(contract uint32) *Entry {
 func (e *Entry) WithTTL(ttl string) *Entry {
 	val, err := strconv.ParseInt(ttl, 10, 64)
 	if err == nil {
-		e.ExpiresAt = uint32(time.Now().Add(time.Duration(int(val)) * time.Second).Unix())
+		e.ExpiresAt = uint32(time.Now().Unix() + val)
+		return e
 	}
 	var duration time.Duration
 	duration, _ = time.ParseDuration(ttl)
@@ -97,7 +97,6 @@ func (e *Entry) WithEncryption() *Entry {
 func (e *Entry) reset() {
 	e.entry.seq = 0
 	e.entry.topicSize = 0
-	e.entry.parsed = false
 	e.entry.cache = nil
 	e.ID = nil
 	e.Payload = nil
diff --git a/message/topic.go b/message/topic.go
index 1173fe7..6a4878b 100644
--- a/message/topic.go
+++ b/message/topic.go
@@ -112,7 +112,7 @@ func (_SplitFunc) splitOpsKeyValue(c rune) bool {
 func (t *Topic) TTL() (uint32, bool) {
 	ttl, sec, ok := t.getOption("ttl")
 	if sec > 0 {
-		return uint32(time.Duration(sec) * time.Second), ok
+		return uint32(time.Now().Unix() + int64(sec)), ok
 	}
 	var duration time.Duration
 	duration, _ = time.ParseDuration(ttl)
-- 
2.43.0


From 3d3cd1becbe38bec302e320bfb71bdcdf98ab90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 19/28] fix: recover logged messages with their sequence after
 a crash and keep deleted ones deleted

---
 db.go             |  4 ++++
 memdb/recovery.go | 10 ++++++----
 recovery.go       | 11 ++++++++++-
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/db.go b/db.go
index 642add6..e366d43 100644
--- a/db.go
+++ b/db.go
@@ -193,6 +193,10 @@ func Open(path string, opts ...Options) (*DB, error) {
 		logger.Error().Err(err).Str("context", "db.readHeader")
 		return nil, err
 	}
+	// free blocks are allocated while DB is open so the list is not read again unless DB is closed.
+	if err := leaseFile.truncate(0); err != nil {
+		return nil, err
+	}
 
 	if err := db.recoverLog(); err != nil {
 		// if unable to recover db then close db.
diff --git a/memdb/recovery.go b/memdb/recovery.go
index c140950..6154edc 100644
--- a/memdb/recovery.go
+++ b/memdb/recovery.go
@@ -58,10 +58,6 @@ func (db *DB) delete(key uint64) error {
 			delete(block.records, ikey)
 			block.count--
 			db.internal.meter.Dels.Inc(1)
-			if len(block.records) == 0 {
-				delete(db.timeBlocks, _TimeID(timeID))
-				db.internal.buffer.Put(block.data)
-			}
 			block.Unlock()
 
 			return nil
@@ -166,6 +162,12 @@ func (db *DB) All(f func(timeID int64, keys []uint64) (bool, error)) (err error)
 		}
 		block.RUnlock()
 		if len(keys) == 0 {
+			// all entries are deleted, time blocks with the deleted entries are released first.
+			if timeID < db.timeID() {
+				if err := db.releaseLog(timeID); err != nil {
+					return err
+				}
+			}
 			continue
 		}
 		if stop, err := f(int64(timeID), keys); stop || err != nil {
diff --git a/recovery.go b/recovery.go
index 1da08d5..f68d473 100644
--- a/recovery.go
+++ b/recovery.go
@@ -20,6 +20,7 @@ import (
 	"errors"
 	"fmt"
 	"sort"
+	"sync/atomic"
 
 	"github.com/unit-io/unitdb/message"
 	// _ "net/http/pprof"
@@ -29,7 +30,9 @@ func (db *_SyncHandle) recoverWindowBlocks(windowEntries map[uint64]_WindowEntri
 	for h, wEntries := range windowEntries {
 		topicOff, ok := db.internal.trie.getOffset(h)
 		if !ok {
-			return fmt.Errorf("recovery.recoverWindowBlocks: timeWindow sync error, unable to get topic offset from trie %d", h)
+			// topic is not found so entries of the topic could not be queried.
+			logger.Error().Uint64("topicHash", h).Str("context", "recovery.recoverWindowBlocks").Msg("Unable to get topic offset from trie")
+			continue
 		}
 		wOff, err := db.windowWriter.append(h, topicOff, wEntries)
 		if err != nil {
@@ -50,6 +53,12 @@ func (db *_SyncHandle) startRecovery() error {
 		db.internal.closeW.Done()
 	}()
 	fmt.Println("db.recoverLog: start recovery")
+	// sequence of entries recovered from the log is not persisted if DB was not closed.
+	for _, seq := range db.internal.mem.Keys() {
+		if seq > db.seq() {
+			atomic.StoreUint64(&db.internal.dbInfo.sequence, seq)
+		}
+	}
 	if ok := db.startSync(); !ok {
 		return nil
 	}
-- 
2.43.0


From 55c8bcc3bc532e7a12fac13e5991a5da1d512409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:16 +0000
Subject: [PATCH 20/28] fix: release emptied time blocks, keep a deleted key's
 log until the blocks it was deleted from are released and add the current
 block again

---
 memdb/batch.go       |   3 ++
 memdb/block.go       |   1 +
 memdb/db.go          |  55 +++++-----------------
 memdb/db_internal.go | 110 ++++++++++++++++++++++++++++++++++++++++---
 memdb/recovery.go    |  72 +++++++++++++---------------
 memdb/time_mark.go   |   7 ++-
 6 files changed, 155 insertions(+), 93 deletions(-)

diff --git a/memdb/batch.go b/memdb/batch.go
index 10b98d4..833b18f 100644
--- a/memdb/batch.go
+++ b/memdb/batch.go
@@ -68,6 +68,9 @@ func (b *Batch) Put(key uint64, data []byte) error {
 
 	block.Lock()
 	defer block.Unlock()
+	if block.released {
+		return errForbidden
+	}
 	ikey := iKey(false, key)
 	if err := block.put(ikey, data); err != nil {
 		return err
diff --git a/memdb/block.go b/memdb/block.go
index 62adf3d..87dd8c4 100644
--- a/memdb/block.go
+++ b/memdb/block.go
@@ -54,6 +54,7 @@ type (
 
 		timeRefs   []_TimeID
 		lastOffset int64 // last offset of block data written to the log
+		released   bool  // set when the block is freed
 	}
 )
 
diff --git a/memdb/db.go b/memdb/db.go
index 8d5e353..961876c 100644
--- a/memdb/db.go
+++ b/memdb/db.go
@@ -119,12 +119,9 @@ func (db *DB) Close() error {
 
 // Keys gets all keys from DB.
 func (db *DB) Keys() []uint64 {
-	db.mu.RLock()
-	defer db.mu.RUnlock()
-
 	var keys []uint64
 
-	for _, block := range db.timeBlocks {
+	for _, block := range db.blocks() {
 		block.RLock()
 		for ik := range block.records {
 			if ik.delFlag == 0 {
@@ -154,7 +151,7 @@ func (db *DB) Lookup(timeID int64, key uint64) ([]byte, error) {
 	defer block.RUnlock()
 	// Get item from block.
 	off, ok := block.records[iKey(false, key)]
-	if !ok {
+	if !ok || block.released {
 		return nil, errEntryDoesNotExist
 	}
 	scratch, err := block.data.Slice(off, off+4) // read data length.
@@ -184,7 +181,7 @@ func (db *DB) Get(key uint64) ([]byte, error) {
 		}
 		block.RLock()
 		off, ok := block.records[iKey(false, key)]
-		if ok {
+		if ok && !block.released {
 			defer block.RUnlock()
 			db.internal.meter.Gets.Inc(1)
 
@@ -199,31 +196,7 @@ func (db *DB) Get(key uint64) ([]byte, error) {
 // BlockIterator iterates all time blocks from DB committed to the WAL.
 func (db *DB) BlockIterator(f func(timeID int64, keys []uint64) (bool, error)) (err error) {
 	// Get timeBlocks successfully committed to WAL.
-	timeIDs := db.internal.timeMark.timeRefs(db.timeID())
-	for _, timeID := range timeIDs {
-		db.mu.RLock()
-		block, ok := db.timeBlocks[timeID]
-		db.mu.RUnlock()
-		if !ok {
-			continue
-		}
-		var keys []uint64
-		block.RLock()
-		for ik := range block.records {
-			if ik.delFlag == 0 {
-				keys = append(keys, ik.key)
-			}
-		}
-		block.RUnlock()
-		if len(keys) == 0 {
-			continue
-		}
-		if stop, err := f(int64(timeID), keys); stop || err != nil {
-			return err
-		}
-	}
-
-	return nil
+	return db.iterateBlocks(db.internal.timeMark.timeRefs(db.timeID()), f)
 }
 
 // Delete deletes entry from the DB.
@@ -252,6 +225,10 @@ func (db *DB) Delete(key uint64) error {
 		defer timeLock.RUnlock()
 
 		block.Lock()
+		if block.released {
+			block.Unlock()
+			return errEntryDoesNotExist
+		}
 		if err := block.delete(key); err != nil {
 			block.Unlock()
 			return err
@@ -287,15 +264,10 @@ func (db *DB) Put(key uint64, data []byte) (int64, error) {
 		return 0, err
 	}
 
-	timeID := db.timeID()
-	db.mu.RLock()
-	block, ok := db.timeBlocks[timeID]
-	db.mu.RUnlock()
-	if !ok {
-		return 0, errForbidden
+	timeID, block, err := db.lockTimeBlock()
+	if err != nil {
+		return 0, err
 	}
-
-	block.Lock()
 	defer block.Unlock()
 	ikey := iKey(false, key)
 	if err := block.put(ikey, data); err != nil {
@@ -348,10 +320,7 @@ func (db *DB) Free(timeID int64) error {
 // Size returns the total number of entries in DB.
 func (db *DB) Size() int64 {
 	size := int64(0)
-	db.mu.RLock()
-	defer db.mu.RUnlock()
-
-	for _, block := range db.timeBlocks {
+	for _, block := range db.blocks() {
 		block.RLock()
 		size += block.count
 		block.RUnlock()
diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index 11c6884..0e1b662 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -140,6 +140,17 @@ func (db *DB) addTimeBlock(timeID _TimeID) (ok bool) {
 	return false
 }
 
+// blocks returns time blocks of the DB.
+func (db *DB) blocks() (blocks []*_Block) {
+	db.mu.RLock()
+	defer db.mu.RUnlock()
+	for _, block := range db.timeBlocks {
+		blocks = append(blocks, block)
+	}
+
+	return blocks
+}
+
 func (db *DB) timeBlock(timeID _TimeID) (*_Block, bool) {
 	db.mu.RLock()
 	defer db.mu.RUnlock()
@@ -150,6 +161,25 @@ func (db *DB) timeBlock(timeID _TimeID) (*_Block, bool) {
 	return nil, false
 }
 
+// lockTimeBlock locks and returns the time block of the current tinyLog, the block is added again if it is released.
+func (db *DB) lockTimeBlock() (_TimeID, *_Block, error) {
+	for {
+		timeID := db.timeID()
+		block, ok := db.timeBlock(timeID)
+		if !ok {
+			db.addTimeBlock(timeID)
+			if block, ok = db.timeBlock(timeID); !ok {
+				return timeID, nil, errForbidden
+			}
+		}
+		block.Lock()
+		if !block.released {
+			return timeID, block, nil
+		}
+		block.Unlock()
+	}
+}
+
 // addTimeFilter adds unique time block to the set.
 func (db *DB) addTimeFilter(timeID _TimeID, key uint64) error {
 	blockKey := db.blockKey(key)
@@ -192,16 +222,71 @@ func (db *DB) timeRecords(key uint64) (timeIDs []_TimeID) {
 	return timeIDs
 }
 
+// iterateBlocks iterates time blocks for the provided time IDs. A time block is iterated
+// after the time blocks its deleted entries were deleted from, as releasing it releases the
+// log of deleted keys. Time blocks without entries are released.
+func (db *DB) iterateBlocks(timeIDs []_TimeID, f func(timeID int64, keys []uint64) (bool, error)) error {
+	pending := make(map[_TimeID]bool)
+	for _, timeID := range timeIDs {
+		pending[timeID] = true
+	}
+	var visit func(timeID _TimeID) (bool, error)
+	visit = func(timeID _TimeID) (bool, error) {
+		if !pending[timeID] {
+			return false, nil
+		}
+		delete(pending, timeID)
+		block, ok := db.timeBlock(timeID)
+		if !ok {
+			return false, nil
+		}
+		var timeRefs []_TimeID
+		block.RLock()
+		for _, refs := range block.delKeys {
+			timeRefs = append(timeRefs, refs...)
+		}
+		block.RUnlock()
+		for _, timeRef := range timeRefs {
+			if stop, err := visit(timeRef); stop || err != nil {
+				return stop, err
+			}
+		}
+		var keys []uint64
+		block.RLock()
+		for ik := range block.records {
+			if ik.delFlag == 0 {
+				keys = append(keys, ik.key)
+			}
+		}
+		block.RUnlock()
+		if len(keys) == 0 {
+			// all entries are deleted.
+			if timeID < db.timeID() {
+				if err := db.releaseLog(timeID); err != nil && err != errEntryDoesNotExist {
+					return true, err
+				}
+			}
+			return false, nil
+		}
+		return f(int64(timeID), keys)
+	}
+	for _, timeID := range timeIDs {
+		if stop, err := visit(timeID); stop || err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
+
 // move moves the entry to the new block
 func (db *DB) move(timeID _TimeID, key uint64) error {
-	newTimeID := db.timeID()
 	// add deleted key to new time block to persist deleted entry to the WAL.
 	dkey := iKey(true, key)
-	newBlock, ok := db.timeBlock(newTimeID)
-	if !ok {
-		return errForbidden
+	_, newBlock, err := db.lockTimeBlock()
+	if err != nil {
+		return err
 	}
-	newBlock.Lock()
 	defer newBlock.Unlock()
 
 	rawTimeID := make([]byte, 8)
@@ -225,6 +310,10 @@ func (db *DB) tinyWrite(tinyLog *_TinyLog) error {
 		return nil
 	}
 	block.RLock()
+	if block.released {
+		block.RUnlock()
+		return nil
+	}
 	blockSize := block.data.Size()
 	log, err := block.data.Slice(block.lastOffset, blockSize)
 	block.RUnlock()
@@ -249,6 +338,9 @@ func (db *DB) tinyWrite(tinyLog *_TinyLog) error {
 
 	block.Lock()
 	defer block.Unlock()
+	if block.released {
+		return db.internal.wal.SignalLogApplied(int64(tinyLog.ID()))
+	}
 	block.lastOffset = blockSize
 	block.timeRefs = append(block.timeRefs, tinyLog.ID())
 
@@ -278,8 +370,11 @@ func (db *DB) releaseLog(timeID _TimeID) error {
 		return errEntryDoesNotExist
 	}
 
-	block.RLock()
-	defer block.RUnlock()
+	block.Lock()
+	defer block.Unlock()
+	if block.released {
+		return errEntryDoesNotExist
+	}
 	for _, timeRef := range block.timeRefs {
 		if err := db.internal.wal.SignalLogApplied(int64(timeRef)); err != nil {
 			return err
@@ -297,6 +392,7 @@ func (db *DB) releaseLog(timeID _TimeID) error {
 	delete(db.timeBlocks, _TimeID(timeID))
 	db.internal.timeMark.timeUnref(timeID)
 
+	block.released = true
 	db.internal.buffer.Put(block.data)
 
 	return nil
diff --git a/memdb/recovery.go b/memdb/recovery.go
index 6154edc..c93b5ca 100644
--- a/memdb/recovery.go
+++ b/memdb/recovery.go
@@ -24,15 +24,15 @@ import (
 	"github.com/unit-io/unitdb/filter"
 )
 
-// delete deletes entry from the DB.
+// delete deletes entry from the DB and returns ID of the time block it is deleted from.
 //
 // This method is not thread safe.
-func (db *DB) delete(key uint64) error {
+func (db *DB) delete(key uint64) (_TimeID, error) {
 	// Get time block
 	blockKey := db.blockKey(key)
 	r, ok := db.timeFilters[blockKey]
 	if !ok {
-		return errEntryDoesNotExist
+		return 0, errEntryDoesNotExist
 	}
 
 	var timeIDs []_TimeID
@@ -60,11 +60,16 @@ func (db *DB) delete(key uint64) error {
 			db.internal.meter.Dels.Inc(1)
 			block.Unlock()
 
-			return nil
+			return timeID, nil
 		}
 	}
 
-	return errEntryDoesNotExist
+	return 0, errEntryDoesNotExist
+}
+
+// recoveryID returns ID of the time block a log is recovered into.
+func (db *DB) recoveryID(ID _TimeID) _TimeID {
+	return _TimeID(time.Unix(0, int64(ID)).UTC().Truncate(db.opts.logInterval).UnixNano())
 }
 
 // startRecovery recovers pending entries from the WAL.
@@ -78,10 +83,14 @@ func (db *DB) startRecovery() error {
 		return err
 	}
 
+	// keys deleted from batches, the log of a batch could be of the same age as the log with its deleted keys.
+	batchKeys := make(map[_TimeID]map[uint64]bool)
+
 	err = r.Iterator(func(ID int64) (ok bool, err error) {
 		log := make(map[uint64][]byte)
+		delKeys := make(map[uint64][]_TimeID)
 		l := r.Count()
-		timeID := _TimeID(time.Unix(0, ID).UTC().Truncate(db.opts.logInterval).UnixNano())
+		timeID := db.recoveryID(_TimeID(ID))
 		for i := uint32(0); i < l; i++ {
 			logData, ok, err := r.Next()
 			if err != nil {
@@ -102,8 +111,17 @@ func (db *DB) startRecovery() error {
 				if dBit == 1 {
 					// logs are in the order written so the deleted entry precedes.
 					delete(log, key)
-					db.delete(key)
-				} else {
+					if timeRef, err := db.delete(key); err == nil {
+						delKeys[key] = append(delKeys[key], timeRef)
+					} else if len(val) == 8 {
+						timeRef := _TimeID(binary.LittleEndian.Uint64(val))
+						if batchKeys[timeRef] == nil {
+							batchKeys[timeRef] = make(map[uint64]bool)
+						}
+						batchKeys[timeRef][key] = true
+						delKeys[key] = append(delKeys[key], db.recoveryID(timeRef))
+					}
+				} else if !batchKeys[_TimeID(ID)][key] {
 					log[key] = val
 				}
 			}
@@ -114,6 +132,12 @@ func (db *DB) startRecovery() error {
 				db.timeBlocks[timeID] = block
 			}
 			block.Lock()
+			for key, timeRefs := range delKeys {
+				if block.delKeys == nil {
+					block.delKeys = make(map[uint64][]_TimeID)
+				}
+				block.delKeys[key] = append(block.delKeys[key], timeRefs...)
+			}
 			for key, val := range log {
 				ikey := iKey(false, key)
 				if err := block.put(ikey, val); err != nil {
@@ -145,35 +169,5 @@ func (db *DB) startRecovery() error {
 // All gets all keys from DB recovered from WAL.
 func (db *DB) All(f func(timeID int64, keys []uint64) (bool, error)) (err error) {
 	// Get timeIDs of timeBlock successfully committed to WAL.
-	timeIDs := db.internal.timeMark.allRefs()
-	for _, timeID := range timeIDs {
-		db.mu.RLock()
-		block, ok := db.timeBlocks[timeID]
-		db.mu.RUnlock()
-		if !ok {
-			continue
-		}
-		var keys []uint64
-		block.RLock()
-		for ik := range block.records {
-			if ik.delFlag == 0 {
-				keys = append(keys, ik.key)
-			}
-		}
-		block.RUnlock()
-		if len(keys) == 0 {
-			// all entries are deleted, time blocks with the deleted entries are released first.
-			if timeID < db.timeID() {
-				if err := db.releaseLog(timeID); err != nil {
-					return err
-				}
-			}
-			continue
-		}
-		if stop, err := f(int64(timeID), keys); stop || err != nil {
-			return err
-		}
-	}
-
-	return nil
+	return db.iterateBlocks(db.internal.timeMark.allRefs(), f)
 }
diff --git a/memdb/time_mark.go b/memdb/time_mark.go
index d13797b..54b88e2 100644
--- a/memdb/time_mark.go
+++ b/memdb/time_mark.go
@@ -41,10 +41,9 @@ func newTimeMark() *_TimeMark {
 func (tm *_TimeMark) add(timeID _TimeID) {
 	tm.Lock()
 	defer tm.Unlock()
-	if r, ok := tm.records[timeID]; ok {
-		r.refs++
-	}
-	tm.records[timeID] = _TimeRecord{refs: 1}
+	r := tm.records[timeID]
+	r.refs++
+	tm.records[timeID] = r
 }
 
 func (tm *_TimeMark) release(timeID _TimeID) {
-- 
2.43.0


From 2d94a8ef4413a2a723f02d00adcf432a06b05bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:24 +0000
Subject: [PATCH 21/28] fix: keep deleted keys when their block is freed,
 recover logs into their time blocks once and put into the current block only

---
 memdb/batch.go       |  2 +-
 memdb/db.go          | 18 +++--------------
 memdb/db_internal.go | 47 +++++++++++++++++++++++++++++++++++++++++---
 memdb/recovery.go    |  4 +++-
 4 files changed, 51 insertions(+), 20 deletions(-)

diff --git a/memdb/batch.go b/memdb/batch.go
index 833b18f..5591ad7 100644
--- a/memdb/batch.go
+++ b/memdb/batch.go
@@ -132,7 +132,7 @@ func (b *Batch) Abort() error {
 	}
 	// release time blocks of the batch including the block that is not written.
 	for _, ID := range append(b.batchGroup, b.tinyLog.timeID()) {
-		if err := b.db.releaseLog(ID); err != nil && err != errEntryDoesNotExist {
+		if err := b.db.releaseLog(ID, false); err != nil && err != errEntryDoesNotExist {
 			return err
 		}
 	}
diff --git a/memdb/db.go b/memdb/db.go
index 961876c..27335a0 100644
--- a/memdb/db.go
+++ b/memdb/db.go
@@ -238,21 +238,9 @@ func (db *DB) Delete(key uint64) error {
 			block.Unlock()
 			return db.move(timeID, key)
 		}
-		// all entries are deleted from the block, move entries deleted from
-		// other time blocks and release timeblock from the WAL.
-		delKeys := block.delKeys
+		// all entries are deleted from the block, release timeblock from the WAL.
 		block.Unlock()
-		for key, refs := range delKeys {
-			for _, timeRef := range refs {
-				if _, ok := db.timeBlock(timeRef); !ok || timeRef == timeID {
-					continue
-				}
-				if err := db.move(timeRef, key); err != nil {
-					return err
-				}
-			}
-		}
-		return db.releaseLog(timeID)
+		return db.free(timeID, true)
 	}
 
 	return errEntryDoesNotExist
@@ -314,7 +302,7 @@ func (db *DB) Batch(fn func(*Batch, <-chan struct{}) error) error {
 
 // Free frees time block from DB for a provided time ID and releases block from WAL.
 func (db *DB) Free(timeID int64) error {
-	return db.releaseLog(_TimeID(timeID))
+	return db.free(_TimeID(timeID), false)
 }
 
 // Size returns the total number of entries in DB.
diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index 0e1b662..f1c94e7 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -173,7 +173,7 @@ func (db *DB) lockTimeBlock() (_TimeID, *_Block, error) {
 			}
 		}
 		block.Lock()
-		if !block.released {
+		if !block.released && timeID == db.timeID() {
 			return timeID, block, nil
 		}
 		block.Unlock()
@@ -262,7 +262,7 @@ func (db *DB) iterateBlocks(timeIDs []_TimeID, f func(timeID int64, keys []uint6
 		if len(keys) == 0 {
 			// all entries are deleted.
 			if timeID < db.timeID() {
-				if err := db.releaseLog(timeID); err != nil && err != errEntryDoesNotExist {
+				if err := db.releaseLog(timeID, true); err != nil && err != errEntryDoesNotExist {
 					return true, err
 				}
 			}
@@ -362,7 +362,45 @@ func (db *DB) tinyCommit(tinyLog *_TinyLog) error {
 	return nil
 }
 
-func (db *DB) releaseLog(timeID _TimeID) error {
+// free releases the time block, entries deleted from other time blocks are moved to the new block.
+// It does not release the time block if it is not empty when only the empty block is to be released.
+func (db *DB) free(timeID _TimeID, empty bool) error {
+	block, ok := db.timeBlock(timeID)
+	if !ok {
+		return errEntryDoesNotExist
+	}
+	delKeys := make(map[uint64][]_TimeID)
+	block.RLock()
+	for key, timeRefs := range block.delKeys {
+		delKeys[key] = append(delKeys[key], timeRefs...)
+	}
+	block.RUnlock()
+	move := func() error {
+		for key, timeRefs := range delKeys {
+			for _, timeRef := range timeRefs {
+				if _, ok := db.timeBlock(timeRef); !ok || timeRef == timeID {
+					continue
+				}
+				if err := db.move(timeRef, key); err != nil {
+					return err
+				}
+			}
+		}
+		return nil
+	}
+	if timeID < db.timeID() {
+		if err := move(); err != nil {
+			return err
+		}
+		return db.releaseLog(timeID, empty)
+	}
+	if err := db.releaseLog(timeID, empty); err != nil {
+		return err
+	}
+	return move()
+}
+
+func (db *DB) releaseLog(timeID _TimeID, empty bool) error {
 	db.mu.RLock()
 	block, ok := db.timeBlocks[timeID]
 	db.mu.RUnlock()
@@ -375,6 +413,9 @@ func (db *DB) releaseLog(timeID _TimeID) error {
 	if block.released {
 		return errEntryDoesNotExist
 	}
+	if empty && block.count != 0 {
+		return nil
+	}
 	for _, timeRef := range block.timeRefs {
 		if err := db.internal.wal.SignalLogApplied(int64(timeRef)); err != nil {
 			return err
diff --git a/memdb/recovery.go b/memdb/recovery.go
index c93b5ca..0e25cae 100644
--- a/memdb/recovery.go
+++ b/memdb/recovery.go
@@ -69,7 +69,7 @@ func (db *DB) delete(key uint64) (_TimeID, error) {
 
 // recoveryID returns ID of the time block a log is recovered into.
 func (db *DB) recoveryID(ID _TimeID) _TimeID {
-	return _TimeID(time.Unix(0, int64(ID)).UTC().Truncate(db.opts.logInterval).UnixNano())
+	return _TimeID(time.Unix(0, int64(ID)).UTC().Truncate(db.opts.timeBlockDuration).UnixNano())
 }
 
 // startRecovery recovers pending entries from the WAL.
@@ -155,6 +155,8 @@ func (db *DB) startRecovery() error {
 				}
 				db.internal.meter.Puts.Inc(1)
 			}
+			// recovered entries are in the log.
+			block.lastOffset = block.data.Size()
 			block.timeRefs = append(block.timeRefs, _TimeID(ID))
 			block.Unlock()
 			db.internal.timeMark.release(timeID)
-- 
2.43.0


From 3845f78851b974fc78460565ce32509a96a47c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:50 +0000
Subject: [PATCH 22/28] fix: skip resumed message identifiers without taking
 the lock again

---
 server/internal/message/messageids.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/internal/message/messageids.go b/server/internal/message/messageids.go
index efd508b..34bbf8f 100644
--- a/server/internal/message/messageids.go
+++ b/server/internal/message/messageids.go
@@ -61,8 +61,8 @@ func (mids *MessageIds) NextID(pktType utp.MessageType) MID {
 	mids.Lock()
 	defer mids.Unlock()
 	mids.id++
-	if _, ok := mids.resume[mids.id]; ok {
-		mids.NextID(pktType)
+	for _, ok := mids.resume[mids.id]; ok; _, ok = mids.resume[mids.id] {
+		mids.id++
 	}
 	mids.index[mids.id] = pktType
 	return mids.id
-- 
2.43.0


From ea1a893ccf1d086a6801b6a5396d5d06f130d5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:50 +0000
Subject: [PATCH 23/28] fix: do not receive a message to read into an empty
 slice

---
 server/common/conn.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/common/conn.go b/server/common/conn.go
index 78fb682..786ce13 100644
--- a/server/common/conn.go
+++ b/server/common/conn.go
@@ -76,6 +76,12 @@ func (c *Conn) Read(p []byte) (n int, err error) {
 	c.readLock.Lock()
 	defer c.readLock.Unlock()
 
+	// Nothing can be decoded into an empty slice, receiving a value for it
+	// would lose the value.
+	if len(p) == 0 {
+		return 0, nil
+	}
+
 	// Attempt to read a value only if we're not still decoding a
 	// partial read value from the last result.
 	if c.readOffset == 0 {
-- 
2.43.0


From 7173606ac32834c7122c18b38999998da475127a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:50 +0000
Subject: [PATCH 24/28] fix: report malformed packets, decode ping replies and
 disconnect messages in full

---
 server/internal/net/message.go | 28 ++++++++++++++++++----------
 server/utp/connect.go          | 32 +++++++++++++++++++++++---------
 server/utp/flow_control.go     |  7 +++++--
 server/utp/message.go          | 12 +++++++++---
 server/utp/publish.go          |  7 +++++--
 server/utp/relay.go            |  7 +++++--
 server/utp/subscribe.go        | 14 ++++++++++----
 7 files changed, 75 insertions(+), 32 deletions(-)

diff --git a/server/internal/net/message.go b/server/internal/net/message.go
index 5c38aa7..f71680c 100644
--- a/server/internal/net/message.go
+++ b/server/internal/net/message.go
@@ -27,7 +27,7 @@ import (
 // MessagePack is the interface for all Messages
 type MessagePack interface {
 	ToBinary() (bytes.Buffer, error)
-	FromBinary(fh utp.FixedHeader, data []byte)
+	FromBinary(fh utp.FixedHeader, data []byte) error
 	Type() utp.MessageType
 	Info() utp.Info
 }
@@ -46,23 +46,25 @@ func Read(r io.Reader) (MessagePack, error) {
 		// return &utp.Pingreq{}, nil
 		fmt.Println("message::Read: Invalid zero-length packet type ", fh.MessageType)
 		return nil, fmt.Errorf("message::Read: Invalid zero-length packet type %d", fh.MessageType)
-	case utp.PINGREQ:
-		return &utp.Pingreq{}, nil
-	case utp.DISCONNECT:
-		return &utp.Disconnect{}, nil
 	}
 
-	rawMsg := make([]byte, fh.MessageLength)
-	_, err := io.ReadFull(r, rawMsg)
-	if err != nil {
+	// the message is read before room is made for all of it, its length is not to be trusted
+	var body bytes.Buffer
+	if _, err := io.CopyN(&body, r, int64(fh.MessageLength)); err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 		return nil, err
 	}
+	rawMsg := body.Bytes()
 
 	// unpack the body
 	var pack MessagePack
 	if fh.FlowControl != utp.NONE {
 		pack = &utp.ControlMessage{}
-		pack.FromBinary(fh, rawMsg)
+		if err := pack.FromBinary(fh, rawMsg); err != nil {
+			return nil, err
+		}
 		return pack, nil
 	}
 	switch fh.MessageType {
@@ -76,11 +78,17 @@ func Read(r io.Reader) (MessagePack, error) {
 		pack = &utp.Subscribe{}
 	case utp.UNSUBSCRIBE:
 		pack = &utp.Unsubscribe{}
+	case utp.PINGREQ:
+		pack = &utp.Pingreq{}
+	case utp.DISCONNECT:
+		pack = &utp.Disconnect{}
 	default:
 		return nil, fmt.Errorf("message::Read: Invalid zero-length packet type %d", fh.MessageType)
 	}
 
-	pack.FromBinary(fh, rawMsg)
+	if err := pack.FromBinary(fh, rawMsg); err != nil {
+		return nil, err
+	}
 	return pack, nil
 }
 
diff --git a/server/utp/connect.go b/server/utp/connect.go
index acd9d37..f11ecc6 100644
--- a/server/utp/connect.go
+++ b/server/utp/connect.go
@@ -86,9 +86,11 @@ func (c *Connect) ToBinary() (bytes.Buffer, error) {
 	return buf, err
 }
 
-func (c *Connect) FromBinary(fh FixedHeader, data []byte) {
+func (c *Connect) FromBinary(fh FixedHeader, data []byte) error {
 	var conn pbx.Connect
-	proto.Unmarshal(data, &conn)
+	if err := proto.Unmarshal(data, &conn); err != nil {
+		return err
+	}
 
 	c.Version = conn.Version
 	c.InsecureFlag = conn.InsecureFlag
@@ -101,6 +103,7 @@ func (c *Connect) FromBinary(fh FixedHeader, data []byte) {
 	c.BatchDuration = conn.BatchDuration
 	c.BatchByteThreshold = conn.BatchByteThreshold
 	c.BatchCountThreshold = conn.BatchCountThreshold
+	return nil
 }
 
 // Type returns the Message type.
@@ -128,13 +131,16 @@ func (c *ConnectAcknowledge) ToBinary() (bytes.Buffer, error) {
 	return buf, err
 }
 
-func (c *ConnectAcknowledge) FromBinary(fh FixedHeader, data []byte) {
+func (c *ConnectAcknowledge) FromBinary(fh FixedHeader, data []byte) error {
 	var connack pbx.ConnectAcknowledge
-	proto.Unmarshal(data, &connack)
+	if err := proto.Unmarshal(data, &connack); err != nil {
+		return err
+	}
 
 	c.ReturnCode = uint8(connack.ReturnCode)
 	c.Epoch = connack.Epoch
 	c.ConnID = connack.ConnID
+	return nil
 }
 
 // Type returns the Message type.
@@ -160,9 +166,12 @@ func (p *Pingreq) ToBinary() (bytes.Buffer, error) {
 	return buf, err
 }
 
-func (p *Pingreq) FromBinary(fh FixedHeader, data []byte) {
+func (p *Pingreq) FromBinary(fh FixedHeader, data []byte) error {
 	var pingreq pbx.PingRequest
-	proto.Unmarshal(data, &pingreq)
+	if err := proto.Unmarshal(data, &pingreq); err != nil {
+		return err
+	}
+	return nil
 }
 
 // Type returns the Message type.
@@ -177,7 +186,9 @@ func (p *Pingreq) Info() Info {
 
 func (d *Disconnect) ToBinary() (bytes.Buffer, error) {
 	var buf bytes.Buffer
-	var disc pbx.Disconnect
+	disc := pbx.Disconnect{
+		MessageID: int32(d.MessageID),
+	}
 	rawMsg, err := proto.Marshal(&disc)
 	if err != nil {
 		return buf, err
@@ -188,11 +199,14 @@ func (d *Disconnect) ToBinary() (bytes.Buffer, error) {
 	return buf, err
 }
 
-func (d *Disconnect) FromBinary(fh FixedHeader, data []byte) {
+func (d *Disconnect) FromBinary(fh FixedHeader, data []byte) error {
 	var disc pbx.Disconnect
-	proto.Unmarshal(data, &disc)
+	if err := proto.Unmarshal(data, &disc); err != nil {
+		return err
+	}
 
 	d.MessageID = uint16(disc.MessageID)
+	return nil
 }
 
 // Type returns the Message type.
diff --git a/server/utp/flow_control.go b/server/utp/flow_control.go
index d04931e..4d23db0 100644
--- a/server/utp/flow_control.go
+++ b/server/utp/flow_control.go
@@ -86,14 +86,17 @@ func (c *ControlMessage) ToBinary() (bytes.Buffer, error) {
 	return buf, err
 }
 
-func (c *ControlMessage) FromBinary(fh FixedHeader, data []byte) {
+func (c *ControlMessage) FromBinary(fh FixedHeader, data []byte) error {
 	var ctrl pbx.ControlMessage
-	proto.Unmarshal(data, &ctrl)
+	if err := proto.Unmarshal(data, &ctrl); err != nil {
+		return err
+	}
 
 	c.MessageID = uint16(ctrl.MessageID)
 	c.MessageType = fh.MessageType
 	c.FlowControl = fh.FlowControl
 	c.Message = ctrl.Message
+	return nil
 }
 
 // Type returns the Message type.
diff --git a/server/utp/message.go b/server/utp/message.go
index 69d3f72..0f070f5 100644
--- a/server/utp/message.go
+++ b/server/utp/message.go
@@ -18,6 +18,7 @@ package utp
 
 import (
 	"bytes"
+	"errors"
 	"io"
 
 	"github.com/golang/protobuf/proto"
@@ -94,7 +95,12 @@ func (fh *FixedHeader) FromBinary(r io.Reader) error {
 	}
 
 	var h pbx.FixedHeader
-	proto.Unmarshal(head, &h)
+	if err := proto.Unmarshal(head, &h); err != nil {
+		return err
+	}
+	if h.MessageLength < 0 {
+		return errors.New("utp: invalid message length")
+	}
 
 	*fh = FixedHeader{
 		MessageType:   MessageType(h.MessageType),
@@ -134,9 +140,9 @@ func decodeLength(r io.Reader) (int, error) {
 		digit := b[0]
 		rLength |= uint32(digit&127) << multiplier
 		if (digit & 128) == 0 {
-			break
+			return int(rLength), nil
 		}
 		multiplier += 7
 	}
-	return int(rLength), nil
+	return 0, errors.New("utp: invalid length")
 }
diff --git a/server/utp/publish.go b/server/utp/publish.go
index 62e013b..c2beb6d 100644
--- a/server/utp/publish.go
+++ b/server/utp/publish.go
@@ -65,9 +65,11 @@ func (p *Publish) ToBinary() (bytes.Buffer, error) {
 	return buf, err
 }
 
-func (p *Publish) FromBinary(fh FixedHeader, data []byte) {
+func (p *Publish) FromBinary(fh FixedHeader, data []byte) error {
 	var pub pbx.Publish
-	proto.Unmarshal(data, &pub)
+	if err := proto.Unmarshal(data, &pub); err != nil {
+		return err
+	}
 	var pubMessages []*PublishMessage
 	for _, protoMsg := range pub.Messages {
 		pubMsg := &PublishMessage{
@@ -80,6 +82,7 @@ func (p *Publish) FromBinary(fh FixedHeader, data []byte) {
 	p.MessageID = uint16(pub.MessageID)
 	p.DeliveryMode = uint8(pub.DeliveryMode)
 	p.Messages = pubMessages
+	return nil
 }
 
 // Type returns the Message type.
diff --git a/server/utp/relay.go b/server/utp/relay.go
index d6be82c..d720208 100644
--- a/server/utp/relay.go
+++ b/server/utp/relay.go
@@ -62,9 +62,11 @@ func (r *Relay) ToBinary() (bytes.Buffer, error) {
 	return buf, err
 }
 
-func (r *Relay) FromBinary(fh FixedHeader, data []byte) {
+func (r *Relay) FromBinary(fh FixedHeader, data []byte) error {
 	var rel pbx.Relay
-	proto.Unmarshal(data, &rel)
+	if err := proto.Unmarshal(data, &rel); err != nil {
+		return err
+	}
 	var reqs []*RelayRequest
 	for _, req := range rel.RelayRequests {
 		r := &RelayRequest{
@@ -76,6 +78,7 @@ func (r *Relay) FromBinary(fh FixedHeader, data []byte) {
 
 	r.MessageID = uint16(rel.MessageID)
 	r.RelayRequests = reqs
+	return nil
 }
 
 // Type returns the Message type.
diff --git a/server/utp/subscribe.go b/server/utp/subscribe.go
index 5fb2bf0..4955a80 100644
--- a/server/utp/subscribe.go
+++ b/server/utp/subscribe.go
@@ -72,9 +72,11 @@ func (s *Subscribe) ToBinary() (bytes.Buffer, error) {
 	return buf, err
 }
 
-func (s *Subscribe) FromBinary(fh FixedHeader, data []byte) {
+func (s *Subscribe) FromBinary(fh FixedHeader, data []byte) error {
 	var sub pbx.Subscribe
-	proto.Unmarshal(data, &sub)
+	if err := proto.Unmarshal(data, &sub); err != nil {
+		return err
+	}
 	var subs []*Subscription
 	for _, subscription := range sub.Subscriptions {
 		sub := &Subscription{
@@ -87,6 +89,7 @@ func (s *Subscribe) FromBinary(fh FixedHeader, data []byte) {
 
 	s.MessageID = uint16(sub.MessageID)
 	s.Subscriptions = subs
+	return nil
 }
 
 // Type returns the Message type.
@@ -124,9 +127,11 @@ func (u *Unsubscribe) ToBinary() (bytes.Buffer, error) {
 	return buf, err
 }
 
-func (u *Unsubscribe) FromBinary(fh FixedHeader, data []byte) {
+func (u *Unsubscribe) FromBinary(fh FixedHeader, data []byte) error {
 	var unsub pbx.Unsubscribe
-	proto.Unmarshal(data, &unsub)
+	if err := proto.Unmarshal(data, &unsub); err != nil {
+		return err
+	}
 	var subs []*Subscription
 	for _, subscription := range unsub.Subscriptions {
 		sub := &Subscription{
@@ -139,6 +144,7 @@ func (u *Unsubscribe) FromBinary(fh FixedHeader, data []byte) {
 
 	u.MessageID = uint16(unsub.MessageID)
 	u.Subscriptions = subs
+	return nil
 }
 
 // Type returns the Message type.
-- 
2.43.0


From b495edb41d83f5c83ac01faf935deaf7d3c6c910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:51 +0000
Subject: [PATCH 25/28] fix: count subscriptions of a connection by topic, a
 key may be for several topics or missing

---
 server/internal/conn.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/server/internal/conn.go b/server/internal/conn.go
index 0f8fd83..a50e647 100644
--- a/server/internal/conn.go
+++ b/server/internal/conn.go
@@ -181,14 +181,8 @@ func (c *_Conn) subscribe(subMsg utp.Subscribe, topic *security.Topic, sub *utp.
 	c.Lock()
 	defer c.Unlock()
 
-	key := string(topic.Key)
-	if key == "" {
-		key, err = security.GenerateKey(c.clientID.Contract(), topic.Topic, security.AllowNone)
-		if err != nil {
-			log.ErrLogger.Err(err).Str("context", "conn.subscribe")
-			return err
-		}
-	}
+	// A key may be for several topics, a subscription is for one.
+	key := topic.Topic[:topic.Size]
 	if exists := c.subs.Exist(key); exists && !subMsg.IsForwarded && Globals.Cluster.isRemoteContract(fmt.Sprint(c.clientID.Contract())) {
 		// The contract is handled by a remote node. Forward message to it.
 		if err := Globals.Cluster.routeToContract(&subMsg, topic, message.SUBSCRIBE, &message.Message{}, c); err != nil {
@@ -223,7 +217,7 @@ func (c *_Conn) unsubscribe(unsubMsg utp.Unsubscribe, topic *security.Topic) (er
 	c.Lock()
 	defer c.Unlock()
 
-	key := string(topic.Key)
+	key := topic.Topic[:topic.Size]
 	// Remove the subscription from stats and if there's no more subscriptions, notify everyone.
 	if last, messageID := c.subs.Decrement(topic.Topic[:topic.Size], key); last {
 		// Unsubscribe the subscriber
-- 
2.43.0


From e2544acbda90b3b5034f74fe86cb6ef267cc275d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:51 +0000
Subject: [PATCH 26/28] fix: publishing needs the write permission of a key

---
 server/internal/hdl_conn.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/server/internal/hdl_conn.go b/server/internal/hdl_conn.go
index 7c1beb9..8ba5b51 100644
--- a/server/internal/hdl_conn.go
+++ b/server/internal/hdl_conn.go
@@ -357,7 +357,7 @@ func (c *_Conn) onRelay(req *utp.RelayRequest) *types.Error {
 	}
 
 	if !c.insecure {
-		if _, err := c.onSecureRequest(topic); err != nil {
+		if _, err := c.onSecureRequest(topic, security.AllowRead); err != nil {
 			return err
 		}
 	}
@@ -392,7 +392,7 @@ func (c *_Conn) onSubscribe(subMsg utp.Subscribe, sub *utp.Subscription) *types.
 	}
 
 	if !c.insecure {
-		if _, err := c.onSecureRequest(topic); err != nil {
+		if _, err := c.onSecureRequest(topic, security.AllowRead); err != nil {
 			return err
 		}
 	}
@@ -418,7 +418,7 @@ func (c *_Conn) onUnsubscribe(unsubMsg utp.Unsubscribe, sub *utp.Subscription) *
 	}
 
 	if !c.insecure {
-		if _, err := c.onSecureRequest(topic); err != nil {
+		if _, err := c.onSecureRequest(topic, security.AllowRead); err != nil {
 			return err
 		}
 	}
@@ -449,7 +449,7 @@ func (c *_Conn) onPublish(pub utp.Publish) *types.Error {
 		}
 
 		if !c.insecure {
-			wildcard, err := c.onSecureRequest(topic)
+			wildcard, err := c.onSecureRequest(topic, security.AllowWrite)
 			if err != nil {
 				return err
 			}
@@ -486,15 +486,15 @@ func (c *_Conn) acknowledge(pub utp.Publish) *types.Error {
 	return nil
 }
 
-func (c *_Conn) onSecureRequest(topic *security.Topic) (bool, *types.Error) {
+func (c *_Conn) onSecureRequest(topic *security.Topic, permission uint32) (bool, *types.Error) {
 	// Attempt to decode the key
 	key, err := security.DecodeKey(topic.Key)
 	if err != nil {
 		return false, types.ErrBadRequest
 	}
 
-	// Check if the key has the permission to read the topic
-	if !key.HasPermission(security.AllowRead) {
+	// Check if the key has the permission asked for
+	if !key.HasPermission(permission) {
 		return false, types.ErrUnauthorized
 	}
 
-- 
2.43.0


From 5092713ad8ec60791844bf0ef02db6d84bd21baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:42 +0000
Subject: [PATCH 27/28] fix: a failed recovery of the log is reported

---
 recovery.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/recovery.go b/recovery.go
index f68d473..ce2fed7 100644
--- a/recovery.go
+++ b/recovery.go
@@ -160,7 +160,10 @@ func (db *_SyncHandle) startRecovery() error {
 	if err != nil || err1 != nil {
 		db.syncInfo.syncComplete = false
 		db.abort()
-		return err1
+		if err == nil {
+			err = err1
+		}
+		return err
 	}
 
 	if err := db.recoverWindowBlocks(pendingEntries); err != nil {
-- 
2.43.0


From 3dddc9673baea6c33fed0439b86f766351b68ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:03 +0000
Subject: [PATCH 28/28] fix: write window entries of topics that became known
 late in a recovery

---
 recovery.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/recovery.go b/recovery.go
index ce2fed7..f3f6b3f 100644
--- a/recovery.go
+++ b/recovery.go
@@ -166,6 +166,8 @@ func (db *_SyncHandle) startRecovery() error {
 		return err
 	}
 
+	// sync of the last block has reset the upper sequence.
+	db.syncInfo.upperSeq = db.syncInfo.lastSyncSeq
 	if err := db.recoverWindowBlocks(pendingEntries); err != nil {
 		logger.Error().Err(err).Str("context", "db.recoverWindowBlocks")
 		return err
-- 
2.43.0

