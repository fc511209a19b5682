package unitdb

import (
	"encoding/binary"

	"github.com/unit-io/unitdb/memdb"
)

// The contract of writing a block's entries into the files, over ghosts kept by
// the contracts of the functions it calls.
var (
	vcYState   int // 1 index extended, 2 window entries written, 3 index and data written, 4 counted and the count written
	vcYFailed  bool
	vcYAborted int // 1 window entries, 2 index and data too
	vcYReset   int // 1 window writer, 2 index writer too
	vcYUpper   uint64
	vcYDB      *_SyncHandle
	vcYCount   uint64
	vcYAbortF  bool
)

//verif:model (*github.com/unit-io/unitdb._BlockWriter).extend only syncfiles
func vcYExtend(w *_BlockWriter, upperSeq uint64) (int64, error) {
	vcEnsures("the index is extended first, to the last sequence number", vcYState == 0 && upperSeq == vcYUpper && w == vcYDB.blockWriter)
	vcYState = 1
	if vcNondetBool() {
		vcYFailed = true
		return 0, vcErr()
	}
	return vcNondetI64(), nil
}

//verif:model (*github.com/unit-io/unitdb._WindowWriter).write only syncfiles
func vcYWindowWrite(w *_WindowWriter) error {
	vcEnsures("the window entries are written into an extended file", vcYState == 1 && !vcYFailed && w == vcYDB.windowWriter)
	vcYState = 2
	if vcNondetBool() {
		vcYFailed = true
		return vcErr()
	}
	return nil
}

//verif:model (*github.com/unit-io/unitdb._BlockWriter).write only syncfiles
func vcYBlockWrite(w *_BlockWriter) error {
	vcEnsures("then the index and the messages", vcYState == 2 && !vcYFailed && w == vcYDB.blockWriter)
	vcYState = 3
	if vcNondetBool() {
		vcYFailed = true
		return vcErr()
	}
	return nil
}

//verif:model (*github.com/unit-io/unitdb.DB).sync only syncfiles
func vcYInfo(db *DB) error {
	vcEnsures("then the count", vcYState == 3 && !vcYFailed && db.internal.dbInfo.count == vcYCount+uint64(vcYDB.syncInfo.count))
	vcYState = 4
	if vcNondetBool() {
		vcYFailed = true
		return vcErr()
	}
	return nil
}

//verif:model (*github.com/unit-io/unitdb._WindowWriter).abort only syncfiles
func vcYWindowAbort(w *_WindowWriter) error {
	vcEnsures("only a failed write is rolled back", vcYFailed && vcYAborted == 0 && vcYReset == 0 && w == vcYDB.windowWriter)
	vcYAborted = 1
	if vcNondetBool() {
		vcYAbortF = true
		return vcErr()
	}
	return nil
}

//verif:model (*github.com/unit-io/unitdb._BlockWriter).abort only syncfiles
func vcYBlockAbort(w *_BlockWriter) error {
	vcEnsures("of index and data too", vcYFailed && vcYAborted == 1 && !vcYAbortF && vcYReset == 0 && w == vcYDB.blockWriter)
	vcYAborted = 2
	if vcNondetBool() {
		vcYAbortF = true
		return vcErr()
	}
	return nil
}

//verif:model (*github.com/unit-io/unitdb._WindowWriter).reset only syncfiles
func vcYWindowReset(w *_WindowWriter) error {
	vcEnsures("the writers are reset after what they hold is written or rolled back", vcYReset == 0 && w == vcYDB.windowWriter &&
		(vcYState == 4 && !vcYFailed || vcYAborted == 2 || vcYAbortF))
	vcYReset = 1
	if vcNondetBool() {
		return vcErr()
	}
	vcYReset = 3
	return nil
}

//verif:model (*github.com/unit-io/unitdb._BlockWriter).reset only syncfiles
func vcYBlockReset(w *_BlockWriter) error {
	vcEnsures("both", vcYReset == 3 && w == vcYDB.blockWriter)
	vcYReset = 2
	if vcNondetBool() {
		return vcErr()
	}
	return nil
}

// vcSyncFiles: a sync extends the index, writes the window entries, the index and
// the messages and the count, in that order; it is complete exactly when all of it
// succeeded, and its error is reported; else all of it is rolled back.
func vcSyncFiles() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	vcYDB = &_SyncHandle{DB: vcPDB(), windowWriter: &_WindowWriter{}, blockWriter: &_BlockWriter{}}
	vcYUpper = vcU64("upper")
	si := _SyncInfo{upperSeq: vcYUpper, lastSyncSeq: vcU64("last"), syncStatusOk: true, syncComplete: vcBool("complete"), count: vcI64("entries"), inBytes: vcI64("bytes")}
	vcYDB.syncInfo = si
	vcYCount = vcYDB.internal.dbInfo.count
	seq := vcYDB.internal.dbInfo.sequence
	err := vcYDB.sync(vcBool("recovery"))
	vcEnsures("a failure is reported", (err != nil) == vcYFailed)
	vcEnsures("the sequence number stays", vcYDB.internal.dbInfo.sequence == seq)
	if vcYUpper == 0 {
		vcEnsures("nothing to sync", vcYState == 0 && vcYAborted == 0 && vcYReset == 0 && vcYDB.syncInfo == si && vcYDB.internal.dbInfo.count == vcYCount)
		return
	}
	vcEnsures("complete when all is written", vcYDB.syncInfo.syncComplete == (vcYState == 4 && !vcYFailed))
	vcEnsures("else rolled back", vcYFailed == (vcYAborted > 0) && (!vcYFailed || vcYAborted == 2 || vcYAbortF))
	vcEnsures("ready for the next block", vcYReset != 0 && vcYDB.syncInfo.upperSeq == 0 && vcYDB.syncInfo.count == 0 && vcYDB.syncInfo.lastSyncSeq == vcYUpper)
	if !vcYFailed {
		vcEnsures("each entry written is counted", vcYDB.internal.dbInfo.count == vcYCount+uint64(si.count))
		vcCover("synced")
	}
}

// The contract of syncing a block of memory.
var (
	vcZDB       *_SyncHandle
	vcZID       int64
	vcZSeqs     []uint64
	vcZX        uint64 // a sequence number of the block
	vcZAt       int    // where it is
	vcZHash     uint64 // its topic
	vcZExp      uint32
	vcZOther    uint64 // another topic
	vcZCur      uint64
	vcZBuf      []byte
	vcZData     []byte
	vcZAppended int
	vcZExists   bool
	vcZFilter   bool
	vcZWin      int
	vcZOff      int64
	vcZOffHash  uint64
	vcZNewOff   int64
	vcZLinked   bool
	vcZWritten  bool
	vcZReleased bool
	vcZFreed    bool
	vcZStop     bool
	vcZErr      error
	vcZMissing  bool
	vcZCalled   bool
	vcZEnd      bool
)

//verif:model (*github.com/unit-io/unitdb._TimeWindowBucket).release only syncblock
func vcZRelease(tw *_TimeWindowBucket) func(timeID int64) error {
	vcEnsures("what is in memory is noted before the blocks are gone through", !vcZCalled)
	return func(timeID int64) error {
		vcEnsures("the window entries of the block are released after all is written", timeID == vcZID && vcZWritten && !vcZReleased)
		vcZReleased = true
		if vcNondetBool() {
			return vcErr()
		}
		return nil
	}
}

// A block of memory, at any state of the sync.
//
//verif:model (*github.com/unit-io/unitdb/memdb.DB).BlockIterator only syncblock
func vcZBlockIterator(db *memdb.DB, f func(timeID int64, keys []uint64) (bool, error)) (err error) {
	vcZCalled = true
	vcZStop, vcZErr = f(vcZID, vcZSeqs)
	vcZEnd = true
	if vcZWritten {
		vcEnsures("a block's entries written are freed, or it is tried again", vcZFreed || vcZErr != nil)
	} else {
		vcEnsures("a failure stops the sync", vcZStop && vcZErr != nil && !vcZFreed && !vcZReleased)
	}
	return vcZErr
}

//verif:model =sort.Slice only syncblock
func vcZSort(x interface{}, less func(i, j int) bool) {
	b := x.([]uint64)
	n := len(b)
	to := vcNondetInt()
	vcAssume(to >= 0 && to < n)
	vcScramble(b)
	vcAssume(b[to] == vcZX && vcForall(0, n, func(i int) bool { return b[i] != 0 && (i == to || b[i] != vcZX) }))
	vcAssume(vcForall(0, n, func(i int) bool { return i+1 >= n || !less(i+1, i) }))
	vcAssume(vcForall(0, n, func(i int) bool { return b[i] <= b[n-1] }))
	vcZAt = to
}

//verif:model (*github.com/unit-io/unitdb/memdb.DB).Lookup only syncblock
func vcZLookup(db *memdb.DB, timeID int64, key uint64) ([]byte, error) {
	vcEnsures("each entry of the block is read from it", timeID == vcZID)
	vcZCur = key
	if vcNondetBool() {
		vcZMissing = true
		return nil, vcErr()
	}
	n := vcNondetInt()
	vcAssume(n >= entrySize && n <= 1<<31)
	vcScramble(vcZBuf)
	vcZData = vcZBuf[:n]
	vcAssume(binary.LittleEndian.Uint64(vcZData[0:8]) == key)
	if key == vcZX {
		vcAssume(binary.LittleEndian.Uint64(vcZData[18:26]) == vcZHash && binary.LittleEndian.Uint32(vcZData[14:18]) == vcZExp)
	}
	return vcZData, nil
}

//verif:model (*github.com/unit-io/unitdb._BlockWriter).append only syncblock
func vcZAppend(w *_BlockWriter, e _IndexEntry) (err error) {
	vcEnsures("the entry read is appended", w == vcZDB.blockWriter && e.seq == vcZCur && !vcZWritten)
	vcEnsures("with its sizes", e.topicSize == binary.LittleEndian.Uint16(vcZData[8:10]) && e.valueSize == binary.LittleEndian.Uint32(vcZData[10:14]))
	vcEnsures("and its topic and message", len(e.cache) == len(vcZData)-entrySize && (len(e.cache) == 0 || vcAlias(e.cache, vcZData[entrySize:])))
	if vcNondetBool() {
		if e.seq == vcZX {
			vcZExists = true
		}
		return errEntryExist
	}
	if vcNondetBool() {
		return vcErr()
	}
	if e.seq == vcZX {
		vcZAppended++
	}
	return nil
}

//verif:model (*github.com/unit-io/unitdb.Filter).Append only syncblock
func vcZFilterAppend(f *Filter, h uint64) {
	vcEnsures("the entry is added to the filter", h == vcZCur)
	if h == vcZX {
		vcZFilter = true
	}
}

//verif:model (*github.com/unit-io/unitdb._Trie).getOffset only syncblock
func vcZGetOffset(t *_Trie, hash uint64) (int64, bool) {
	vcZOffHash, vcZOff = hash, vcNondetI64()
	return vcZOff, vcNondetBool()
}

//verif:model (*github.com/unit-io/unitdb._WindowWriter).append only syncblock
func vcZWinAppend(w *_WindowWriter, topicHash uint64, off int64, wEntries _WindowEntries) (newOff int64, err error) {
	vcEnsures("a topic's entries are appended to its last block", w == vcZDB.windowWriter && topicHash == vcZOffHash && off == vcZOff && !vcZWritten)
	if topicHash == vcZHash {
		vcEnsures("once, all of them", (vcZAppended == 1) == vcExists(0, len(wEntries), func(i int) bool {
			return wEntries[i].sequence == vcZX && wEntries[i].expiresAt == vcZExp
		}))
		vcZWin++
	}
	if topicHash == vcZOther {
		vcEnsures("and none of another topic", !vcExists(0, len(wEntries), func(i int) bool { return wEntries[i].sequence == vcZX }))
	}
	if vcNondetBool() {
		return 0, vcErr()
	}
	vcZNewOff = vcNondetI64()
	return vcZNewOff, nil
}

//verif:model (*github.com/unit-io/unitdb._Trie).setOffset only syncblock
func vcZSetOffset(t *_Trie, topic _Topic) bool {
	vcEnsures("which becomes its last block", topic.hash == vcZOffHash && topic.offset == vcZNewOff)
	if topic.hash == vcZHash {
		vcZLinked = true
	}
	return vcNondetBool()
}

// sync's contract, proved above.
//
//verif:model (*github.com/unit-io/unitdb._SyncHandle).sync only syncblock
func vcZSync(db *_SyncHandle, recovery bool) error {
	if vcZEnd {
		// nothing is left to sync
		return nil
	}
	vcEnsures("the files are written after all entries are appended", !vcZWritten && db == vcZDB && !recovery)
	vcEnsures("the index holds the sequence number", db.syncInfo.upperSeq >= vcZX)
	vcEnsures("every entry of the block has been read", !vcZMissing)
	if !vcZExists {
		vcEnsures("the entry is appended once", vcZAppended == 1)
		vcEnsures("and to its topic's entries", vcZWin == 1 && vcZLinked)
		vcEnsures("and to the filter", vcZFilter)
	}
	db.syncInfo.upperSeq, db.syncInfo.count = 0, 0
	if vcNondetBool() {
		db.syncInfo.syncComplete = false
		return vcErr()
	}
	vcCover("written")
	db.syncInfo.syncComplete = true
	vcZWritten = true
	return nil
}

//verif:model (*github.com/unit-io/unitdb._SyncHandle).abort only syncblock
func vcZAbort(db *_SyncHandle) error {
	vcEnsures("only a failed sync is aborted", vcZErr != nil || !vcZWritten)
	return nil
}

//verif:model (*github.com/unit-io/unitdb/memdb.DB).Free only syncblock
func vcZFree(db *memdb.DB, timeID int64) error {
	vcEnsures("the block's log is released after all is written and its window entries released", timeID == vcZID && vcZWritten && vcZReleased && !vcZFreed)
	vcZFreed = true
	if vcNondetBool() {
		return vcErr()
	}
	return nil
}

func vcZInRow(es _WindowEntries) bool {
	return vcExists(0, len(es), func(i int) bool { return es[i].sequence == vcZX && es[i].expiresAt == vcZExp })
}

//verif:loop (*_SyncHandle).Sync$1 0
func vcZSeqsInv(k int, winEntries map[uint64]_WindowEntries, seqs []uint64, err1 error) bool {
	own, ok := winEntries[vcZHash]
	other := winEntries[vcZOther]
	return k <= len(seqs) && !vcZWritten && (err1 != nil) == vcZMissing && vcZDB.syncInfo.upperSeq >= vcZX &&
		(k > vcZAt || vcZAppended == 0 && !vcZExists && !vcZFilter) &&
		(k <= vcZAt || vcZExists || vcZMissing || vcZAppended == 1) &&
		(vcZAppended == 0 || vcZAppended == 1 && vcZFilter && ok) &&
		(vcZAppended == 1) == vcZInRow(own) &&
		!vcExists(0, len(other), func(i int) bool { return other[i].sequence == vcZX })
}

//verif:loop (*_SyncHandle).Sync$1 1
func vcZTopicsInv(k int, winEntries map[uint64]_WindowEntries) bool {
	_, ok := winEntries[vcZHash]
	return !vcZWritten && (vcVisited(winEntries, vcZHash) == (vcZWin == 1)) && (vcZWin == 0 || vcZWin == 1 && ok && vcZLinked)
}

// vcSyncBlock: each entry of a block of memory is appended, once, to the index, to
// its topic's window entries and to no other's, and to the filter; the block is
// freed, and its log with it, only after all of it is written.
func vcSyncBlock() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	vcZDB = &_SyncHandle{DB: vcPDB(), windowWriter: &_WindowWriter{}, blockWriter: &_BlockWriter{}}
	vcZDB.syncInfo = _SyncInfo{upperSeq: vcU64("upper"), lastSyncSeq: vcU64("last"), syncStatusOk: true, syncComplete: vcBool("complete"), count: vcI64("entries"), inBytes: vcI64("bytes")}
	vcZID, vcZX, vcZHash, vcZOther, vcZExp = vcI64("block"), vcU64("x"), vcU64("hash"), vcU64("other"), vcU32("expires")
	vcAssume(vcZX != 0 && vcZHash != vcZOther)
	vcZBuf = make([]byte, 1<<31)
	vcZSeqs = make([]uint64, vcRange("entries", 1, 1<<30))
	vcZDB.Sync()
}
