package unitdb

import (
	"encoding/binary"

	"github.com/unit-io/unitdb/memdb"
	"github.com/unit-io/unitdb/message"
)

// The contract of recovering a block of the log, over ghosts kept by the contracts
// of the functions it calls.
var (
	vcKDB                        *_SyncHandle
	vcKID                        int64
	vcKSeqs                      []uint64
	vcKKeys                      []uint64
	vcKX                         uint64 // a sequence number of the block
	vcKAt                        int    // where it is
	vcKHash                      uint64 // its topic
	vcKExp                       uint32
	vcKOther                     uint64 // another topic
	vcKCur                       uint64
	vcKBuf                       []byte
	vcKData                      []byte
	vcKAppended                  int
	vcKTopicSize                 uint16
	vcKIn, vcKXWritten, vcKFinal bool
	vcKExists                    bool
	vcKFilter                    bool
	vcKTopic                     []byte
	vcKParsed                    *message.Topic
	vcKKnown                     bool // the topic has been added to the trie
	vcKFound                     bool // the trie has it
	vcKWin                       int
	vcKDone                      bool // all blocks have been gone through
	vcKWritten                   bool
	vcKFreed                     bool
	vcKStop                      bool
	vcKErr                       error
	vcKMissing                   bool
	vcKStarted                   bool
	vcKRaised                    bool
	vcKBefore                    uint64
	vcKKey                       int
	vcKFailed                    bool
)

//verif:model (*github.com/unit-io/unitdb/memdb.DB).Keys only recoverblock
func vcKAllKeys(db *memdb.DB) []uint64 { return vcKKeys }

//verif:loop (*_SyncHandle).startRecovery 0
func vcKKeysInv(k int) bool {
	seq := vcKDB.internal.dbInfo.sequence
	return k <= len(vcKKeys) && seq >= vcKBefore && (vcKKey >= k || vcKKey >= len(vcKKeys) || seq >= vcKKeys[vcKKey])
}

//verif:model (*github.com/unit-io/unitdb._SyncHandle).startSync only recoverblock
func vcKStartSync(db *_SyncHandle) bool {
	seq := db.internal.dbInfo.sequence
	vcEnsures("the sequence number is at least that of each message recovered", vcKKey >= len(vcKKeys) || seq >= vcKKeys[vcKKey])
	vcEnsures("and never lowered", seq >= vcKBefore)
	vcKStarted = vcNondetBool()
	if vcKStarted {
		db.windowWriter, db.blockWriter = &_WindowWriter{}, &_BlockWriter{}
	}
	return vcKStarted
}

//verif:model (*github.com/unit-io/unitdb._SyncHandle).finish only recoverblock
func vcKFinish(db *_SyncHandle) error { return nil }

// The blocks of the log, any number of them before and after that of X.
//
//verif:model (*github.com/unit-io/unitdb/memdb.DB).All only recoverblock
func vcKAll(db *memdb.DB, f func(timeID int64, keys []uint64) (bool, error)) (err error) {
	vcEnsures("the sync has started", vcKStarted)
	for vcNondetBool() {
		vcAssume(!vcKBlock(f, false)) // a failure of X's block stands for that of any
	}
	if vcKBlock(f, true) {
		return vcKErr
	}
	vcKXWritten = true
	vcCover("written")
	for vcNondetBool() {
		vcAssume(!vcKBlock(f, false)) // a failure of X's block stands for that of any
	}
	vcKDone = true
	return nil
}

func vcKBlock(f func(timeID int64, keys []uint64) (bool, error), in bool) bool {
	vcKIn, vcKWritten, vcKFreed, vcKMissing, vcKID = in, false, false, false, vcNondetI64()
	n := vcNondetInt()
	vcAssume(n >= 1 && n <= 1<<30)
	vcKStop, vcKErr = f(vcKID, vcKSeqs[:n])
	if vcKWritten {
		vcEnsures("a block written is freed, or an error reported", vcKFreed || vcKErr != nil)
	} else {
		vcEnsures("a failure stops the recovery", vcKErr != nil && !vcKFreed)
	}
	vcEnsures("the recovery stops only with an error", vcKErr != nil || !vcKStop)
	return vcKErr != nil
}

//verif:loop vcKAll 0
func vcKEarlierInv(err1 error, pendingEntries map[uint64]_WindowEntries) bool {
	late, other := pendingEntries[vcKHash], pendingEntries[vcKOther]
	return err1 == nil && !vcKFailed && vcKAppended == 0 && !vcKExists && !vcKFilter && vcKWin == 0 && !vcKHasX(late) && !vcKHasX(other)
}

//verif:loop vcKAll 1
func vcKLaterInv(err1 error, pendingEntries map[uint64]_WindowEntries) bool {
	late, other := pendingEntries[vcKHash], pendingEntries[vcKOther]
	now := vcKAppended == 1 && vcKFound
	return vcKDB.syncInfo.lastSyncSeq != 0 && err1 == nil && !vcKFailed && (vcKExists || vcKAppended == 1) && (vcKAppended == 0 || vcKAppended == 1) && vcKHasX(late) == (vcKAppended == 1 && !vcKFound) &&
		!vcKHasX(other) && (vcKWin == 1 && now || vcKWin == 0 && !now)
}

func vcKHasX(es _WindowEntries) bool {
	return vcExists(0, len(es), func(i int) bool { return es[i].sequence == vcKX })
}

//verif:model =sort.Slice only recoverblock
func vcKSort(x interface{}, less func(i, j int) bool) {
	b := x.([]uint64)
	n := len(b)
	vcScramble(b)
	if vcKIn {
		to := vcNondetInt()
		vcAssume(to >= 0 && to < n)
		vcAssume(b[to] == vcKX && vcForall(0, n, func(i int) bool { return b[i] != 0 && (i == to || b[i] != vcKX) }))
		vcKAt = to
	} else {
		vcAssume(vcForall(0, n, func(i int) bool { return b[i] != 0 && b[i] != vcKX }))
	}
	vcAssume(vcForall(0, n, func(i int) bool { return i+1 >= n || !less(i+1, i) }))
	vcAssume(vcForall(0, n, func(i int) bool { return b[i] <= b[n-1] }))
}

//verif:model (*github.com/unit-io/unitdb/memdb.DB).Lookup only recoverblock
func vcKLookup(db *memdb.DB, timeID int64, key uint64) ([]byte, error) {
	vcEnsures("each message of the block is read from it", timeID == vcKID)
	vcKCur = key
	if vcNondetBool() {
		vcKMissing = true
		return nil, vcErr()
	}
	n := vcNondetInt()
	vcAssume(n >= entrySize && n <= 1<<31)
	vcScramble(vcKBuf)
	vcKData = vcKBuf[:n]
	vcAssume(binary.LittleEndian.Uint64(vcKData[0:8]) == key)
	if key == vcKX {
		vcAssume(binary.LittleEndian.Uint64(vcKData[18:26]) == vcKHash && binary.LittleEndian.Uint32(vcKData[14:18]) == vcKExp && binary.LittleEndian.Uint16(vcKData[8:10]) == vcKTopicSize)
	}
	return vcKData, nil
}

//verif:model (*github.com/unit-io/unitdb._BlockWriter).append only recoverblock
func vcKAppend(w *_BlockWriter, e _IndexEntry) (err error) {
	vcEnsures("the message read is appended", w == vcKDB.blockWriter && e.seq == vcKCur && !vcKWritten)
	vcEnsures("with its sizes", e.topicSize == binary.LittleEndian.Uint16(vcKData[8:10]) && e.valueSize == binary.LittleEndian.Uint32(vcKData[10:14]))
	vcEnsures("and its topic and payload", len(e.cache) == len(vcKData)-entrySize && (len(e.cache) == 0 || vcAlias(e.cache, vcKData[entrySize:])))
	if vcNondetBool() {
		if e.seq == vcKX {
			vcKExists = true
		}
		return errEntryExist
	}
	if vcNondetBool() {
		return vcErr()
	}
	if e.seq == vcKX {
		vcKAppended++
	}
	return nil
}

//verif:model (*github.com/unit-io/unitdb._BlockReader).readTopic only recoverblock
func vcKReadTopic(r *_BlockReader, e _IndexEntry) ([]byte, error) {
	vcEnsures("the topic of the message is read", e.seq == vcKCur && e.topicSize != 0 && e.topicSize == binary.LittleEndian.Uint16(vcKData[8:10]))
	return vcKTopic, nil
}

//verif:model (*github.com/unit-io/unitdb/message.Topic).Unmarshal only recoverblock
func vcKUnmarshal(t *message.Topic, data []byte) error {
	vcEnsures("its bytes are decoded", vcAlias(data, vcKTopic) && len(data) == len(vcKTopic))
	if vcNondetBool() {
		return vcErr()
	}
	t.Depth = uint8(vcNondetU32())
	return nil
}

//verif:model (*github.com/unit-io/unitdb._Trie).add only recoverblock
func vcKTrieAdd(t *_Trie, topic _Topic, parts []message.Part, depth uint8) bool {
	vcEnsures("the topic is known again, without a block", topic.hash == binary.LittleEndian.Uint64(vcKData[18:26]) && topic.offset == 0)
	if topic.hash == vcKHash {
		vcKKnown = true
	}
	return vcNondetBool()
}

//verif:model (*github.com/unit-io/unitdb.Filter).Append only recoverblock
func vcKFilterAppend(f *Filter, h uint64) {
	vcEnsures("the message is added to the filter", h == vcKCur)
	if h == vcKX {
		vcKFilter = true
	}
}

//verif:model (*github.com/unit-io/unitdb._Trie).getOffset only recoverblock
func vcKGetOffset(t *_Trie, hash uint64) (off int64, ok bool) {
	if hash == vcKHash {
		if vcKKnown {
			ok = true
		} else {
			ok = vcNondetBool()
		}
		if vcKIn {
			vcKFound = ok
		}
		return vcNondetI64(), ok
	}
	return vcNondetI64(), vcNondetBool()
}

// recoverWindowBlocks' contract, proved below.
//
//verif:model (*github.com/unit-io/unitdb._SyncHandle).recoverWindowBlocks only recoverblock
func vcKRecoverWindowBlocks(db *_SyncHandle, windowEntries map[uint64]_WindowEntries) error {
	own := windowEntries[vcKHash]
	in := vcKHasX(own)
	vcEnsures("a message is in no other topic", !vcKHasX(windowEntries[vcKOther]))
	if vcKDone {
		vcEnsures("and then those of topics that became known later", in == (vcKAppended == 1 && !vcKFound))
	} else if vcKIn {
		vcEnsures("the window entries of the block's topics are recovered", !vcKWritten && in == (vcKAppended == 1 && vcKFound))
	} else {
		vcEnsures("each message is recovered with its block", !vcKWritten && !in)
	}
	if in {
		vcKWin++
	}
	if vcNondetBool() {
		vcKFailed = true
		return vcErr()
	}
	return nil
}

// sync's contract, proved above.
//
//verif:model (*github.com/unit-io/unitdb._SyncHandle).sync only recoverblock
func vcKSync(db *_SyncHandle, recovery bool) error {
	vcEnsures("the files are written by a recovery", db == vcKDB && recovery && !vcKFailed)
	if vcKDone {
		// the end of the recovery
		vcEnsures("the sync at the end has something to write", db.syncInfo.upperSeq != 0)
		vcEnsures("each message recovered is among its topic's entries once", vcKExists || vcKWin == 1)
		vcKFinal = true
		vcCover("recovered")
		return nil
	}
	vcEnsures("the files are written after all messages are appended", !vcKWritten)
	vcEnsures("the index holds the sequence number", !vcKIn || db.syncInfo.upperSeq >= vcKX)
	vcEnsures("every message of the block has been read", !vcKMissing)
	if vcKIn && !vcKExists {
		vcEnsures("the message is appended once", vcKAppended == 1)
		vcEnsures("and to its topic's entries, if the topic is known", vcKWin == 1 || vcKWin == 0 && !vcKFound)
		vcEnsures("and to the filter", vcKFilter)
		vcEnsures("the topic of the message is in the trie again", vcKTopicSize == 0 || vcKKnown)
	}
	vcEnsures("the sync has something to write", db.syncInfo.upperSeq != 0)
	db.syncInfo.lastSyncSeq, db.syncInfo.upperSeq, db.syncInfo.count = db.syncInfo.upperSeq, 0, 0
	if vcNondetBool() {
		vcKFailed = true
		db.syncInfo.syncComplete = false
		return vcErr()
	}
	db.syncInfo.syncComplete = true
	vcKWritten = true
	return nil
}

//verif:model (*github.com/unit-io/unitdb._SyncHandle).abort only recoverblock
func vcKAbort(db *_SyncHandle) error {
	vcEnsures("only a failed recovery is aborted", vcKErr != nil)
	return nil
}

//verif:model (*github.com/unit-io/unitdb/memdb.DB).Free only recoverblock
func vcKFree(db *memdb.DB, timeID int64) error {
	vcEnsures("the block's log is released after all is written", timeID == vcKID && vcKWritten && !vcKFreed)
	vcKFreed = true
	if vcNondetBool() {
		return vcErr()
	}
	return nil
}

//verif:model github.com/unit-io/unitdb.newWinEntry only recoverblock
func vcKNewWinEntry(seq uint64, expiresAt uint32) _WinEntry {
	vcEnsures("a topic's entry has the message's sequence number and expiry", seq == vcKCur && expiresAt == binary.LittleEndian.Uint32(vcKData[14:18]))
	return _WinEntry{sequence: seq, expiresAt: expiresAt}
}

//verif:loop (*_SyncHandle).startRecovery$3 0
func vcKSeqsInv(k int, winEntries map[uint64]_WindowEntries, seqs []uint64, err1 error) bool {
	own, other := winEntries[vcKHash], winEntries[vcKOther]
	if vcKDB.syncInfo.upperSeq == 0 || k > len(seqs) || vcKWritten || (err1 != nil) != vcKMissing || vcKHasX(other) {
		return false
	}
	if !vcKIn {
		return !vcKHasX(own) && vcKAppended == vcOldInt(func() int { return vcKAppended }) && vcKExists == vcOldBool(func() bool { return vcKExists }) &&
			vcKFilter == vcOldBool(func() bool { return vcKFilter })
	}
	return vcKDB.syncInfo.upperSeq >= vcKX &&
		(k > vcKAt || vcKAppended == 0 && !vcKExists && !vcKFilter) &&
		(k <= vcKAt || vcKExists || vcKMissing || vcKAppended == 1) &&
		(vcKAppended == 0 || vcKAppended == 1 && vcKFilter) &&
		(vcKAppended == 1) == vcKHasX(own) &&
		(vcKAppended == 0 || vcKTopicSize == 0 || vcKKnown)
}

// vcRecoverBlock: the sequence number is raised above those of all messages
// recovered; each message of a block of the log is appended, once, to the index, to
// its topic's window entries and to no other's, and to the filter; the block is
// freed only after all of it is written.
func vcRecoverBlock() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	vcKDB = &_SyncHandle{DB: vcPDB()}
	vcKDB.syncInfo = _SyncInfo{upperSeq: vcU64("upper"), lastSyncSeq: vcU64("last"), syncComplete: vcBool("complete"), count: vcI64("entries"), inBytes: vcI64("bytes")}
	vcKID, vcKX, vcKHash, vcKOther, vcKExp = vcI64("block"), vcU64("x"), vcU64("hash"), vcU64("other"), vcU32("expires")
	vcKTopicSize = vcU16("topicsize")
	vcAssume(vcKX != 0 && vcKHash != vcKOther)
	vcKBuf = make([]byte, 1<<31)
	vcKTopic = make([]byte, vcRange("topic", 0, 65535))
	vcKSeqs = make([]uint64, 1<<30)
	vcKKeys = make([]uint64, vcRange("keys", 0, 1<<40))
	vcScramble(vcKKeys)
	vcKKey = vcRange("key", 0, 1<<40)
	vcKBefore = vcKDB.internal.dbInfo.sequence
	err := vcKDB.startRecovery()
	if err == nil && vcKStarted {
		vcEnsures("all blocks are recovered and the files written", vcKXWritten && vcKDone && vcKFinal)
	}
}

// topics not known yet are kept for later
//
//verif:loop (*_SyncHandle).startRecovery$3 1
func vcKPendingInv(k int, winEntries, pendingEntries map[uint64]_WindowEntries) bool {
	own, late := winEntries[vcKHash], pendingEntries[vcKHash]
	other, other2 := winEntries[vcKOther], pendingEntries[vcKOther]
	if vcKWritten || !vcToCome(winEntries) || vcKHasX(other) || vcKHasX(other2) {
		return false
	}
	if !vcKIn {
		return !vcKHasX(own) && vcKHasX(late) == vcOldBool(func() bool { return vcKHasX(pendingEntries[vcKHash]) })
	}
	now, later := vcKHasX(own), vcKHasX(late)
	return vcKWin == 0 &&
		(vcKAppended == 1 || !now && !later) &&
		(vcKAppended == 0 || vcVisited(winEntries, vcKHash) || now && !later) &&
		(vcKAppended == 0 || !vcVisited(winEntries, vcKHash) || now == vcKFound && later != vcKFound)
}

// The contract of recovering the window entries of topics.
var (
	vcKMap     map[uint64]_WindowEntries
	vcKW       *_WindowWriter
	vcKOff     int64
	vcKKnew    bool
	vcKNewOff  int64
	vcKRows    int
	vcKSet     bool
	vcKRowFail bool
)

//verif:model (*github.com/unit-io/unitdb._Trie).getOffset only recoverwindow
func vcKTopicOffset(t *_Trie, hash uint64) (int64, bool) {
	if hash == vcKHash {
		return vcKOff, vcKKnew
	}
	return vcNondetI64(), vcNondetBool()
}

//verif:model (*github.com/unit-io/unitdb._WindowWriter).append only recoverwindow
func vcKWinAppend(w *_WindowWriter, topicHash uint64, off int64, wEntries _WindowEntries) (int64, error) {
	own, ok := vcKMap[topicHash]
	vcEnsures("the entries of a topic are appended", w == vcKW && ok && len(own) == len(wEntries) &&
		vcForall(0, len(own), func(i int) bool { return own[i] == wEntries[i] }))
	if vcNondetBool() {
		vcKRowFail = true
		return 0, vcErr()
	}
	noff := vcNondetI64()
	if topicHash == vcKHash {
		vcEnsures("after those the topic has", vcKKnew && off == vcKOff && vcKRows == 0)
		vcKRows++
		vcKNewOff = noff
	}
	return noff, nil
}

//verif:model (*github.com/unit-io/unitdb._Trie).setOffset only recoverwindow
func vcKSetOffset(t *_Trie, topic _Topic) bool {
	if topic.hash == vcKHash {
		vcEnsures("and the topic refers to them", vcKRows == 1 && topic.offset == vcKNewOff)
		vcKSet = true
	}
	if vcNondetBool() {
		vcKRowFail = true
		return false
	}
	return true
}

//verif:loop (*_SyncHandle).recoverWindowBlocks 0 only recoverwindow
func vcKRowsInv() bool {
	done := vcVisited(vcKMap, vcKHash) && vcKKnew
	return !vcKRowFail && vcKSet == done && (vcKRows == 1 && done || vcKRows == 0 && !done)
}

// vcRecoverWindow: the entries of each topic the trie knows are appended, once, at
// its offset, which then is that of the block they are in.
func vcRecoverWindow() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	vcKDB = &_SyncHandle{DB: vcPDB(), windowWriter: &_WindowWriter{}}
	vcKW = vcKDB.windowWriter
	vcKHash, vcKOff, vcKKnew = vcU64("hash"), vcI64("offset"), vcBool("known")
	vcKMap = map[uint64]_WindowEntries{}
	vcScramble(vcKMap)
	_, ok := vcKMap[vcKHash]
	vcAssume(ok)
	err := vcKDB.recoverWindowBlocks(vcKMap)
	vcEnsures("a failure is reported", (err == nil) == !vcKRowFail)
	if err == nil {
		vcEnsures("the topic has its entries", vcKSet == vcKKnew)
		vcCover("recovered")
	}
}
