package unitdb

import (
	"encoding/binary"

	"github.com/unit-io/bpool"
	"github.com/unit-io/unitdb/memdb"
	"github.com/unit-io/unitdb/message"
)

// The contract of writing a batch, over ghosts kept by the contracts of the
// functions it calls, about the record read last from the buffer, and an arbitrary
// record vcBWX of the batch.
var (
	vcBWOff    int64 // where the record starts
	vcBWState  int   // 1 read, 2 its topic added, 3 in memory, 4 in the window
	vcBWX      int
	vcBWXOff   int64
	vcBWXDel   bool
	vcBWXPut   bool // it is in memory and in the window
	vcBWTime   int64
	vcBWFailed bool
	vcBWDone   bool
	vcBWPuts   int
	vcBWReads  int
	vcBWPos    int // where it is among the deletions
)

//verif:model (*github.com/unit-io/bpool.Buffer).Slice only batchwrite
func vcBWSlice(b *bpool.Buffer, start, end int64) ([]byte, error) {
	if end-start == 4 {
		vcEnsures("a record is read when the one before is done", vcBWState == 0 || vcBWState == 1 || vcBWState == 4)
		vcBWOff = start
		if start == vcBWXOff {
			vcBWPos = vcBWReads - vcBWPuts
		}
		vcBWReads++
		vcBWState = 1
	}
	if start < 0 || end > vcBufSize || start > end {
		vcBWFailed = true
		return nil, vcErr()
	}
	p := make([]byte, end-start)
	copy(p, vcBuf[start:end])
	return p, nil
}

func vcBWAt(i int64) []byte { return vcBuf[vcBWOff+4+i:] }

//verif:model (*github.com/unit-io/unitdb/message.Topic).Unmarshal only batchwrite
func vcBWUnmarshal(t *message.Topic, data []byte) error {
	vcEnsures("the topic of the record is read", vcBWState == 1 && len(data) == int(binary.LittleEndian.Uint16(vcBWAt(8))) &&
		(vcPB >= len(data) || data[vcPB] == vcBuf[vcBWOff+4+35+int64(vcPB)]))
	t.Parts = make([]message.Part, 3)
	return nil
}

//verif:model (*github.com/unit-io/unitdb._Trie).add only batchwrite
func vcBWTrieAdd(t *_Trie, topic _Topic, parts []message.Part, depth uint8) bool {
	vcEnsures("the topic of the record is added", vcBWState == 1 && topic.hash == binary.LittleEndian.Uint64(vcBWAt(18)) && topic.offset == 0)
	vcBWState = 2
	return true
}

//verif:model (*github.com/unit-io/unitdb/memdb.Batch).TimeID only batchwrite
func vcBWTimeID(b *memdb.Batch) int64 { return vcBWTime }

//verif:model (*github.com/unit-io/unitdb/memdb.Batch).Put only batchwrite
func vcBWPut(b *memdb.Batch, key uint64, data []byte) error {
	n := binary.LittleEndian.Uint32(vcBuf[vcBWOff : vcBWOff+4])
	vcEnsures("a topic not synced yet is added first", vcBWState == 1 && binary.LittleEndian.Uint16(vcBWAt(8)) == 0 ||
		vcBWState == 2 && binary.LittleEndian.Uint16(vcBWAt(8)) != 0)
	vcEnsures("the record's bytes are put", key == binary.LittleEndian.Uint64(vcBWAt(0)) && len(data) == int(n)-4 &&
		(vcPB >= len(data) || data[vcPB] == vcBuf[vcBWOff+4+int64(vcPB)]))
	vcEnsures("no deleted record is put", vcBWOff != vcBWXOff || !vcBWXDel || key == 0)
	vcBWState = 3
	if vcNondetBool() {
		vcBWFailed = true
		return vcErr()
	}
	return nil
}

//verif:model (*github.com/unit-io/unitdb._TimeWindowBucket).add only batchwrite
func vcBWWindowAdd(tw *_TimeWindowBucket, timeID int64, topicHash uint64, e _WinEntry) bool {
	vcEnsures("the record is added to its topic's window", vcBWState == 3 && timeID == vcBWTime &&
		topicHash == binary.LittleEndian.Uint64(vcBWAt(18)) && e.sequence == binary.LittleEndian.Uint64(vcBWAt(0)) &&
		e.expiresAt == binary.LittleEndian.Uint32(vcBWAt(14)))
	vcBWState = 4
	if vcNondetBool() {
		vcBWFailed = true
		return false
	}
	vcEnsures("a record is written once", vcBWOff != vcBWXOff || !vcBWXPut)
	if vcBWOff == vcBWXOff {
		vcBWXPut = true
	}
	vcBWPuts++
	return true
}

//verif:model (*github.com/unit-io/unitdb/memdb.Batch).Write only batchwrite
func vcBWWrite(b *memdb.Batch) error {
	vcEnsures("the batch is logged when all its records are in memory", !vcBWFailed && !vcBWDone && (vcBWXPut || vcBWXDel))
	vcBWDone = true
	if vcNondetBool() {
		vcBWFailed = true
		return vcErr()
	}
	return nil
}

func vcBWRecord(off int64, del bool) bool {
	n := binary.LittleEndian.Uint32(vcBuf[off : off+4])
	return n >= 4+35 && n < 1<<31 && off+int64(n) <= vcBufSize &&
		int(binary.LittleEndian.Uint16(vcBuf[off+12:off+14]))+39 <= int(n) &&
		binary.LittleEndian.Uint16(vcBuf[off+12:off+14]) <= 1+5*101 &&
		binary.LittleEndian.Uint64(vcBuf[off+4:off+12]) != 0
}

//verif:loop (*Batch).writeInternal 0
func vcBWInv(k int, b *Batch) bool {
	if vcBWFailed || vcBWDone || vcBWState != 0 && vcBWState != 1 && vcBWState != 4 || k > len(b.index) || vcBWPuts+len(b.deletes) != k || vcBWPuts < 0 || vcBWReads != k {
		return false
	}
	if vcBWX >= k {
		return !vcBWXPut
	}
	if !vcBWXDel {
		return vcBWXPut
	}
	return !vcBWXPut && vcBWDeleted(b)
}

func vcBWDeleted(b *Batch) bool {
	return vcBWPos >= 0 && vcBWPos < len(b.deletes) &&
		b.deletes[vcBWPos].seq == binary.LittleEndian.Uint64(vcBuf[vcBWXOff+4:vcBWXOff+12]) &&
		b.deletes[vcBWPos].topicHash == binary.LittleEndian.Uint64(vcBuf[vcBWXOff+22:vcBWXOff+30])
}

// vcBatchWrite checks the writing of any batch of records.
func vcBatchWrite() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	db := vcPDB()
	b := &Batch{db: db, opts: &_Options{}, buffer: &bpool.Buffer{}, mem: &memdb.Batch{}, writeLockC: make(chan struct{}, 1)}
	k := vcRange("entries", 0, 1<<30)
	b.index = make([]_BatchIndex, k)
	vcScramble(b.index)
	vcBuf = make([]byte, 1<<46)
	vcScramble(vcBuf)
	vcBufSize = int64(vcRange("size", 0, 1<<44))
	b.size = vcBufSize
	vcBWTime = vcI64("time")
	vcBWX = vcRange("an entry", 0, 1<<30)
	vcAssume(vcBWX < k || k == 0)
	// the records of the batch, as its entries have been added
	vcAssume(vcForall(0, k, func(i int) bool {
		return b.index[i].offset >= 0 && b.index[i].offset < 1<<45 && b.index[i].offset+4 <= vcBufSize && vcBWRecord(b.index[i].offset, b.index[i].delFlag) &&
			(i == vcBWX || b.index[i].offset != b.index[vcBWX].offset)
	}))
	if k > 0 {
		vcBWXOff, vcBWXDel = b.index[vcBWX].offset, b.index[vcBWX].delFlag
		vcAssume(vcBWXOff >= 0 && vcBWXOff < 1<<45 && vcBWXOff+4 <= vcBufSize && vcBWRecord(vcBWXOff, vcBWXDel)) // one of them
	}
	err := b.Write()
	vcEnsures("a closed database refuses", k == 0 || db.internal.closed == 0 || err != nil && vcBWState == 0)
	vcEnsures("a failure is reported", (err != nil) == (vcBWFailed || k > 0 && db.internal.closed != 0))
	if k == 0 || err != nil {
		vcEnsures("nothing is logged", !vcBWDone || vcBWFailed)
		vcEnsures("the time block is the batch's to release", k == 0 || len(b.timeIDs) == 1 && b.timeIDs[0] == vcBWTime)
		return
	}
	vcEnsures("every record is written or kept to be deleted", vcBWDone && vcBWXPut == !vcBWXDel && vcBWPuts+len(b.deletes) == k)
	vcEnsures("the deletion is of the record", !vcBWXDel || vcBWDeleted(b))
	vcEnsures("the batch is empty", len(b.index) == 0 && b.size == 0 && vcBufSize == 0)
	vcEnsures("its time block is to be released unless it is committed", len(b.timeIDs) == 1 && b.timeIDs[0] == vcBWTime)
	vcCover("a batch is written")
}
