package unitdb

import (
	"encoding/binary"

	"github.com/unit-io/bpool"
)

// The contract of adding an entry to a batch.
var (
	vcBAState  int
	vcBAFailed bool
	vcBAEnc    bool
	vcBASet    _Entry
	vcBAE      *Entry
	vcBAQ      int64 // an arbitrary byte of the buffer
)

// The contract of setEntry, proved for C10 and C14.
//
//verif:model (*github.com/unit-io/unitdb.DB).setEntry only batchentry
func vcBASetEntry(db *DB, e *Entry) error {
	vcEnsures("a valid entry, on an open database", vcBAState == 0 && db.internal.closed == 0 && len(e.Topic) >= 1 && len(e.Topic) <= 65536)
	vcBAE = e
	vcBAEnc = e.Encryption
	if vcNondetBool() {
		vcBAFailed = true
		return errBadRequest
	}
	e.entry.seq = vcNondetU64()
	n := vcNondetInt()
	vcAssume(n >= entrySize+idSize && n < 1<<31)
	e.entry.cache = vcNondetBytes(n)
	vcBASet = e.entry
	vcBAState = 1
	return nil
}

// vcBatchEntry checks the adding of any entry to any batch.
func vcBatchEntry() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	db := vcPDB()
	b := &Batch{db: db, opts: &_Options{}, buffer: &bpool.Buffer{}}
	b.opts.batchOptions.encryption = vcBool("encryption")
	b.opts.batchOptions.contract = vcU32("contract")
	k := vcRange("entries", 0, 1<<30)
	b.index = make([]_BatchIndex, k)
	vcScramble(b.index)
	x := vcRange("an entry", 0, 1<<30)
	vcBuf = make([]byte, 1<<46)
	vcScramble(vcBuf)
	vcBufSize = int64(vcRange("size", 0, 1<<44))
	b.size = vcBufSize
	size := b.size
	vcBAQ = int64(vcRange("a byte", 0, 1<<45))
	old := vcBuf[vcBAQ]
	var ox _BatchIndex
	if x < k {
		ox = b.index[x]
	}
	n, m, i := vcRange("topic", 0, 1<<40), vcRange("payload", 0, 1<<40), vcRange("id", 0, 1<<40)
	e := &Entry{Topic: make([]byte, n), Payload: make([]byte, m), ID: make([]byte, i), Encryption: vcBool("entry encryption")}
	enc := e.Encryption || b.opts.batchOptions.encryption
	del := vcBool("delete")
	seq, count := db.internal.dbInfo.sequence, db.internal.dbInfo.count
	var err error
	switch {
	case del && vcBool("by entry"):
		err = b.DeleteEntry(e)
	case del:
		err = b.Delete(e.ID, e.Topic)
	case vcBool("put entry"):
		err = b.PutEntry(e)
	default:
		enc = b.opts.batchOptions.encryption
		err = b.Put(e.Topic, e.Payload)
	}
	switch {
	case db.internal.closed != 0:
		vcEnsures("a closed database refuses", err != nil && vcBAState == 0 && !vcBAFailed)
	case del && db.opts.flags.immutable:
		vcEnsures("an immutable database refuses a deletion", err == errImmutable && vcBAState == 0)
	case del && i == 0:
		vcEnsures("a missing ID is refused", err == errMsgIDEmpty && vcBAState == 0)
	case n == 0:
		vcEnsures("an empty topic is refused", err == errTopicEmpty && vcBAState == 0)
	case n > 65536:
		vcEnsures("a topic too large is refused", err == errTopicTooLarge && vcBAState == 0)
	case !del && m == 0:
		vcEnsures("an empty payload is refused", err == errValueEmpty && vcBAState == 0)
	case !del && m > maxValueLength:
		vcEnsures("a payload too large is refused", err == errValueTooLarge && vcBAState == 0)
	default:
		vcEnsures("a refused entry is reported", !vcBAFailed || err == errBadRequest)
		vcEnsures("encrypted if the batch or the entry is", del || vcBAEnc == enc)
	}
	vcEnsures("no sequence number is assigned and no count changed", db.internal.dbInfo.sequence == seq && db.internal.dbInfo.count == count)
	vcEnsures("the entries before are unchanged", x >= k || b.index[x] == ox)
	vcEnsures("so are their bytes", vcBAQ >= size || vcBuf[vcBAQ] == old)
	if err != nil {
		vcEnsures("nothing is added", len(b.index) == k && b.size == size)
		return
	}
	c := len(vcBASet.cache)
	vcEnsures("one entry is added", len(b.index) == k+1 && b.index[k].offset == size && b.index[k].delFlag == del)
	vcEnsures("its size", b.size == size+4+int64(c) && vcBufSize == b.size)
	vcEnsures("its length", binary.LittleEndian.Uint32(vcBuf[size:size+4]) == uint32(c)+4)
	vcEnsures("its bytes", vcPB >= c || vcBuf[size+4+int64(vcPB)] == vcBASet.cache[vcPB])
	vcCover("an entry is added")
}
