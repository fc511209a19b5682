package unitdb

import (
	"github.com/unit-io/bpool"
	"github.com/unit-io/unitdb/memdb"
	"github.com/unit-io/unitdb/message"
)

// The contract of deleting a message, over ghosts kept by the contracts of the
// functions it calls.
var (
	vcDState   int // 1 topic parsed, 2 deleted from memory, 3 present, 4 writer opened, 5 deleted from the index
	vcDSeq     uint64
	vcDFailed  bool
	vcDEntry   _IndexEntry
	vcDFreed   int
	vcDOff     int64
	vcDSize    uint32
	vcDTopic   *message.Topic
	vcDWriter  *_BlockWriter
	vcDSynced  bool
	vcDInvalid bool
	vcDPresent bool
)

//verif:model (*github.com/unit-io/unitdb.DB).parseTopic only deleteentry
func vcDParseTopic(db *DB, contract uint32, topic []byte) (*message.Topic, uint32, error) {
	vcEnsures("of an open, mutable database, with a topic", vcDState == 0 && db.internal.closed == 0 && !db.opts.flags.immutable &&
		len(topic) >= 1 && len(topic) <= 65536)
	if vcNondetBool() {
		vcDInvalid = true
		return nil, 0, errBadRequest
	}
	vcDState = 1
	vcDTopic = &message.Topic{Parts: make([]message.Part, 3)}
	return vcDTopic, vcNondetU32(), nil
}

//verif:model (*github.com/unit-io/unitdb/message.Topic).GetHash only deleteentry
func vcDGetHash(t *message.Topic, contract uint32) uint64 { return vcNondetU64() }

//verif:model (*github.com/unit-io/unitdb/memdb.DB).Delete only deleteentry
func vcDMemDelete(db *memdb.DB, key uint64) error {
	vcEnsures("the message is deleted from memory first", vcDState == 1 && key == vcDSeq)
	vcDState = 2
	if vcNondetBool() {
		return vcErr()
	}
	return nil
}

//verif:model (*github.com/unit-io/unitdb.Filter).Test only deleteentry
func vcDTest(f *Filter, key uint64) bool {
	vcEnsures("the presence of the message is tested", vcDState == 2 && key == vcDSeq)
	vcDPresent = vcNondetBool()
	if vcDPresent {
		vcDState = 3
	}
	return vcDPresent
}

//verif:model github.com/unit-io/unitdb.newBlockWriter only deleteentry
func vcDNewBlockWriter(fs *_FileSet, lease *_Lease, buf *bpool.Buffer) (*_BlockWriter, error) {
	if vcNondetBool() {
		vcDFailed = true
		return nil, vcErr()
	}
	vcDState = 4
	vcDWriter = &_BlockWriter{}
	return vcDWriter, nil
}

// The contract of del, proved for C03: the entry deleted, or none.
//
//verif:model (*github.com/unit-io/unitdb._BlockWriter).del only deleteentry
func vcDDel(bw *_BlockWriter, seq uint64) (_IndexEntry, error) {
	vcEnsures("the message is deleted from the index", vcDState == 4 && bw == vcDWriter && seq == vcDSeq)
	vcDState = 5
	if vcNondetBool() {
		vcDFailed = true
		return _IndexEntry{}, vcErr()
	}
	if vcNondetBool() {
		return _IndexEntry{}, nil
	}
	vcDEntry = _IndexEntry{seq: seq, topicSize: uint16(vcNondetU32()), valueSize: vcNondetU32(), msgOffset: vcNondetI64()}
	vcAssume(vcDEntry.msgOffset >= 0 && vcDEntry.msgOffset < 1<<46 && vcDEntry.valueSize < 1<<31)
	return vcDEntry, nil
}

//verif:model (*github.com/unit-io/unitdb._Lease).freeBlock only deleteentry
func vcDFreeBlock(l *_Lease, off int64, size uint32) {
	vcEnsures("space is freed after the entry is deleted", vcDState == 5 && vcDEntry.seq != 0)
	vcDFreed++
	vcDOff, vcDSize = off, size
}

//verif:model (*github.com/unit-io/unitdb.DB).sync only deleteentry
func vcDSync(db *DB) error {
	vcDSynced = true
	return nil
}

// vcDeleteEntry checks the deletion of any message.
func vcDeleteEntry() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	db := vcPDB()
	db.internal.syncWrites = vcBool("sync writes")
	n, m := vcRange("topic", 0, 1<<40), vcRange("id", 0, 1<<40)
	var topic, id []byte
	if n > 0 {
		topic = make([]byte, n)
	}
	if m > 0 {
		id = make([]byte, m)
		vcScramble(id)
		if m == 16 {
			vcDSeq = message.ID(id).Sequence()
		}
	}
	seq, count := db.internal.dbInfo.sequence, db.internal.dbInfo.count
	var err error
	if vcBool("entry") {
		err = db.DeleteEntry(&Entry{Topic: topic, ID: id, Contract: vcU32("contract")})
	} else {
		err = db.Delete(id, topic)
	}
	switch {
	case db.internal.closed != 0:
		vcEnsures("a closed database refuses", err != nil && vcDState == 0)
	case db.opts.flags.immutable:
		vcEnsures("an immutable database refuses", err == errImmutable && vcDState == 0)
	case m == 0:
		vcEnsures("a missing ID is refused", err == errMsgIDEmpty && vcDState == 0)
	case n == 0:
		vcEnsures("an empty topic is refused", err == errTopicEmpty && vcDState == 0)
	case n > 65536:
		vcEnsures("a topic too large is refused", err == errTopicTooLarge && vcDState == 0)
	case m != 16:
		vcEnsures("a malformed ID is refused", err == errBadRequest && vcDState == 0)
	case vcDInvalid:
		vcEnsures("an invalid topic is refused", err == errBadRequest && vcDState == 0)
	case vcDState < 2:
		// the database has been closed meanwhile
		vcEnsures("a database being closed refuses", err == errClosed && vcDState == 1)
	default:
		vcEnsures("a failure is reported", (err != nil) == vcDFailed)
		vcEnsures("the message is deleted from memory, and from the index if it may be there",
			vcDState >= 2 && (err != nil || !vcDPresent && vcDState == 2 || vcDPresent && vcDState == 5))
		if err == nil {
			vcEnsures("synced if writes are", vcDSynced == db.internal.syncWrites)
		}
	}
	if vcDEntry.seq != 0 {
		vcEnsures("a stored message no longer counts", db.internal.dbInfo.count == count-1)
		vcEnsures("its space is free", vcDFreed == 1 &&
			(vcDEntry.topicSize == 0 && vcDOff == vcDEntry.msgOffset && vcDSize == vcDEntry.mSize() ||
				vcDEntry.topicSize != 0 && vcDOff == vcDEntry.msgOffset+9+int64(vcDEntry.topicSize) && vcDSize == vcDEntry.valueSize))
		vcCover("a stored message is deleted")
	} else {
		vcEnsures("neither count nor free space change otherwise", db.internal.dbInfo.count == count && vcDFreed == 0)
	}
	vcEnsures("no sequence number is assigned", db.internal.dbInfo.sequence == seq)
}
