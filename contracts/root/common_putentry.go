package unitdb

import (
	"github.com/unit-io/unitdb/memdb"
	"github.com/unit-io/unitdb/message"
)

// The contract of putting and deleting an entry, over ghosts kept by the
// contracts of the functions it calls: what has been done so far, in order.
var (
	vcPState  int // 1 entry set, 2 in memory, 3 in the window, 4 topic read, 5 in the trie, 6 topic parsed, 7 deleted
	vcPEntry  *Entry
	vcPIn     Entry // the entry given
	vcPSet    _Entry
	vcPTime   int64
	vcPFailed bool
	vcPB      int // an arbitrary byte
	vcPParts  []message.Part
	vcPDepth  uint8
	vcPTopic  *message.Topic
)

// The contract of setEntry, proved for C10 and C14.
//
//verif:model (*github.com/unit-io/unitdb.DB).setEntry only putentry
func vcPSetEntry(db *DB, e *Entry) error {
	vcEnsures("a valid entry, on an open database", vcPState == 0 && db.internal.closed == 0 &&
		len(e.Topic) >= 1 && len(e.Topic) <= 65536)
	if vcPEntry != nil {
		vcEnsures("the entry given", e == vcPEntry)
	}
	if vcNondetBool() {
		vcPFailed = true
		return vcErr()
	}
	e.entry.seq = vcNondetU64()
	vcAssume(e.entry.seq != 0)
	e.entry.topicHash = vcNondetU64()
	e.entry.expiresAt = vcNondetU32()
	n := vcNondetInt()
	vcAssume(n >= 0 && n <= 1+5*101)
	e.entry.topicSize = uint16(n)
	size := vcNondetInt()
	vcAssume(size >= entrySize+idSize+n && size <= 1<<40)
	e.entry.cache = vcNondetBytes(size)
	vcPSet = e.entry
	vcPIn = *e
	vcPState = 1
	return nil
}

//verif:model (*github.com/unit-io/unitdb/memdb.DB).Put only putentry
func vcPMemPut(db *memdb.DB, key uint64, data []byte) (int64, error) {
	vcEnsures("the entry set is put, once", vcPState == 1 && key == vcPSet.seq && vcPSame(data, vcPSet.cache, 0))
	if vcNondetBool() {
		vcPFailed = true
		return 0, vcErr()
	}
	vcPState = 2
	vcPTime = vcNondetI64()
	return vcPTime, nil
}

//verif:model (*github.com/unit-io/unitdb._TimeWindowBucket).add only putentry
func vcPWindowAdd(tw *_TimeWindowBucket, timeID int64, topicHash uint64, e _WinEntry) bool {
	vcEnsures("the entry put is added to its topic's window", vcPState == 2 && timeID == vcPTime && topicHash == vcPSet.topicHash &&
		e.sequence == vcPSet.seq && e.expiresAt == vcPSet.expiresAt)
	if vcNondetBool() {
		vcPFailed = true
		return false
	}
	vcPState = 3
	return true
}

//verif:model (*github.com/unit-io/unitdb/message.Topic).Unmarshal only putentry
func vcPUnmarshal(t *message.Topic, data []byte) error {
	vcEnsures("the topic of the entry is read", vcPState == 3 && len(data) == int(vcPSet.topicSize) && vcPSame(data, vcPSet.cache, entrySize+idSize))
	n := vcNondetInt()
	vcAssume(n >= 0 && n <= 102)
	t.Parts = make([]message.Part, n)
	t.Depth = uint8(vcNondetU32())
	vcPParts, vcPDepth = t.Parts, t.Depth
	vcPState = 4
	return nil
}

//verif:model (*github.com/unit-io/unitdb._Trie).add only putentry
func vcPTrieAdd(t *_Trie, topic _Topic, parts []message.Part, depth uint8) bool {
	vcEnsures("the topic is added to the trie", vcPState == 4 && topic.hash == vcPSet.topicHash && topic.offset == 0 &&
		depth == vcPDepth && len(parts) == len(vcPParts))
	vcPState = 5
	return true
}

// vcPSame: data is the part of all from the offset.
func vcPSame(data, all []byte, off int) bool {
	return vcPB >= len(data) || off+vcPB < len(all) && data[vcPB] == all[off+vcPB]
}

func vcPDB() *DB {
	db := &DB{internal: &_DB{meter: vcMeter()}, opts: &_Options{}}
	db.internal.closed = uint32(vcRange("closed", 0, 1))
	db.opts.flags.immutable = vcBool("immutable")
	db.internal.dbInfo.sequence = vcU64("sequence")
	db.internal.dbInfo.count = vcU64("count")
	vcPB = vcRange("byte", 0, 1<<41)
	return db
}

// vcPutEntry checks the putting of any entry.
func vcPutEntry() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	db := vcPDB()
	n, m := vcRange("topic", 0, 1<<40), vcRange("payload", 0, 1<<40)
	var topic, payload []byte
	if n > 0 {
		topic = make([]byte, n)
	}
	if m > 0 {
		payload = make([]byte, m)
	}
	seq, count := db.internal.dbInfo.sequence, db.internal.dbInfo.count
	var err error
	if vcBool("entry") {
		e := &Entry{Topic: topic, Payload: payload, ExpiresAt: vcU32("expires"), Contract: vcU32("contract")}
		vcPEntry = e
		err = db.PutEntry(e)
	} else {
		err = db.Put(topic, payload)
	}
	switch {
	case db.internal.closed != 0:
		vcEnsures("a closed database refuses", err != nil && vcPState == 0)
	case n == 0:
		vcEnsures("an empty topic is refused", err == errTopicEmpty && vcPState == 0)
	case n > 65536:
		vcEnsures("a topic too large is refused", err == errTopicTooLarge && vcPState == 0)
	case m == 0:
		vcEnsures("an empty payload is refused", err == errValueEmpty && vcPState == 0)
	case m > maxValueLength:
		vcEnsures("a payload too large is refused", err == errValueTooLarge && vcPState == 0)
	default:
		vcEnsures("a failure is reported", (err != nil) == vcPFailed)
		if err == nil {
			vcEnsures("the entry is in memory and in the window, and its topic in the trie",
				vcPSet.topicSize == 0 && vcPState == 3 || vcPSet.topicSize != 0 && vcPState == 5)
			vcEnsures("of the topic and payload given", len(vcPIn.Topic) == n && len(vcPIn.Payload) == m && &vcPIn.Payload[0] == &payload[0] && &vcPIn.Topic[0] == &topic[0])
		} else {
			vcEnsures("nothing more is done", vcPState < 3)
		}
	}
	if err == nil {
		vcCover("an entry is put")
	}
	vcEnsures("no sequence number is assigned and no count changed otherwise", db.internal.dbInfo.sequence == seq && db.internal.dbInfo.count == count)
}
