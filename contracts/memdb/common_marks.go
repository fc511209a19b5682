package memdb

import (
	"sync"

	"github.com/unit-io/unitdb/wal"
)

// The contract of lockTimeBlock, over ghosts: the time ID answered last, and the
// block asked for last, which other goroutines may release at any time before it
// is locked.
var (
	vcLNow   _TimeID
	vcLFor   _TimeID
	vcLGot   bool
	vcLAdded int
)

//verif:model (*github.com/unit-io/unitdb/memdb.DB).timeID only VC_C16_lockTimeBlock
func vcLTimeID(db *DB) _TimeID {
	vcLNow = _TimeID(vcNondetI64())
	return vcLNow
}

//verif:model (*github.com/unit-io/unitdb/memdb.DB).timeBlock only VC_C16_lockTimeBlock
func vcLTimeBlock(db *DB, id _TimeID) (*_Block, bool) {
	vcLFor = id
	vcLGot = vcNondetBool()
	if !vcLGot {
		return nil, false
	}
	return &_Block{count: int64(id), released: vcNondetBool()}, true
}

//verif:model (*github.com/unit-io/unitdb/memdb.DB).addTimeBlock only VC_C16_lockTimeBlock
func vcLAddTimeBlock(db *DB, id _TimeID) bool {
	vcEnsures("a missing block is added", !vcLGot && id == vcLFor)
	return vcNondetBool()
}

//verif:loop (*DB).lockTimeBlock 0
func vcLInv() bool { return true }

// VC_C16_lockTimeBlock: the block that is locked is the one of the current log,
// and not released.
func VC_C16_lockTimeBlock() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	id, b, err := (&DB{internal: &_DB{}}).lockTimeBlock()
	if err != nil {
		vcEnsures("refused only when there is no block", err == errForbidden && b == nil && !vcLGot)
		return
	}
	vcEnsures("the current block", id == vcLNow && id == vcLFor && b.count == int64(id) && !b.released)
	vcCover("locked")
}

func vcTMark() *_TimeMark {
	tm := newTimeMark()
	vcScramble(tm.records)
	vcScramble(tm.releasedRecords)
	return tm
}

// VC_C16_timeMark: a time block can be iterated once every log that refers to it
// is written, until it is released; marks of other blocks stay as they are.
func VC_C16_timeMark() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	tm := vcTMark()
	id, other := _TimeID(vcI64("id")), _TimeID(vcI64("other"))
	vcAssume(id != other)
	r, had := tm.records[id]
	q, rel := tm.releasedRecords[id]
	or, ohad := tm.records[other]
	oq, orel := tm.releasedRecords[other]
	vcAssume(r.refs >= 0 && r.refs < 1<<40)
	if !had {
		r = _TimeRecord{}
	}
	switch vcRange("op", 0, 2) {
	case 0:
		tm.add(id)
		n, ok := tm.records[id]
		vcEnsures("one more log refers to it", ok && n.refs == r.refs+1)
		m, ok := tm.releasedRecords[id]
		vcEnsures("no change in what is written", ok == rel && m == q)
	case 1:
		tm.release(id)
		n, ok := tm.records[id]
		m, now := tm.releasedRecords[id]
		if had && r.refs > 1 {
			vcEnsures("one fewer refers to it", ok && n.refs == r.refs-1 && now == rel && m == q)
		} else if had {
			vcEnsures("the last one is written", !ok && now && m.lastUnref == id)
			vcCover("written")
		} else {
			vcEnsures("nothing to release", !ok && now == rel && m == q)
		}
	case 2:
		tm.timeUnref(id)
		n, ok := tm.records[id]
		_, now := tm.releasedRecords[id]
		vcEnsures("no longer written", !now && ok == had && (!ok || n == r))
	}
	nr, nhad := tm.records[other]
	nq, nrel := tm.releasedRecords[other]
	vcEnsures("no other mark changes", nr == or && nhad == ohad && nq == oq && nrel == orel)
}

var (
	vcTM   *_TimeMark
	vcTRef _TimeID
)

//verif:loop (*_TimeMark).timeRefs 0
func vcTRefsInv(k int, timeIDs []_TimeID) bool {
	r := vcTM.releasedRecords[vcFT]
	in := vcVisited(vcTM.releasedRecords, vcFT) && r.lastUnref > 0 && r.lastUnref < vcTRef
	return len(timeIDs) <= k &&
		(!in || vcExists(0, len(timeIDs), func(i int) bool { return timeIDs[i] == vcFT })) &&
		(in || vcForall(0, len(timeIDs), func(i int) bool { return timeIDs[i] != vcFT }))
}

//verif:loop (*_TimeMark).allRefs 0
func vcTAllInv(k int, timeIDs []_TimeID) bool {
	in := vcVisited(vcTM.releasedRecords, vcFT)
	return len(timeIDs) == k &&
		(!in || vcExists(0, len(timeIDs), func(i int) bool { return timeIDs[i] == vcFT })) &&
		(in || vcForall(0, len(timeIDs), func(i int) bool { return timeIDs[i] != vcFT }))
}

// VC_C16_timeRefs, VC_C16_allRefs: the blocks to iterate are those written, of
// before the current one, or all of them; the oldest first.
func VC_C16_timeRefs() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	vcTM = vcTMark()
	vcFT, vcTRef = _TimeID(vcI64("t")), _TimeID(vcI64("now"))
	r, in := vcTM.releasedRecords[vcFT]
	in = in && r.lastUnref > 0 && r.lastUnref < vcTRef
	vcTOrdered(vcTM.timeRefs(vcTRef), in)
}

func VC_C16_allRefs() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	vcTM = vcTMark()
	vcFT = _TimeID(vcI64("t"))
	_, in := vcTM.releasedRecords[vcFT]
	vcTOrdered(vcTM.allRefs(), in)
}

func vcTOrdered(ids []_TimeID, in bool) {
	vcEnsures("all of them", !in || vcExists(0, len(ids), func(i int) bool { return ids[i] == vcFT }))
	i, j := vcRange("i", 0, 1<<30), vcRange("j", 0, 1<<30)
	vcEnsures("no others", in || i >= len(ids) || ids[i] != vcFT)
	vcEnsures("the oldest first", i >= j || j >= len(ids) || ids[i] <= ids[j])
}

// The contract of writing a log, over ghosts kept by the contracts of the
// write-ahead log: 1 a writer is open, 2 what is to be written is appended, 3 the
// log is committed.
var (
	vcWState           int
	vcWBlock           *_Block
	vcWHave            bool
	vcWFrom, vcWTo     int64
	vcWFail, vcWAgain  bool
	vcWID, vcWTime     _TimeID
	vcWX               int
	vcWRelNow, vcWGone bool
)

//verif:model (*github.com/unit-io/unitdb/memdb.DB).newTimeLock only tinyWrite
func vcWTimeLock(db *DB, id _TimeID) _Internal {
	vcEnsures("the log's lock", id == vcWID)
	return db.internal.timeLock.locks[0]
}

//verif:model (*github.com/unit-io/unitdb/wal.WAL).NewWriter only tinyWrite
func vcWNewWriter(w *wal.WAL) (*wal.Writer, error) {
	if vcNondetBool() {
		vcWFail = true
		return nil, vcErr()
	}
	vcWState = 1
	return &wal.Writer{}, nil
}

//verif:model (*github.com/unit-io/unitdb/wal.Writer).Append only tinyWrite
func vcWAppend(w *wal.Writer, data []byte) <-chan error {
	vcEnsures("what was put since the last log is appended", vcWState == 1 && int64(len(data)) == vcWTo-vcWFrom &&
		(vcWX >= len(data) || data[vcWX] == vcBuf[vcWFrom+int64(vcWX)]))
	vcWState = 2
	done := make(chan error, 1)
	if vcNondetBool() {
		vcWFail = true
		done <- vcErr()
		return done
	}
	done <- nil
	return done
}

//verif:model (*github.com/unit-io/unitdb/wal.Writer).SignalInitWrite only tinyWrite
func vcWSignalInitWrite(w *wal.Writer, id int64) <-chan error {
	vcEnsures("the log is committed under its ID once it is appended", vcWState == 2 && !vcWFail && id == int64(vcWID))
	done := make(chan error, 1)
	if vcNondetBool() {
		vcWFail = true
		done <- vcErr()
		return done
	}
	vcWState = 3
	done <- nil
	return done
}

//verif:model (*github.com/unit-io/unitdb/wal.WAL).SignalLogApplied only tinyWrite
func vcWSignalLogApplied(w *wal.WAL, id int64) error {
	vcEnsures("a log of a released block is released", vcWState == 3 && id == int64(vcWID))
	vcWGone = true
	return nil
}

// vcTinyWrite: a log is what was put into its block since the log before, and
// committed under its ID; the next log begins where it ends, and the block keeps
// the ID, to release the log with. Nothing is lost when a step fails.
func vcTinyWrite() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	vcWID, vcWTime = _TimeID(vcI64("log")), _TimeID(vcI64("time"))
	b := vcBBlock()
	b.released = vcBool("released")
	b.lastOffset = vcI64("from")
	vcAssume(b.lastOffset >= 0 && b.lastOffset <= vcBufSize)
	b.timeRefs = make([]_TimeID, vcRange("logs", 0, 1<<30))
	vcScramble(b.timeRefs)
	was := b.timeRefs
	vcWFrom, vcWTo = b.lastOffset, vcBufSize
	vcWX = vcRange("x", 0, 1<<40)
	db := &DB{internal: &_DB{timeLock: _TimeLock{locks: []_Internal{{new(sync.RWMutex)}}}}, timeBlocks: _TimeBlocks{}}
	have := vcBool("have")
	if have {
		db.timeBlocks[vcWTime] = b
	}
	err := db.tinyWrite(&_TinyLog{id: vcWID, _TimeID: vcWTime})
	vcEnsures("a failure is reported", (err != nil) == vcWFail)
	switch {
	case vcWFail:
		vcEnsures("and what is to be written stays to be", b.lastOffset == vcWFrom && len(b.timeRefs) == len(was))
	case !have || b.released || vcWFrom == vcWTo:
		vcEnsures("nothing to write", vcWState == 0 && b.lastOffset == vcWFrom && len(b.timeRefs) == len(was))
	default:
		vcEnsures("written", vcWState == 3 && b.lastOffset == vcWTo)
		vcEnsures("its ID is kept", len(b.timeRefs) == len(was)+1 && b.timeRefs[len(was)] == vcWID)
		vcEnsures("with those before", vcWX >= len(was) || b.timeRefs[vcWX] == was[vcWX])
		vcCover("written")
	}
	vcEnsures("the buffer stays", vcBufSize == vcWTo)
}
