package memdb

// The contracts of a batch's operations, over ghosts kept by the contracts of the
// functions they call.
var (
	vcZTime     _TimeID // the batch's time block
	vcZLog      *_TinyLog
	vcZState    int // 1 log written
	vcZNew      _TimeID
	vcZAdded    bool
	vcZGroup    []_TimeID
	vcZReleased int
	vcZFail     bool
	vcZMarked   int
	vcZX        int
)

//verif:model (*github.com/unit-io/unitdb/memdb.DB).timeBlock only memBatchPut
func vcZTimeBlock(db *DB, id _TimeID) (*_Block, bool) {
	vcEnsures("the batch's own block", id == vcSTime)
	if !vcSLocked {
		return nil, false
	}
	return vcSBlock, true
}

// vcMemBatchPut: a key is put into the batch's block, and can be in it from then
// on; nothing is put into a block that is released.
func vcMemBatchPut() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	db := vcSDB()
	vcSKey, vcSTime = vcU64("key"), _TimeID(vcI64("time"))
	vcSBlock = &_Block{released: vcBool("released")}
	vcSLocked = vcBool("have the block")
	vcSData = make([]byte, vcRange("n", 0, 1<<30))
	vcScramble(vcSData)
	vcBX = vcRange("x", 0, 1<<30)
	b := &Batch{db: db, tinyLog: &_TinyLog{id: vcSTime, _TimeID: vcSTime, managed: true}}
	err := b.Put(vcSKey, vcSData)
	switch {
	case db.internal.closed != 0 || !vcSLocked || vcSBlock.released:
		vcEnsures("refused", err != nil && !vcSPut)
	case vcSFail:
		vcEnsures("a failure is reported", err != nil && !vcSFilter)
	default:
		vcEnsures("put", err == nil && vcSPut && vcSFilter)
		vcCover("put")
	}
}

//verif:model (*github.com/unit-io/unitdb/memdb._TinyLogManager).writeWait only memBatchWrite memBatchCommit
func vcZWriteWait(p *_TinyLogManager, l *_TinyLog) {
	vcEnsures("the batch's log is written, once", l == vcZLog && vcZState == 0)
	vcZState = 1
}

//verif:model (*github.com/unit-io/unitdb/memdb.Batch).newTinyLog only memBatchWrite memBatchCommit
func vcZNewTinyLog(b *Batch) {
	vcEnsures("a new log once the last is written", vcZState == 1)
	vcZNew = _TimeID(vcNondetI64())
	b.tinyLog = &_TinyLog{id: vcZNew, _TimeID: vcZNew, managed: true}
}

func vcZBatch() *Batch {
	db := vcSDB()
	db.internal.timeMark = &_TimeMark{}
	vcZTime = _TimeID(vcI64("time"))
	vcZGroup = make([]_TimeID, vcRange("written", 0, 1<<30))
	vcScramble(vcZGroup)
	vcZLog = &_TinyLog{id: vcZTime, _TimeID: vcZTime, managed: true}
	vcZX = vcRange("x", 0, 1<<30)
	return &Batch{db: db, tinyLog: vcZLog, batchGroup: append([]_TimeID{}, vcZGroup...), writeLockC: make(chan struct{}, 1), commitComplete: make(chan struct{})}
}

// vcMemBatchWrite: the batch's log is written, its block is one of the batch's
// to commit, and the batch goes on with a new one.
func vcMemBatchWrite() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	b := vcZBatch()
	err := b.Write()
	if b.db.internal.closed != 0 {
		vcEnsures("a closed store refuses", err != nil && vcZState == 0 && len(b.batchGroup) == len(vcZGroup))
		return
	}
	vcEnsures("written", err == nil && vcZState == 1 && b.tinyLog._TimeID == vcZNew)
	vcEnsures("to be committed", len(b.batchGroup) == len(vcZGroup)+1 && b.batchGroup[len(vcZGroup)] == vcZTime)
	vcEnsures("with those before", vcZX >= len(vcZGroup) || b.batchGroup[vcZX] == vcZGroup[vcZX])
	vcCover("written")
}

// vcZAt is the i-th block of a batch: those written, and the one that is not.
func vcZAt(i int) _TimeID {
	if i < len(vcZGroup) {
		return vcZGroup[i]
	}
	return vcZTime
}

// The contract of releaseLog, proved above.
//
//verif:model (*github.com/unit-io/unitdb/memdb.DB).releaseLog only memBatchAbort
func vcZReleaseLog(db *DB, id _TimeID, empty bool) error {
	vcEnsures("the blocks of the batch are released in turn", vcZReleased <= len(vcZGroup) && id == vcZAt(vcZReleased) && !empty && !vcZFail)
	vcZReleased++
	if vcNondetBool() {
		return errEntryDoesNotExist
	}
	if vcNondetBool() {
		vcZFail = true
		return vcErr()
	}
	return nil
}

//verif:loop (*Batch).Abort 0
func vcZAbortInv(k int) bool { return k == vcZReleased && k <= len(vcZGroup)+1 && !vcZFail }

// vcMemBatchAbort: every block of the batch is released, with what was written
// of it; a batch that is complete has none.
func vcMemBatchAbort() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	b := vcZBatch()
	done := vcBool("complete")
	if done {
		b.db = nil
	}
	err := b.Abort()
	switch {
	case done:
		vcEnsures("nothing to release", err == nil && vcZReleased == 0)
	case vcZFail:
		vcEnsures("a failure is reported", err != nil)
	default:
		vcEnsures("all released", err == nil && vcZReleased == len(vcZGroup)+1 && b.db == nil)
		vcCover("aborted")
	}
}

//verif:model (*github.com/unit-io/unitdb/memdb._TimeMark).add only memBatchCommit
func vcZMarkAdd(tm *_TimeMark, id _TimeID) {
	vcEnsures("the blocks of the batch are marked in turn once written", vcZState == 1 && !vcZAdded && vcZMarked <= len(vcZGroup) && id == vcZAt(vcZMarked))
	vcZAdded = true
}

//verif:model (*github.com/unit-io/unitdb/memdb._TimeMark).release only memBatchCommit
func vcZMarkRelease(tm *_TimeMark, id _TimeID) {
	vcEnsures("as written", vcZAdded && id == vcZAt(vcZMarked))
	vcZAdded = false
	vcZMarked++
}

//verif:loop (*Batch).Commit 0
func vcZCommitInv(k int) bool {
	return k == vcZMarked && k <= len(vcZGroup)+1 && !vcZAdded && vcZState == 1
}

// The contract of Abort, proved above, at the end of a commit.
//
//verif:model (*github.com/unit-io/unitdb/memdb.Batch).Abort only memBatchCommit
func vcZCommitAbort(b *Batch) error {
	vcEnsures("a commit ends with nothing of the batch's written blocks to release", b.db.internal.closed != 0 || len(b.batchGroup) == 0)
	vcZReleased = 1
	return nil
}

// vcMemBatchCommit: a batch commits by writing its log; then each of its blocks
// is one to iterate, and none of them is released.
func vcMemBatchCommit() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	b := vcZBatch()
	err := b.Commit()
	if b.db.internal.closed != 0 {
		vcEnsures("a closed store refuses", err != nil && vcZState == 0 && vcZMarked == 0)
		return
	}
	vcEnsures("committed", err == nil && vcZState == 1 && vcZMarked == len(vcZGroup)+1 && vcZReleased == 1)
	vcCover("committed")
}
