package unitdb

import (
	"github.com/unit-io/bpool"
	"github.com/unit-io/unitdb/memdb"
)

// The contract of committing and aborting a batch, over ghosts kept by the
// contracts of the functions it calls.
var (
	vcCMState    int // 1 its function has run, 2 written, 3 committed
	vcCMFailed   bool
	vcCMB        *Batch
	vcCMDeletes  int // deletions done
	vcCMX        int // an arbitrary time ID of the batch
	vcCMXTime    int64
	vcCMReleased bool // it has been released
	vcCMAborts   int
	vcCMPut      int
	vcCMFnErr    bool
	vcCMN        int // deletions of the batch
	vcCMTimes    int
	vcCMReset    bool
)

//verif:model (*github.com/unit-io/unitdb.Batch).Write only C15_commit
func vcCMWrite(b *Batch) error {
	vcEnsures("the batch is written first", b == vcCMB && vcCMState == 1 && vcCMAborts == 0)
	vcCMState = 2
	b.timeIDs = make([]int64, vcCMTimes)
	vcScramble(b.timeIDs)
	if vcCMX < vcCMTimes {
		vcCMXTime = b.timeIDs[vcCMX]
	}
	if vcNondetBool() {
		vcCMFailed = true
		return vcErr()
	}
	b.deletes = make([]_Entry, vcCMN)
	vcScramble(b.deletes)
	return nil
}

//verif:model (*github.com/unit-io/unitdb/memdb.Batch).Commit only C15_commit
func vcCMCommit(b *memdb.Batch) error {
	vcEnsures("the batch written is committed, once", vcCMState == 2 && !vcCMFailed && vcCMAborts == 0)
	if vcNondetBool() {
		vcCMFailed = true
		return vcErr()
	}
	vcCMState = 3
	return nil
}

//verif:model (*github.com/unit-io/unitdb.DB).delete only C15_commit
func vcCMDelete(db *DB, topicHash, seq uint64) error {
	vcEnsures("deletions take place in turn, after the commit", vcCMState == 3 && !vcCMFailed && vcCMAborts == 0 && vcCMDeletes < vcCMN &&
		seq == vcCMB.deletes[vcCMDeletes].seq && topicHash == vcCMB.deletes[vcCMDeletes].topicHash)
	vcCMDeletes++
	if vcNondetBool() {
		vcCMFailed = true
		return vcErr()
	}
	return nil
}

//verif:model (*github.com/unit-io/unitdb/memdb.Batch).Abort only C15_commit
func vcCMAbort(b *memdb.Batch) error {
	vcCMAborts++
	return nil
}

//verif:model (*github.com/unit-io/unitdb._TimeWindowBucket).release only C15_commit
func vcCMRelease(tw *_TimeWindowBucket) func(timeID int64) error {
	return func(timeID int64) error {
		vcEnsures("window entries of a committed batch are kept", vcCMState != 3)
		if timeID == vcCMXTime {
			vcCMReleased = true
		}
		return nil
	}
}

//verif:model (*github.com/unit-io/bpool.BufferPool).Put only C15_commit
func vcCMBufPut(p *bpool.BufferPool, b *bpool.Buffer) {
	vcEnsures("the buffer is empty when it is given back", vcBufSize == 0)
	vcCMPut++
}

//verif:model (*github.com/unit-io/unitdb.DB).batch only C15_commit
func vcCMBatch(db *DB) *Batch { return vcCMB }

//verif:loop (*Batch).Commit 0
func vcCMDeletesInv(k int, b *Batch) bool {
	return vcCMDeletes == k && k <= vcCMN && vcCMState == 3 && !vcCMFailed
}

//verif:loop (*Batch).Abort 0
func vcCMAbortInv(k int, b *Batch) bool {
	return k <= len(b.timeIDs) && vcCMState != 3 && (vcCMX >= k || vcCMReleased)
}

// vcCommit checks the running of any batch function.
func vcCommit() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	db := vcPDB()
	db.internal.mem = &memdb.DB{}
	vcCMB = &Batch{db: db, opts: &_Options{}, buffer: &bpool.Buffer{}, mem: &memdb.Batch{}, commitComplete: make(chan struct{})}
	vcCMB.index = make([]_BatchIndex, vcRange("entries", 0, 1<<30))
	vcBufSize = int64(vcRange("size", 0, 1<<44))
	vcCMX, vcCMN, vcCMTimes = vcRange("a time", 0, 1<<30), vcRange("deletions", 0, 1<<30), vcRange("times", 0, 1<<30)
	fails := vcBool("fails")
	err := db.Batch(func(b *Batch, done <-chan struct{}) error {
		vcEnsures("the batch is given to its function, once", b == vcCMB && vcCMState == 0 && b.managed)
		vcCMState = 1
		// its function has written some entries
		b.timeIDs = make([]int64, vcCMTimes)
		vcScramble(b.timeIDs)
		if vcCMX < vcCMTimes {
			vcCMXTime = b.timeIDs[vcCMX]
		}
		if fails {
			vcCMFailed = true
			return errForbidden
		}
		return nil
	})
	if db.internal.closed != 0 {
		vcEnsures("a closed database refuses", err != nil && vcCMState == 0 && vcCMAborts == 0)
		return
	}
	vcEnsures("a failure is reported", (err != nil) == vcCMFailed)
	vcEnsures("the function's error is returned", !fails || err == errForbidden)
	vcEnsures("nothing of a failed function is written", !fails || vcCMState == 1)
	vcEnsures("all of it is committed and deleted else", err != nil || vcCMState == 3 && vcCMDeletes == vcCMN)
	vcEnsures("the batch ends, once", vcCMAborts == 1 && vcCMPut == 1 && vcCMB.db == nil)
	vcEnsures("window entries not committed are released", vcCMState == 3 || vcCMX >= vcCMTimes || vcCMReleased)
	if err == nil {
		vcCover("a batch is committed")
	}
}
