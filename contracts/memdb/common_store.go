package memdb

import (
	"sync"
)

// The contracts of Get, Lookup, Put and Delete, over ghosts kept by the contracts
// of the functions they call. The time blocks the key could be in are asked for in
// turn; vcSHas says that the one asked for last has the key and is not released.
var (
	vcSKey            uint64
	vcSIDs            []_TimeID
	vcSAsked          int
	vcSHas, vcSRel    bool // it has the key; it has it but is released
	vcSGet            bool
	vcSOff            int64
	vcSData           []byte
	vcSFail           bool
	vcSDone           int // 1 deleted, 2 moved, 3 freed
	vcSCount          int64
	vcSNow            _TimeID
	vcSBlock          *_Block
	vcSPut, vcSFilter bool
	vcSTime           _TimeID
	vcSLocked         bool
)

func vcSDB() *DB {
	db := &DB{internal: &_DB{meter: vcMeter()}}
	if vcBool("closed") {
		db.internal.closed = 1
	}
	return db
}

// The contract of timeRecords, proved below.
//
//verif:model (*github.com/unit-io/unitdb/memdb.DB).timeRecords only storeget storedelete
func vcSTimeRecords(db *DB, key uint64) []_TimeID {
	vcEnsures("of the key", key == vcSKey)
	return vcSIDs
}

// A block asked for is there or not, and has the key or not.
//
//verif:model (*github.com/unit-io/unitdb/memdb.DB).timeBlock only storeget storedelete
func vcSTimeBlock(db *DB, id _TimeID) (*_Block, bool) {
	vcEnsures("the blocks are asked for in turn, the most recent first", vcSAsked < len(vcSIDs) && id == vcSIDs[vcSAsked])
	vcEnsures("no block is asked for after one with the key", !vcSHas && (vcSGet || !vcSRel))
	vcSAsked++
	if vcNondetBool() {
		return nil, false
	}
	b := &_Block{records: map[_Key]int64{}, released: vcNondetBool(), count: vcNondetI64()}
	vcScramble(b.records)
	off, ok := b.records[_Key{key: vcSKey}]
	vcSHas = ok && !b.released
	vcSRel = ok && b.released
	vcSOff = off
	vcSCount = b.count
	vcAssume(vcSCount > 0 || !ok)
	return b, true
}

// The contract of get, proved with put.
//
//verif:model (*github.com/unit-io/unitdb/memdb._Block).get only storeget
func vcSBlockGet(b *_Block, off int64) ([]byte, error) {
	vcEnsures("the record of the key is read", vcSHas && off == vcSOff && b.count == vcSCount)
	if vcSFail {
		return nil, vcErr()
	}
	return vcSData, nil
}

//verif:loop (*DB).Get 0
func vcSGetInv(k int) bool {
	return k == vcSAsked && k <= len(vcSIDs) && !vcSHas
}

// vcStoreget: a key is read from the most recent time block that has it.
func vcStoreget() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	db := vcSDB()
	vcSKey = vcU64("key")
	vcSIDs = make([]_TimeID, vcRange("blocks", 0, 1<<30))
	vcScramble(vcSIDs)
	vcSData = make([]byte, vcRange("n", 0, 1<<30))
	vcScramble(vcSData)
	vcSFail = vcBool("fail")
	vcBX = vcRange("x", 0, 1<<30)
	vcSGet = true
	data, err := db.Get(vcSKey)
	switch {
	case db.internal.closed != 0:
		vcEnsures("a closed store refuses", err != nil && vcSAsked == 0)
	case vcSHas && !vcSFail:
		vcEnsures("its data", err == nil && vcBSame(data, vcSData))
		vcCover("found")
	case vcSHas:
		vcEnsures("a failure is reported", err != nil)
	default:
		vcEnsures("no block has it", err == errEntryDoesNotExist && vcSAsked == len(vcSIDs))
	}
}

//verif:model (*github.com/unit-io/unitdb/memdb.DB).timeLock only storedelete
func vcSTimeLock(db *DB) _Internal { return _Internal{new(sync.RWMutex)} }

//verif:model (*github.com/unit-io/unitdb/memdb.DB).timeID only storedelete
func vcSTimeID(db *DB) _TimeID { return vcSNow }

// The contract of the block's delete, proved above.
//
//verif:model (*github.com/unit-io/unitdb/memdb._Block).delete only storedelete
func vcSBlockDelete(b *_Block, key uint64) error {
	vcEnsures("the key is deleted from the block that has it", vcSHas && vcSDone == 0 && key == vcSKey && b.count == vcSCount)
	if vcNondetBool() {
		vcSFail = true
		return vcErr()
	}
	vcSDone = 1
	b.count--
	vcSCount--
	return nil
}

//verif:model (*github.com/unit-io/unitdb/memdb.DB).move only storedelete
func vcSMove(db *DB, id _TimeID, key uint64) error {
	vcEnsures("the deletion is recorded", vcSDone == 1 && key == vcSKey && id == vcSIDs[vcSAsked-1])
	vcSDone = 2
	if vcNondetBool() {
		vcSFail = true
		return vcErr()
	}
	return nil
}

//verif:model (*github.com/unit-io/unitdb/memdb.DB).free only storedelete
func vcSFree(db *DB, id _TimeID, empty bool) error {
	vcEnsures("a block is freed once nothing is put into it and it is empty", vcSDone == 1 && vcSCount == 0 && empty &&
		id == vcSIDs[vcSAsked-1] && id < vcSNow)
	vcSDone = 3
	if vcNondetBool() {
		vcSFail = true
		return vcErr()
	}
	return nil
}

//verif:loop (*DB).Delete 0
func vcSDeleteInv(k int) bool {
	return k == vcSAsked && k <= len(vcSIDs) && !vcSHas && !vcSRel && vcSDone == 0 && !vcSFail
}

// vcStoredelete: a key is deleted from the most recent time block that has it, and
// its deletion is recorded in the log, unless the block's own log is released with
// its last key.
func vcStoredelete() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	db := vcSDB()
	vcSKey = vcU64("key")
	vcSNow = _TimeID(vcI64("now"))
	vcSIDs = make([]_TimeID, vcRange("blocks", 0, 1<<30))
	vcScramble(vcSIDs)
	err := db.Delete(vcSKey)
	switch {
	case db.internal.closed != 0:
		vcEnsures("a closed store refuses", err != nil && vcSAsked == 0)
	case vcSFail:
		vcEnsures("a failure is reported", err != nil)
	case vcSHas:
		vcEnsures("deleted and recorded", err == nil && (vcSDone == 2 || vcSDone == 3))
		vcCover("deleted")
	case vcSRel:
		vcEnsures("a released block has no key", err == errEntryDoesNotExist && vcSDone == 0)
	default:
		vcEnsures("no block has it", err == errEntryDoesNotExist && vcSDone == 0 && vcSAsked == len(vcSIDs))
	}
}

// vcStorelookup: a key is looked up in the time block given.
func vcStorelookup() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	db := vcSDB()
	b := vcBBlock()
	b.released = vcBool("released")
	key, id, other := vcU64("key"), vcI64("id"), vcI64("other")
	vcAssume(id != other)
	db.timeBlocks = _TimeBlocks{_TimeID(other): &_Block{records: map[_Key]int64{}}}
	have := vcBool("have the block")
	if have {
		db.timeBlocks[_TimeID(id)] = b
	}
	off, ok := b.records[_Key{key: key}]
	vcAssume(!ok || b.released || vcBRecord(off) && vcBHolds(off, _Key{key: key}))
	data, err := db.Lookup(id, key)
	switch {
	case db.internal.closed != 0:
		vcEnsures("a closed store refuses", err != nil)
	case have && ok && !b.released:
		want, _ := b.get(off)
		vcEnsures("the data of the key", err == nil && vcBSame(data, want))
		vcCover("found")
	default:
		vcEnsures("it is not there", err == errEntryDoesNotExist)
	}
}

// The contract of lockTimeBlock.
//
//verif:model (*github.com/unit-io/unitdb/memdb.DB).lockTimeBlock only storeput
func vcSLockTimeBlock(db *DB) (_TimeID, *_Block, error) {
	vcEnsures("of an open store", db.internal.closed == 0 && !vcSLocked)
	if vcNondetBool() {
		return vcSTime, nil, errForbidden
	}
	vcSLocked = true
	return vcSTime, vcSBlock, nil
}

//verif:model (*github.com/unit-io/unitdb/memdb._Block).put only storeput memBatchPut
func vcSBlockPut(b *_Block, k _Key, data []byte) error {
	vcEnsures("the key and its data are put into the locked block", vcSLocked && !vcSPut && b == vcSBlock && k.delFlag == 0 && k.key == vcSKey &&
		vcBSame(data, vcSData))
	if vcNondetBool() {
		vcSFail = true
		return vcErr()
	}
	vcSPut = true
	return nil
}

//verif:model (*github.com/unit-io/unitdb/memdb.DB).addTimeFilter only storeput memBatchPut
func vcSAddTimeFilter(db *DB, id _TimeID, key uint64) error {
	vcEnsures("the block is one the key could be in", vcSPut && id == vcSTime && key == vcSKey)
	vcSFilter = true
	return nil
}

// vcStoreput: a key is put into the current time block, which the key is
// then looked for in, and whose ID is answered.
func vcStoreput() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	db := vcSDB()
	vcSKey, vcSTime = vcU64("key"), _TimeID(vcI64("time"))
	vcSBlock = &_Block{}
	vcSData = make([]byte, vcRange("n", 0, 1<<30))
	vcScramble(vcSData)
	vcBX = vcRange("x", 0, 1<<30)
	id, err := db.Put(vcSKey, vcSData)
	if err == nil {
		vcEnsures("put", vcSPut && vcSFilter && id == int64(vcSTime))
		vcCover("put")
	} else {
		vcEnsures("refused or failed", !vcSPut && (db.internal.closed != 0 || vcSFail || !vcSLocked))
	}
}
