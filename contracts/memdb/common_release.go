package memdb

import (
	"encoding/binary"

	"github.com/unit-io/bpool"
	"github.com/unit-io/unitdb/filter"
	"github.com/unit-io/unitdb/wal"
)

// Keys and Size go through all the blocks: the store has two here, of any records.
var vcKBlocks []*_Block

//verif:model (*github.com/unit-io/unitdb/memdb.DB).blocks only VC_C16_listKeys VC_C16_size
func vcKAllBlocks(db *DB) []*_Block { return vcKBlocks }

var (
	vcKKey      uint64
	vcKA, vcKB  map[_Key]int64
	vcKBase     int
	vcKHadFirst bool
)

func vcKIn(m map[_Key]int64) bool { _, ok := m[_Key{key: vcKKey}]; return ok }

//verif:loop (*DB).Keys 1
func vcKKeysInv(k int, block *_Block, keys []uint64) bool {
	has := vcExists(0, len(keys), func(i int) bool { return keys[i] == vcKKey })
	in := block == vcKBlocks[0] && vcVisited(vcKA, _Key{key: vcKKey}) ||
		block == vcKBlocks[1] && (vcKIn(vcKA) || vcVisited(vcKB, _Key{key: vcKKey}))
	return has == in && len(keys) >= 0
}

// VC_C16_listKeys: the keys are those put and not deleted.
//
//verif:unroll 3
func VC_C16_listKeys() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	vcKA, vcKB = map[_Key]int64{}, map[_Key]int64{}
	vcScramble(vcKA)
	vcScramble(vcKB)
	vcKBlocks = []*_Block{{records: vcKA}, {records: vcKB}}
	vcKKey = vcU64("key")
	keys := (&DB{internal: &_DB{}}).Keys()
	has := vcExists(0, len(keys), func(i int) bool { return keys[i] == vcKKey })
	vcEnsures("listed if put", has || !vcKIn(vcKA) && !vcKIn(vcKB))
	vcEnsures("and only if", !has || vcKIn(vcKA) || vcKIn(vcKB))
}

// VC_C16_size: the size is the count of the blocks.
//
//verif:unroll 3
func VC_C16_size() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	a, b := &_Block{count: vcI64("a")}, &_Block{count: vcI64("b")}
	vcKBlocks = []*_Block{a, b}
	size := (&DB{internal: &_DB{}}).Size()
	vcEnsures("sum of the counts", size == a.count+b.count)
}

// The contract of releasing a block's logs, over ghosts.
var (
	vcXRefs     []_TimeID
	vcXReleased int
	vcXFailed   bool
	vcXID       _TimeID
	vcXPut      bool
)

//verif:model (*github.com/unit-io/unitdb/wal.WAL).SignalLogApplied only releaseLog
func vcXSignalLogApplied(w *wal.WAL, id int64) error {
	vcEnsures("the logs of the block are released in turn", vcXReleased < len(vcXRefs) && id == int64(vcXRefs[vcXReleased]))
	vcXReleased++
	if vcNondetBool() {
		vcXFailed = true
		return vcErr()
	}
	return nil
}

//verif:loop (*DB).releaseLog 0
func vcXRefsInv(k int) bool { return k == vcXReleased && k <= len(vcXRefs) && !vcXFailed }

//verif:model (*github.com/unit-io/bpool.BufferPool).Put only releaseLog
func vcXBufferPut(p *bpool.BufferPool, b *bpool.Buffer) {
	vcEnsures("its buffer is given back once", !vcXPut)
	vcXPut = true
}

// vcReleaseLog: a block is released after all its logs; it alone is no
// longer one of the store's, nor one any key could be in. A block that is not
// empty is not released when only an empty one is to be.
func vcReleaseLog() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	vcXID = _TimeID(vcI64("id"))
	other := _TimeID(vcI64("other"))
	vcAssume(other != vcXID)
	vcXRefs = make([]_TimeID, vcRange("logs", 0, 1<<30))
	vcScramble(vcXRefs)
	b := &_Block{timeRefs: vcXRefs, count: vcI64("count"), released: vcBool("released"), data: &bpool.Buffer{}}
	o := &_Block{count: 9}
	r1 := &_TimeFilter{timeRecords: map[_TimeID]*filter.Block{}}
	r2 := &_TimeFilter{timeRecords: map[_TimeID]*filter.Block{}}
	vcScramble(r1.timeRecords)
	vcScramble(r2.timeRecords)
	_, o1 := r1.timeRecords[other]
	_, o2 := r2.timeRecords[other]
	tm := &_TimeMark{records: map[_TimeID]_TimeRecord{}, releasedRecords: map[_TimeID]_TimeRecord{}}
	vcScramble(tm.releasedRecords)
	tr, t1 := tm.releasedRecords[other]
	db := &DB{internal: &_DB{timeMark: tm}, timeBlocks: _TimeBlocks{other: o}, timeFilters: map[_BlockKey]*_TimeFilter{1: r1, 5: r2}}
	have, was := vcBool("have"), b.released
	if have {
		db.timeBlocks[vcXID] = b
	}
	empty := vcBool("empty")
	err := db.releaseLog(vcXID, empty)
	if vcXPut {
		vcEnsures("released after its logs", err == nil && have && !was && vcXReleased == len(vcXRefs) && !vcXFailed && b.released)
		vcEnsures("not while it has entries if it is to be empty", !empty || b.count == 0)
		_, ok := db.timeBlocks[vcXID]
		vcEnsures("no longer a block", !ok)
		_, k1 := r1.timeRecords[vcXID]
		_, k2 := r2.timeRecords[vcXID]
		vcEnsures("nor looked for", !k1 && !k2)
		_, ok = tm.releasedRecords[vcXID]
		vcEnsures("nor to be iterated", !ok)
		vcCover("released")
	} else {
		vcEnsures("otherwise the block stays", b.released == was)
		bb, ok := db.timeBlocks[vcXID]
		vcEnsures("as it was", ok == have && (!ok || bb == b))
		switch {
		case !have || was:
			vcEnsures("there is no such block", err == errEntryDoesNotExist && vcXReleased == 0)
		case empty && b.count != 0:
			vcEnsures("it is not empty", err == nil && vcXReleased == 0)
		default:
			vcEnsures("a failure is reported", err != nil && vcXFailed)
		}
	}
	oo, ok := db.timeBlocks[other]
	_, p1 := r1.timeRecords[other]
	_, p2 := r2.timeRecords[other]
	nr, t2 := tm.releasedRecords[other]
	vcEnsures("no other block changes", ok && oo == o && !o.released && o.count == 9 && p1 == o1 && p2 == o2 && t1 == t2 && nr == tr)
}

var (
	vcMID    _TimeID
	vcMKey   uint64
	vcMBlock *_Block
	vcMPut   bool
	vcMFail  bool
)

//verif:model (*github.com/unit-io/unitdb/memdb.DB).lockTimeBlock only VC_C16_move
func vcMLockTimeBlock(db *DB) (_TimeID, *_Block, error) {
	if vcNondetBool() {
		vcMFail = true
		return 0, nil, errForbidden
	}
	return _TimeID(vcNondetI64()), vcMBlock, nil
}

//verif:model (*github.com/unit-io/unitdb/memdb._Block).put only VC_C16_move
func vcMBlockPut(b *_Block, k _Key, data []byte) error {
	vcEnsures("a record of the deletion, of the block it was deleted from, is put into the current block",
		b == vcMBlock && k.delFlag == 1 && k.key == vcMKey && len(data) == 8 && binary.LittleEndian.Uint64(data) == uint64(vcMID))
	vcMPut = true
	if vcNondetBool() {
		vcMFail = true
		return vcErr()
	}
	return nil
}

// VC_C16_move: a deletion is recorded in the current block, which also keeps the
// blocks its key was deleted from.
func VC_C16_move() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	vcMID, vcMKey = _TimeID(vcI64("id")), vcU64("key")
	vcMBlock = &_Block{}
	if vcBool("keys") {
		vcMBlock.delKeys = map[uint64][]_TimeID{}
		vcScramble(vcMBlock.delKeys)
	}
	other := vcU64("other key")
	was := vcMBlock.delKeys[vcMKey]
	had := vcMBlock.delKeys[other]
	x := vcRange("x", 0, 1<<40)
	vcAssume(len(was) < 1<<40 && len(had) < 1<<40)
	err := (&DB{internal: &_DB{}}).move(vcMID, vcMKey)
	vcEnsures("a failure is reported", (err != nil) == vcMFail)
	if err == nil {
		vcEnsures("recorded", vcMPut)
		now := vcMBlock.delKeys[vcMKey]
		vcEnsures("kept", len(now) == len(was)+1 && now[len(was)] == vcMID)
		vcEnsures("with those before", x >= len(was) || now[x] == was[x])
		vcCover("moved")
	}
	if other != vcMKey {
		now := vcMBlock.delKeys[other]
		vcEnsures("no other key changes", len(now) == len(had) && (x >= len(had) || now[x] == had[x]))
	}
}
