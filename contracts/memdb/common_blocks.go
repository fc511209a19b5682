package memdb

import (
	"sort"

	"github.com/unit-io/bpool"
	"github.com/unit-io/unitdb/filter"
	"github.com/unit-io/unitdb/hash"
)

// The contract of FindBlock, proved for C19: a block of those there are, the same
// for the same key.
var (
	vcFKey   uint64
	vcFBlock uint16
)

//verif:model (*github.com/unit-io/unitdb/hash.Consistent).FindBlock only addTimeFilter timeRecords
func vcFFindBlock(c *hash.Consistent, key uint64) uint16 {
	vcEnsures("the block of the key", key == vcFKey)
	return vcFBlock
}

var (
	vcFR        *_TimeFilter
	vcFAppended bool
)

func vcFDB() *DB {
	vcFKey = vcU64("key")
	vcFBlock = uint16(vcRange("block", 0, nBlocks-1))
	vcFR = &_TimeFilter{timeRecords: map[_TimeID]*filter.Block{}, filter: &filter.Generator{}}
	vcScramble(vcFR.timeRecords)
	other := &_TimeFilter{timeRecords: map[_TimeID]*filter.Block{}}
	o := vcRange("other", 0, nBlocks-1)
	vcAssume(o != int(vcFBlock))
	return &DB{internal: &_DB{}, timeFilters: map[_BlockKey]*_TimeFilter{_BlockKey(o): other, _BlockKey(vcFBlock): vcFR}}
}

//verif:model (*github.com/unit-io/unitdb/filter.Generator).Bytes only addTimeFilter
func vcFBytes(g *filter.Generator) []byte { return nil }

//verif:model github.com/unit-io/unitdb/filter.NewFilterBlock only addTimeFilter
func vcFNewFilterBlock(buf []byte) *filter.Block { return &filter.Block{} }

//verif:model (*github.com/unit-io/unitdb/filter.Generator).Append only addTimeFilter
func vcFAppend(g *filter.Generator, h uint64) {
	vcEnsures("the key is added", h == vcFKey && g == vcFR.filter)
	vcFAppended = true
}

// vcMemAddTimeFilter: the block becomes one of those the key, whose records are
// those of its own block key, could be in; no other does or ceases to be.
func vcMemAddTimeFilter() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	db := vcFDB()
	id, other := _TimeID(vcI64("id")), _TimeID(vcI64("other id"))
	_, had := vcFR.timeRecords[other]
	err := db.addTimeFilter(id, vcFKey)
	_, ok := vcFR.timeRecords[id]
	vcEnsures("added", err == nil && ok && vcFAppended)
	_, has := vcFR.timeRecords[other]
	vcEnsures("no other changes", other == id || has == had)
	for k, r := range db.timeFilters {
		vcEnsures("nor the records of other keys", k == _BlockKey(vcFBlock) || len(r.timeRecords) == 0)
	}
}

var vcFT _TimeID // an arbitrary time ID

// sort.Slice's contract: a permutation, ordered by less.
//
//verif:model =sort.Slice only timeRecords timeRefs allRefs
func vcFSort(x interface{}, less func(i, j int) bool) {
	b := x.([]_TimeID)
	n := len(b)
	old := append([]_TimeID{}, b...)
	to := make([]int, n)
	from := make([]int, n)
	vcScramble(to)
	vcScramble(from)
	nb := make([]_TimeID, n)
	vcScramble(nb)
	vcAssume(vcForall(0, n, func(i int) bool { return from[i] >= 0 && from[i] < n && to[from[i]] == i && nb[i] == old[from[i]] }))
	vcAssume(vcForall(0, n, func(i int) bool { return to[i] >= 0 && to[i] < n && nb[to[i]] == old[i] }))
	copy(b, nb)
	vcAssume(vcForall(0, n, func(i int) bool {
		return vcForall(0, n, func(j int) bool { return j <= i || !less(j, i) })
	}))
}

var _ = sort.Slice

//verif:loop (*DB).timeRecords 0
func vcFRecordsInv(k int, timeIDs []_TimeID) bool {
	return len(timeIDs) == k && (!vcVisited(vcFR.timeRecords, vcFT) || vcExists(0, k, func(i int) bool { return timeIDs[i] == vcFT })) &&
		(vcVisited(vcFR.timeRecords, vcFT) || vcForall(0, k, func(i int) bool { return timeIDs[i] != vcFT }))
}

// vcMemTimeRecords: the time blocks a key could be in, each of them, and no
// others, the most recent first.
func vcMemTimeRecords() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	db := vcFDB()
	vcFT = _TimeID(vcI64("t"))
	_, in := vcFR.timeRecords[vcFT]
	ids := db.timeRecords(vcFKey)
	vcEnsures("all of them", !in || vcExists(0, len(ids), func(i int) bool { return ids[i] == vcFT }))
	i, j := vcRange("i", 0, 1<<30), vcRange("j", 0, 1<<30)
	vcEnsures("no others", in || i >= len(ids) || ids[i] != vcFT)
	vcEnsures("the most recent first", i >= j || j >= len(ids) || ids[i] >= ids[j])
}

//verif:model (*github.com/unit-io/bpool.BufferPool).Get only addTimeBlock lockTimeBlock
func vcFGet(p *bpool.BufferPool) *bpool.Buffer { return &bpool.Buffer{} }

// vcMemAddTimeBlock: a block is added once, empty, and no other is touched.
func vcMemAddTimeBlock() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	id, other := _TimeID(vcI64("id")), _TimeID(vcI64("other id"))
	vcAssume(id != other)
	b, o := &_Block{count: 7}, &_Block{count: 8}
	db := &DB{internal: &_DB{}, timeBlocks: _TimeBlocks{}}
	had, hadOther := vcBool("had"), vcBool("had other")
	if had {
		db.timeBlocks[id] = b
	}
	if hadOther {
		db.timeBlocks[other] = o
	}
	if vcBool("closed") {
		db.timeBlocks = nil
		vcEnsures("a closed store has none", !db.addTimeBlock(id))
		return
	}
	ok := db.addTimeBlock(id)
	nb, has := db.timeBlock(id)
	vcEnsures("added once", ok == !had && has)
	if had {
		vcEnsures("not added again", nb == b && b.count == 7)
	} else {
		vcEnsures("empty", nb.count == 0 && len(nb.records) == 0 && !nb.released && nb.lastOffset == 0 && len(nb.timeRefs) == 0 && nb.data != nil)
	}
	no, has := db.timeBlock(other)
	vcEnsures("no other changes", has == hadOther && (!has || no == o && o.count == 8))
}
