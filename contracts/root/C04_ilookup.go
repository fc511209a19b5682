package unitdb

import "sort"

// The contract of looking up a topic's entries in memory, over ghosts kept by the
// contract of isExpired: vcIS, an entry of the topic's list vcIK at vcII, has been
// found, at place vcIPos.
var (
	vcIK              _Key
	vcIE              _WindowEntries // its list
	vcII              int
	vcIS              uint64
	vcISeen           bool
	vcIPos            int
	vcIAvoid          uint64 // a sequence number that is not the topic's
	vcIHash           uint64
	vcINow            uint32
	vcIKept, vcILimit int
)

//verif:model (github.com/unit-io/unitdb._WinEntry).isExpired only memory
func vcIExpired(e _WinEntry) bool {
	if e.expiresAt != 0 && e.expiresAt <= vcINow {
		return true
	}
	if e.sequence == vcIS {
		vcISeen = true
		vcIPos = vcIKept
	}
	vcIKept++
	return false
}

//verif:model (*github.com/unit-io/unitdb._ExpiryWindowBucket).addExpiry only memory
func vcIAddExpiry(wb *_ExpiryWindowBucket, e timeWindowEntry) error { return nil }

var vcIShard *_TimeWindow

//verif:model (*github.com/unit-io/unitdb._WindowBlocks).getWindowBlock only memory
func vcIGetWindowBlock(w *_WindowBlocks, blockID uint64) *_TimeWindow { return vcIShard }

// sort.Slice's contract: a permutation, ordered by less.
//
//verif:model =sort.Slice only memory
func vcISort(x interface{}, less func(i, j int) bool) {
	b := x.([]_Key)
	n := len(b)
	old := append([]_Key{}, b...)
	to := make([]int, n)
	from := make([]int, n)
	vcScramble(to)
	vcScramble(from)
	nb := make([]_Key, n)
	vcScramble(nb)
	vcAssume(vcForall(0, n, func(i int) bool { return from[i] >= 0 && from[i] < n && to[from[i]] == i && nb[i] == old[from[i]] }))
	vcAssume(vcForall(0, n, func(i int) bool { return to[i] >= 0 && to[i] < n && nb[to[i]] == old[i] }))
	copy(b, nb)
	vcAssume(vcForall(0, n, func(i int) bool {
		return vcForall(0, n, func(j int) bool { return j <= i || !less(j, i) })
	}))
}

var _ = sort.Slice

func vcIFound(es _WindowEntries) bool {
	return len(es) == vcIKept && len(es) <= vcILimit && vcForall(0, len(es), func(i int) bool { return es[i].sequence != vcIAvoid }) &&
		(!vcISeen || vcIPos >= 0 && vcIPos < len(es) && es[vcIPos].sequence == vcIS)
}

// the topic's keys
//
//verif:loop (*_TimeWindowBucket).ilookup 0
func vcIKeysInv(k int, keys []_Key) bool {
	return len(keys) <= k && vcForall(0, len(keys), func(i int) bool { return keys[i].topicHash == vcIHash }) &&
		(!vcVisited(vcIShard.entries, vcIK) || vcExists(0, len(keys), func(i int) bool { return keys[i] == vcIK }))
}

//verif:loop (*_TimeWindowBucket).ilookup 1
func vcIListsInv(k int, keys []_Key, winEntries _WindowEntries) bool {
	return k <= len(keys) && vcIFound(winEntries) &&
		(vcISeen || !vcExists(0, k, func(i int) bool { return keys[i] == vcIK }))
}

//verif:loop (*_TimeWindowBucket).ilookup 2
func vcIListInv(i int, key _Key, keys []_Key, wEntries, winEntries _WindowEntries) bool {
	return i >= -1 && i < len(wEntries) && vcIFound(winEntries) && (vcISeen || !vcOldBool(func() bool { return vcISeen })) &&
		(vcISeen || key != vcIK || i >= vcII)
}

// VC_C04_memory: the entries found in memory are at most limit entries of the
// topic, and with fewer than limit all of its unexpired ones.
func VC_C04_memory() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	vcIShard = &_TimeWindow{entries: map[_Key]_WindowEntries{}}
	vcScramble(vcIShard.entries)
	vcIHash, vcINow, vcIAvoid = vcU64("hash"), vcU32("now"), vcU64("avoid")
	vcILimit = vcRange("limit", 0, 1<<30)
	vcIK = _Key{timeID: vcI64("time"), topicHash: vcIHash}
	vcII = vcRange("i", 0, 1<<30)
	es, ok := vcIShard.entries[vcIK]
	vcAssume(ok && vcII < len(es))
	s := es[vcII]
	vcAssume(s.expiresAt == 0 || s.expiresAt > vcINow)
	vcIS = s.sequence
	vcAssume(vcMapForall(vcIShard.entries, func(k _Key, es _WindowEntries) bool {
		return k.topicHash != vcIHash || vcForall(0, len(es), func(i int) bool { return es[i].sequence != vcIAvoid })
	}))
	tw := &_TimeWindowBucket{windowBlocks: &_WindowBlocks{}}
	got := tw.ilookup(vcIHash, vcILimit)
	vcEnsures("at most the limit", len(got) <= vcILimit)
	j := vcRange("j", 0, 1<<30)
	vcEnsures("none of another topic", j >= len(got) || got[j].sequence != vcIAvoid)
	if len(got) < vcILimit {
		vcEnsures("every unexpired entry found", vcISeen && got[vcIPos].sequence == s.sequence)
	}
}
