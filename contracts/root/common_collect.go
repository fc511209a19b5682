package unitdb

import (
	"sort"

	"github.com/unit-io/unitdb/message"
)

// The contract of collecting a query's window entries, over ghosts kept by the
// contracts of the lookups of its topics and of each topic's entries: an entry of
// a topic, and where it has been put; a sequence number no topic has.
var (
	vcCQ      *Query
	vcCTopics []_Topic
	vcCK      int // topics looked up
	vcCLimit  int
	vcCT      int // a topic
	vcCI      int // an entry of it
	vcCHave   bool
	vcCSeq    uint64
	vcCPos    int
	vcCAvoid  uint64
	vcCBase   int // entries collected before the topic
	vcCLen    int // entries of the topic
	vcCCur    []_WinEntry
	vcCMore   bool
)

//verif:model (*github.com/unit-io/unitdb._Trie).lookup only collect
func vcCTrieLookup(t *_Trie, query []message.Part, depth, topicType uint8) _Topics {
	vcEnsures("the topics of the query", depth == vcCQ.internal.depth && topicType == vcCQ.internal.topicType &&
		len(query) == len(vcCQ.internal.parts) && (len(query) == 0 || &query[0] == &vcCQ.internal.parts[0]))
	return vcCTopics
}

//verif:model (*github.com/unit-io/unitdb._TimeWindowBucket).lookup only collect
func vcCWindowLookup(tw *_TimeWindowBucket, fs *_FileSet, topicHash uint64, off, cutoff int64, limit int) _WindowEntries {
	vcEnsures("each topic's entries are looked up in turn", vcCK < len(vcCTopics) && topicHash == vcCTopics[vcCK].hash &&
		off == vcCTopics[vcCK].offset && cutoff == vcCQ.internal.cutoff && limit == vcCLimit)
	n := vcNondetInt()
	vcAssume(n >= 0 && n <= limit)
	vcCBase += vcCLen
	vcCLen = n
	vcCCur = make([]_WinEntry, n)
	vcScramble(vcCCur)
	vcAssume(vcForall(0, n, func(i int) bool { return vcCCur[i].sequence != vcCAvoid }))
	if vcCK == vcCT && vcCI < n {
		vcCHave = true
		vcCSeq = vcCCur[vcCI].sequence
		vcCPos = vcCBase + vcCI
	}
	if n >= limit {
		vcCMore = true
	}
	vcCK++
	return vcCCur
}

// sort.Slice's contract: a permutation, ordered by less.
//
//verif:model =sort.Slice only collect
func vcCSort(x interface{}, less func(i, j int) bool) {
	b := x.([]_Query)
	n := len(b)
	old := append([]_Query{}, b...)
	to := make([]int, n)
	from := make([]int, n)
	vcScramble(to)
	vcScramble(from)
	nb := make([]_Query, n)
	vcScramble(nb)
	vcAssume(vcForall(0, n, func(i int) bool { return from[i] >= 0 && from[i] < n && to[from[i]] == i && nb[i] == old[from[i]] }))
	vcAssume(vcForall(0, n, func(i int) bool { return to[i] >= 0 && to[i] < n && nb[to[i]] == old[i] }))
	copy(b, nb)
	if vcCHave {
		vcCPos = to[vcCPos]
	}
	vcAssume(vcForall(0, n, func(i int) bool {
		return vcForall(0, n, func(j int) bool { return j <= i || !less(j, i) })
	}))
}

var _ = sort.Slice

func vcCAll(es []_Query) bool {
	return vcForall(0, len(es), func(i int) bool { return es[i].seq != vcCAvoid })
}

// the topics
//
//verif:loop (*DB).lookup 0
func vcCTopicsInv(k int, more bool, q *Query) bool {
	es := q.internal.winEntries
	return vcCK == k && k <= len(vcCTopics) && more == vcCMore && len(es) == vcCBase+vcCLen && vcCBase >= 0 && vcCLen >= 0 &&
		vcCAll(es) &&
		(!vcCHave || vcCT < vcCK && vcCPos >= 0 && vcCPos < len(es) && es[vcCPos].seq == vcCSeq && es[vcCPos].topicHash == vcCTopics[vcCT].hash)
}

// the entries of a topic
//
//verif:loop (*DB).lookup 1
func vcCEntriesInv(k int, q *Query, topic _Topic) bool {
	es := q.internal.winEntries
	return k <= vcCLen && len(es) == vcCBase+k && vcCK >= 1 && vcCAll(es) && topic.hash == vcCTopics[vcCK-1].hash &&
		(!vcCHave || vcCPos >= len(es) && vcCT == vcCK-1 && vcCPos == vcCBase+vcCI && vcCI < vcCLen && vcCCur[vcCI].sequence == vcCSeq ||
			vcCT < vcCK && vcCPos >= 0 && vcCPos < len(es) && es[vcCPos].seq == vcCSeq && es[vcCPos].topicHash == vcCTopics[vcCT].hash)
}

// vcCollect checks the collection of any query's entries.
func vcCollect() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	vcCQ = &Query{}
	vcCQ.internal.depth, vcCQ.internal.topicType, vcCQ.internal.cutoff = vcU8("depth"), vcU8("type"), vcI64("cutoff")
	vcCQ.internal.parts = make([]message.Part, vcRange("parts", 0, 102))
	vcCQ.internal.winEntries = make([]_Query, vcRange("before", 0, 1<<30))
	vcCTopics = make([]_Topic, vcRange("topics", 0, 1<<30))
	vcScramble(vcCTopics)
	vcCLimit = vcRange("limit", 1, 1<<40)
	vcCT, vcCI, vcCAvoid = vcRange("topic", 0, 1<<30), vcRange("entry", 0, 1<<40), vcU64("avoid")
	db := &DB{internal: &_DB{}}
	more := db.lookup(vcCQ, vcCLimit)
	es := vcCQ.internal.winEntries
	vcEnsures("every topic is looked up", vcCK == len(vcCTopics))
	vcEnsures("more only if a topic has its limit of entries", more == vcCMore)
	vcEnsures("each entry of each topic is collected under its hash", !vcCHave ||
		vcCPos >= 0 && vcCPos < len(es) && es[vcCPos].seq == vcCSeq && es[vcCPos].topicHash == vcCTopics[vcCT].hash)
	vcEnsures("no other is", vcCAll(es) && len(es) == vcCBase+vcCLen)
	vcEnsures("in order of decreasing sequence", vcForall(1, len(es), func(i int) bool { return es[i-1].seq >= es[i].seq }))
}
