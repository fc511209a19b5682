package unitdb

import "github.com/unit-io/unitdb/message"

// Ghosts: an arbitrary entry of the list before, an arbitrary hash.
var (
	vcTI    int
	vcTHash uint64
	vcTOld  _Topic
	vcTAll  bool // (frame) nothing before has the hash looked for
)

//verif:loop (*_Topics).addUnique 0
func vcAddUniqueInv(k int, top *_Topics, value _Topic) bool {
	return k <= len(*top) && (vcTI >= k || (*top)[vcTI].hash != value.hash)
}

// VC_C07_addUnique: adding a topic to a set keeps the others in place and holds
// the topic once, with the offset given last.
func VC_C07_addUnique() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	n := vcRange("topics", 0, 1<<20)
	ts := make(_Topics, n)
	vcScramble(ts)
	vcTI = vcRange("place", 0, 1<<20)
	j := vcRange("other place", 0, 1<<20)
	vcAssume(vcTI < n && j < n && j != vcTI && ts[j].hash != ts[vcTI].hash)
	old, oldJ := ts[vcTI], ts[j]
	v := _Topic{hash: vcU64("hash"), offset: vcI64("offset")}
	top := ts
	added := top.addUnique(v)
	if added {
		vcAssert("added behind the others", len(top) == n+1 && top[n] == v && top[vcTI] == old && top[j] == oldJ)
		vcAssert("only a topic not in the set", old.hash != v.hash)
		return
	}
	vcAssert("nothing added", len(top) == n)
	vcAssert("the hashes stay", top[vcTI].hash == old.hash && top[j].hash == oldJ.hash)
	vcAssert("others keep their offset", old.hash == v.hash || top[vcTI].offset == old.offset)
	vcAssert("at most one takes the offset", top[vcTI].offset == old.offset || top[vcTI] == v)
}

// The trie at one node. vcTA is an arbitrary child, under part vcTP.
var (
	vcTP       _Part
	vcTA       *_Node
	vcTQuery   []message.Part
	vcTDepth   uint8
	vcTType    uint8
	vcTCalls   int
	vcTRest    int // the length of the query it is looked up with
	vcTX       int // an arbitrary place in it
	vcTopicsIn int // topics added
	vcTSet     *_Topics
)

// vcTMatch: the number of levels of the query part vcTP stands for, if it matches.
func vcTMatch() (int, bool) {
	q := vcTQuery[0]
	n := int(vcTP.wildchars) + 1
	switch {
	case vcTP.hash == q.Hash && vcTP.wildchars == q.Wildchars:
		return 1, true // the same part, with the wildcards that follow it in both
	case vcTP.hash == q.Hash && n <= len(vcTQuery):
		return n, true // each of its wildcards stands for a level
	case vcTP.hash == message.Wildcard:
		return 0, true // stands for any levels
	}
	return 0, false
}

//verif:model (*github.com/unit-io/unitdb._Trie).ilookup rec
func vcTLookup(t *_Trie, query []message.Part, depth, topicType uint8, tops *_Topics, n *_Node) {
	vcEnsures("looked up for the same query", depth == vcTDepth && topicType == vcTType && tops == vcTSet)
	if n == vcTA {
		vcTCalls++
		vcTRest = len(query)
		off := len(vcTQuery) - len(query)
		vcEnsures("with the rest of the query", off >= 0 && (vcTX >= len(query) || query[vcTX] == vcTQuery[off+vcTX]))
	}
}

//verif:model (*github.com/unit-io/unitdb._Topics).addUnique only node
func vcTAddUnique(top *_Topics, v _Topic) bool {
	vcEnsures("the topics of the node are added", top == vcTSet && v.hash == vcTOld.hash || vcTopicsIn != vcTI)
	vcTopicsIn++
	return true
}

//verif:loop (*_Trie).ilookup 0
func vcTopicsInv(k int, currNode *_Node) bool { return k <= len(currNode.topics) && vcTopicsIn == k }

//verif:loop (*_Trie).ilookup 1
func vcChildrenInv(k int, currNode *_Node) bool {
	n, ok := vcTMatch()
	if !vcVisited(currNode.children, vcTP) || !ok {
		return vcTCalls == 0
	}
	return vcTCalls == 1 && vcTRest == len(vcTQuery)-n
}

// VC_C07_node: at any node of the trie a lookup adds the node's topics exactly if
// its depth is the query's or it stands for all sub-topics, and goes on, once and
// with the rest of the query, in exactly the children that match.
func VC_C07_node() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	vcTA = &_Node{}
	vcTP = _Part{hash: vcU32("part"), wildchars: vcU8("wildcards")}
	vcAssume(vcTP.wildchars <= message.TopicMaxDepth) // a topic has no more levels: VC_C07_parse
	node := &_Node{part: _Part{hash: vcU32("node part"), wildchars: vcU8("node wildcards")}, depth: vcU8("node depth"), children: map[_Part]*_Node{}}
	vcScramble(node.children)
	node.children[vcTP] = vcTA
	m := vcRange("topics", 0, 1<<20)
	node.topics = make(_Topics, m)
	vcScramble(node.topics)
	vcTI = vcRange("topic", 0, 1<<20)
	if vcTI < m {
		vcTOld = node.topics[vcTI]
	}
	n := vcRange("query", 0, message.TopicMaxDepth+2) // VC_C07_parse
	vcTQuery = make([]message.Part, n)
	vcScramble(vcTQuery)
	vcTX = vcRange("place", 0, message.TopicMaxDepth+2)
	vcTDepth, vcTType = vcU8("depth"), vcU8("type")
	vcTSet = &_Topics{}
	t := &_Trie{}
	t.ilookup(vcTQuery, vcTDepth, vcTType, vcTSet, node)
	reached := node.depth == vcTDepth || vcTType == message.TopicStatic && node.part.hash == message.Wildcard
	vcAssert("the node's topics", reached && vcTopicsIn == m || !reached && vcTopicsIn == 0)
	if n == 0 {
		vcAssert("ends with the query", vcTCalls == 0)
		return
	}
	k, ok := vcTMatch()
	vcAssert("goes on in matching children only", ok == (vcTCalls == 1) && vcTCalls <= 1)
	vcAssert("with the levels matched taken off", !ok || vcTRest == n-k)
}

//verif:loop (*_Trie).getOffset 0
func vcGetOffsetInv(k int, curr *_Node, topicHash uint64) bool {
	return k <= len(curr.topics) && (vcTI >= k || curr.topics[vcTI].hash != topicHash)
}

// VC_C07_offset: the offset of a topic is the one set last, and setting it is
// refused exactly for a topic that is not in the trie.
func VC_C07_offset() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	h, off := vcU64("hash"), vcI64("offset")
	n := vcRange("topics", 0, 1<<20)
	node := &_Node{topics: make(_Topics, n)}
	vcScramble(node.topics)
	vcTI = vcRange("place", 0, 1<<20)
	// the node holds the topic, once
	vcAssume(vcTI < n && node.topics[vcTI].hash == h && vcForall(0, n, func(i int) bool { return i == vcTI || node.topics[i].hash != h }))
	t := &_Trie{topicTrie: &_TopicTrie{summary: map[uint64]*_Node{}}}
	vcScramble(t.topicTrie.summary)
	t.topicTrie.summary[h] = node
	was := node.topics[vcTI].offset
	got, ok := t.getOffset(h)
	vcAssert("the topic's offset", ok && got == was)
	vcAssert("set", t.setOffset(_Topic{hash: h, offset: off}))
	got, ok = t.getOffset(h)
	vcAssert("the offset set", ok && got == off && len(node.topics) == n)
	delete(t.topicTrie.summary, h)
	_, ok = t.getOffset(h)
	vcAssert("no offset of a topic not in the trie", !ok && !t.setOffset(_Topic{hash: h, offset: off}))
}
