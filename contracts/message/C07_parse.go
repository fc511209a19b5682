package message

import "bytes"

// Ghosts of the proof of parseWildcardTopic: the levels of the topic (level i is
// given as a slice of length i+1), which ones are hashed, for an arbitrary level
// and an arbitrary part.
var (
	vcGN        int // levels
	vcGMulti    bool
	vcGContract uint32
	vcGParts    int         // levels hashed
	vcGStart    [101]int    // their places
	vcGHash     [101]uint32 // and hashes
	vcGL        int         // an arbitrary level
	vcGLWild    bool        // is a '*'
	vcGLPart    int         // its part
	vcGQ        int         // an arbitrary part
	vcGSeen     int         // levels looked at
)

//verif:model (*github.com/unit-io/unitdb/message.Topic).parseOptions only parse
func vcParseOptions(t *Topic, text []byte) bool { return true }

//verif:model =bytes.FieldsFunc only parse
func vcLevels(s []byte, f func(rune) bool) [][]byte {
	c := rune(vcNondetU32())
	vcEnsures("levels are separated by dots only", f('.') && (c == '.' || !f(c)))
	all := make([][]byte, 101)
	text := make([]byte, 101)
	for i := 0; i < 101; i++ {
		all[i] = text[:i+1]
	}
	return all[:vcGN]
}

//verif:model =bytes.HasSuffix only parse
func vcSuffix(s, suffix []byte) bool {
	if len(suffix) == 3 {
		vcEnsures("the suffix for sub-topics", suffix[0] == '.' && suffix[1] == '.' && suffix[2] == '.')
		return vcGMulti
	}
	vcEnsures("the wildcard of a level", len(suffix) == 1 && suffix[0] == '*')
	vcEnsures("levels are looked at in order", len(s) == vcGSeen+1)
	vcGSeen++
	wild := vcNondetBool()
	if vcGSeen == vcGL+1 {
		vcGLWild = wild
	}
	return wild
}

//verif:model =bytes.TrimRight only parse
func vcTrim(s []byte, cutset string) []byte { return s }

//verif:model github.com/unit-io/unitdb/hash.WithSalt only parse
func vcLevelHash(text []byte, salt uint32) uint32 {
	vcEnsures("a level is hashed with the contract", salt == vcGContract && len(text) == vcGSeen)
	h := vcNondetU32()
	vcGStart[vcGParts], vcGHash[vcGParts] = vcGSeen-1, h
	if vcGSeen == vcGL+1 {
		vcGLPart = vcGParts
	}
	vcGParts++
	return h
}

// vcGPlaces: part vcGQ stands for the level it was hashed from and for the
// wildcards up to the next part, and level vcGL is a part or a wildcard.
func vcGPlaces(parts []Part, wildchars uint8, n int) bool {
	if vcGSeen != n || len(parts) < vcGParts || vcGParts < 0 || vcGParts > n || int(wildchars) > n {
		return false
	}
	if vcGParts == 0 && int(wildchars) != n || vcGParts > 0 && vcGStart[0] != int(wildchars) {
		return false
	}
	if vcGL < n && !vcGLWild && (vcGLPart < 0 || vcGLPart >= vcGParts || vcGStart[vcGLPart] != vcGL) {
		return false
	}
	return vcGPart(parts, vcGQ, n) && (vcGParts == 0 || vcGPart(parts, vcGParts-1, n))
}

func vcGPart(parts []Part, q, n int) bool {
	if q >= vcGParts {
		return true
	}
	if parts[q].Hash != vcGHash[q] || vcGStart[q] < 0 || vcGStart[q] >= n {
		return false
	}
	end := vcGStart[q] + 1 + int(parts[q].Wildchars)
	if q == vcGParts-1 {
		return end == n
	}
	return end == vcGStart[q+1] && end < n
}

//verif:loop parseWildcardTopic 0
func vcParseInv(k int, depth uint8, part Part, topic *Topic) bool {
	d := 0
	if vcGMulti {
		d = 1
	}
	return k <= vcGN && int(depth) == k+d && len(topic.Parts) == vcGParts && part.Wildchars == 0 &&
		vcGPlaces(topic.Parts, topic.wildchars, k) && (!vcGMulti || topic.TopicType == TopicWildcard) &&
		(topic.Depth == TopicMaxDepth) == vcGMulti && (topic.TopicType == TopicWildcard || topic.TopicType == TopicStatic || topic.TopicType == 0) &&
		(topic.TopicType == TopicWildcard) == (vcGMulti || vcGParts < k)
}

// VC_C07_parse: the parts of a topic of up to 100 levels are the hashes of its
// levels that are no wildcards, in order, each with the number of wildcards that
// follow it, the wildcards it starts with counted apart, and for "..." a last
// part of its own; a topic without levels or with more is refused.
func VC_C07_parse() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	vcGN = vcRange("levels", 0, 101)
	vcGMulti, vcGContract = vcBool("multi"), vcU32("contract")
	vcGL, vcGQ = vcRange("level", 0, 99), vcRange("part", 0, 99)
	t := &Topic{Topic: []byte{0}}
	ok := parseWildcardTopic(vcGContract, t)
	refused := vcGN > 100 || vcGN == 0 && !vcGMulti
	vcAssert("refused only without levels or with more than 100", ok == !refused && (t.TopicType == TopicInvalid) == refused)
	if !ok {
		return
	}
	m := 0
	if vcGMulti {
		m = 1
	}
	vcAssert("depth", int(t.Depth) == vcGN+m && len(t.Parts) == vcGParts+m)
	vcAssert("parts", vcGPlaces(t.Parts, t.wildchars, vcGN))
	vcAssert("sub-topics", !vcGMulti || t.Parts[vcGParts].Hash == Wildcard && t.Parts[vcGParts].Wildchars == 0)
	vcAssert("wildcard topic", (t.TopicType == TopicWildcard) == (vcGMulti || vcGParts < vcGN) && (t.TopicType == TopicStatic) == (!vcGMulti && vcGParts == vcGN))
	n, first := len(t.Parts), t.Parts
	t.AddContract(vcGContract)
	vcAssert("the contract is the first part", len(t.Parts) == n+1 && t.Parts[0].Hash == vcGContract && t.Parts[0].Wildchars == t.wildchars)
	vcAssert("the parts follow it", vcGQ >= n || t.Parts[vcGQ+1] == first[vcGQ])
}

var _ = bytes.Equal
