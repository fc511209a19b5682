package message

// vcF is the hash of the first k parts of the topic, for every k.
var vcF [300]uint64
var vcFN int

func vcHashStep(h uint64, p Part) uint64 {
	h = (h ^ uint64(p.Hash)) * prime64
	return (h ^ uint64(p.Wildchars)) * prime64
}

//verif:loop (*Topic).GetHash 0
func vcGetHashInv(k int, t *Topic, h uint64) bool { return k <= len(t.Parts) && h == vcF[k] }

// vcFold: vcF is filled with the hashes of the prefixes of the parts.
func vcFold(parts []Part, contract uint32) {
	vcScramble(&vcF)
	vcAssume(vcF[0] == (offset64^uint64(contract))*prime64)
	vcAssume(vcForall(0, len(parts), func(i int) bool { return vcF[i+1] == vcHashStep(vcF[i], parts[i]) }))
}

// VC_C07_hash: the hash of a topic is taken of all its parts, in order, and of
// the contract.
func VC_C07_hash() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	n := vcRange("parts", 0, 256)
	t := &Topic{Parts: make([]Part, n)}
	vcScramble(t.Parts)
	contract := vcU32("contract")
	vcFold(t.Parts, contract)
	vcAssert("the hash of all parts", t.GetHash(contract) == vcF[n])
}

// VC_C07_distinct: topics of one contract that differ in a single part, or in
// the number of wildcards that follow it, have different hashes, wherever that
// part is; so have the same topic under two contracts.
func VC_C07_distinct() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	n := vcRange("parts", 0, 256)
	a, b := make([]Part, n), make([]Part, n)
	vcScramble(a)
	vcScramble(b)
	ca, cb := vcU32("contract"), vcU32("other")
	at := vcRange("differ at", -1, 255) // -1 is the contract
	vcAssume(vcForall(0, n, func(i int) bool { return i == at || a[i] == b[i] }))
	if at >= 0 {
		vcAssume(ca == cb && at < n && a[at] != b[at])
		// not both in a way that cancels out
		vcAssume(a[at].Hash == b[at].Hash || a[at].Wildchars == b[at].Wildchars)
	} else {
		vcAssume(ca != cb)
	}
	ha, hb := (offset64^uint64(ca))*prime64, (offset64^uint64(cb))*prime64
	vcDistinct(n, at, a, b, ha, hb)
}

func vcDistinct(n, at int, a, b []Part, ha, hb uint64) {
	for i := 0; i < n; i++ {
		p, q := a[i], b[i]
		ha, hb = specStep2(ha, hb, uint64(p.Hash), uint64(q.Hash))
		ha, hb = specStep2(ha, hb, uint64(p.Wildchars), uint64(q.Wildchars))
	}
	vcAssert("different hashes", ha != hb)
}

// specStep2 takes one more value into each of two hashes.
func specStep2(ha, hb, wa, wb uint64) (uint64, uint64) {
	return (ha ^ wa) * prime64, (hb ^ wb) * prime64
}

// The contract of specStep2, proved by VC_C07_step.
//
//verif:model github.com/unit-io/unitdb/message.specStep2 only distinct
func vcStep2Contract(ha, hb, wa, wb uint64) (uint64, uint64) {
	vcEnsures("one difference at a time", ha == hb || wa == wb)
	ya, yb := vcNondetU64(), vcNondetU64()
	vcAssume((ya != yb) == (ha != hb || wa != wb))
	return ya, yb
}

// VC_C07_step: taking one more value into a hash never hides a difference.
func VC_C07_step() {
	ha, hb, wa, wb := vcU64("hash"), vcU64("other hash"), vcU64("value"), vcU64("other value")
	vcAssume(ha == hb || wa == wb)
	ya, yb := specStep2(ha, hb, wa, wb)
	vcAssert("a difference stays, and none appears", (ya != yb) == (ha != hb || wa != wb))
}

//verif:loop vcDistinct 0
func vcDistinctInv(i, n, at int, ha, hb uint64) bool { return i >= 0 && i <= n && (ha != hb) == (i > at) }
