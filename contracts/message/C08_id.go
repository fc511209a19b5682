package message

import "github.com/unit-io/unitdb/uid"

// VC_C08_layout: an ID is 16 bytes, carries the given sequence and, after
// SetContract(c), matches exactly contract c, keeping sequence and time.
func VC_C08_layout() {
	seq := vcU64("seq")
	c := vcU32("contract")
	d := vcU32("other")
	id := NewID(seq)
	vcAssert("size", len(id) == 16 && id.Size() == 16)
	vcAssert("sequence", id.Sequence() == seq)
	old := vcCopyBytes(id)
	orig := id
	id.SetContract(c)
	vcAssert("sequence-kept", id.Sequence() == seq)
	vcAssert("contract-match", id.EvalPrefix(c, 0))
	vcAssert("contract-isolated", vcImplies(c != d, !id.EvalPrefix(d, 0)))
	vcAssert("apoch-kept", id[0] == old[0] && id[1] == old[1] && id[2] == old[2] && id[3] == old[3])
	vcAssert("original-untouched", vcEqBytes(orig, old))
	p := id.Prefix()
	vcAssert("prefix-size", len(p) == 8)
	vcAssert("prefix-eval", p.EvalPrefix(c, 0) && vcImplies(c != d, !p.EvalPrefix(d, 0)))
}

// VC_C08_arbitrary: the same accessors on an arbitrary 16-byte identifier
// (the form in which IDs come back from disk).
func VC_C08_arbitrary() {
	var raw [16]byte
	vcHavoc(&raw)
	id := ID(raw[:])
	c := vcU32("contract")
	cut := vcI64("cutoff")
	seq := id.Sequence()
	t := uid.Time(id[0:4])
	id.SetContract(c)
	vcAssert("sequence", id.Sequence() == seq)
	vcAssert("contract", id.EvalPrefix(c, 0))
	vcAssert("cutoff", vcImplies(cut > 0, id.EvalPrefix(c, cut) == (t >= cut)))
	vcAssert("time-kept", uid.Time(id[0:4]) == t && uid.Time(id.Prefix()) == t)
	d := vcU32("other")
	vcAssert("isolation", vcImplies(d != c, !id.EvalPrefix(d, cut)))
}
