package message

// VC_C12_ttl: the 'ttl' option of any options is a number of seconds or a
// duration from now.
//
//verif:seqs
func VC_C12_ttl() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	t, at := vcOptions("ttl")
	expires, ok := t.TTL()
	vcAssert("given", ok == (at < len(t.Options)))
	if ok && vcOIs && vcOVal > 0 {
		vcAssert("seconds", expires == uint32(vcOClock+vcOVal))
	}
	if ok && !vcOIs && vcODurOK && vcODur >= 0 {
		vcAssert("a duration", expires == uint32(vcFloor(int64(vcODur))))
	}
}
