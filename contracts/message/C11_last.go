package message

// VC_C11_last: the 'last' option of any options is a number of messages, or a
// duration back from now.
//
//verif:seqs
func VC_C11_last() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	t, at := vcOptions("last")
	from, n, ok := t.Last()
	vcAssert("given", ok == (at < len(t.Options)))
	if ok && vcOIs && vcOVal > 0 {
		vcAssert("a number of messages", int64(n) == vcOVal && from.Unix() == 0)
	}
	vcAssert("nothing", ok || n == 0 && from.Unix() == 0)
}

// VC_C11_lastTime: a 'last' option that is a duration.
//
//verif:seqs
func VC_C11_lastTime() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	t, at := vcOptions("last")
	vcOIs, vcODurOK = false, true
	vcAssume(at < len(t.Options) && vcODur >= 0)
	from, n, ok := t.Last()
	vcAssert("given", ok && n == 0)
	vcAssert("the time so long ago", from.Unix() == vcFloor(-int64(vcODur)))
}
