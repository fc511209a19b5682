package encoding

func vcAlphabet(c byte) bool {
	return c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '-' || c == '_'
}

// VC_C24_key: the 13 characters of an 8-byte key decode to it.
//verif:init
func VC_C24_key() {
	id := vcBytes("id", 8, 8)
	old := vcCopyBytes(id)
	text := make([]byte, 13)
	Encode8(text, id)
	vcAssert("key kept", vcEqBytes(id, old))
	i := vcRange("i", 0, 12)
	vcAssert("alphabet", vcAlphabet(text[i]))
	keep := vcCopyBytes(text)
	out := make([]byte, 8)
	Decode8(out, text)
	vcAssert("decodes to the key", vcEqBytes(out, old))
	vcAssert("text kept", vcEqBytes(text, keep))
	Decode8(text, text)
	vcAssert("decodes in place", vcEqBytes(text[:8], old))
}

// VC_C24_client: the 52 characters of a 32-byte client identifier decode to it.
//verif:init
func VC_C24_client() {
	id := vcBytes("id", 32, 32)
	old := vcCopyBytes(id)
	text := make([]byte, 52)
	Encode32(text, id)
	vcAssert("identifier kept", vcEqBytes(id, old))
	i := vcRange("i", 0, 51)
	vcAssert("alphabet", vcAlphabet(text[i]))
	keep := vcCopyBytes(text)
	out := make([]byte, 32)
	Decode32(out, text)
	j := vcRange("j", 0, 31)
	vcAssert("decodes to the identifier", out[j] == old[j])
	vcAssert("text kept", vcEqBytes(text, keep))
	Decode32(text, text)
	vcAssert("decodes in place", text[j] == old[j])
}

// VC_C24_arbitrary: any text of the length decodes without a crash.
//verif:init
func VC_C24_arbitrary() {
	t8, t32 := vcBytes("t8", 13, 13), vcBytes("t32", 52, 52)
	Decode8(make([]byte, 8), t8)
	Decode32(make([]byte, 32), t32)
	vcAssert("done", true)
}
