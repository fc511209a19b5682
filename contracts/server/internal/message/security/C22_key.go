package security

// The hash is a function of text and contract; nothing else is known about it.
var vcHashText [4][]byte
var vcHashSalt [4]uint32
var vcHashVal [4]uint32
var vcHashN int

//verif:model github.com/unit-io/unitdb/server/internal/pkg/hash.WithSalt
func vcHash(text []byte, salt uint32) uint32 {
	for i := 0; i < vcHashN; i++ {
		if vcHashSalt[i] == salt && vcEqBytes(vcHashText[i], text) {
			return vcHashVal[i]
		}
	}
	v := vcNondetU32()
	if vcHashN < 4 {
		vcHashText[vcHashN], vcHashSalt[vcHashN], vcHashVal[vcHashN] = vcCopyBytes(text), salt, v
		vcHashN++
	}
	return v
}

// strings.FieldsFunc's contract: some parts (24 stand for any larger number,
// which SetTarget only compares with 23).
//verif:model =strings.FieldsFunc
func vcFields(s string, f func(rune) bool) []string {
	n := vcNondetInt()
	vcAssume(n >= 0 && n <= 24)
	return make([]string, 24)[:n]
}

//verif:model =strings.HasSuffix
func vcHasSuffix(s, suffix string) bool { return vcNondetBool() }

//verif:loop (Key).SetTarget 0
func vcTarget0() bool { return true }

//verif:loop (Key).SetTarget 1
func vcTarget1(bitPath uint32, parts []string) bool { return bitPath < 1<<24 && len(parts) <= 23 }

// VC_C22_target: a key made for a topic keeps its permissions and validates
// that topic, and any topic of another hash only if it was made for all topics.
func VC_C22_target() {
	k := Key(vcBytes("key", 8, 8))
	old := vcCopyBytes(k)
	contract := vcU32("contract")
	topic := vcStr("topic", 1, 1<<16)
	err := k.SetTarget(contract, topic)
	vcAssert("permissions kept", k[0] == old[0] && k.Permissions() == uint32(old[0]))
	if err != nil {
		vcAssert("refusal changes nothing", vcEqBytes(k, old))
		return
	}
	ok, _ := k.ValidateTopic(contract, topic)
	vcAssert("validates its topic", ok)
	other := vcStr("other", 1, 1<<16)
	ok, wild := k.ValidateTopic(contract, other)
	if ok && vcHash([]byte(other), contract) != vcHash([]byte(topic), contract) {
		vcAssert("only a key for all topics validates another hash", wild && k[1] == 0 && k[2] == 0 && k[3] == 0 &&
			vcHash([]byte("..."), contract) == vcHash([]byte(topic), contract))
	}
	vcAssert("validation changes nothing", k[0] == old[0])
}

// VC_C22_validate: validation compares the 32-bit hash of the topic with the
// key's, and a strict key is never a wildcard.
func VC_C22_validate() {
	k := Key(vcBytes("key", 8, 8))
	contract := vcU32("contract")
	topic := vcStr("topic", 0, 1<<16)
	ok, wild := k.ValidateTopic(contract, topic)
	h := vcHash([]byte(topic), contract)
	if !vcSymbolic() {
		k2 := Key(make([]byte, 8))
		vcAssume(k2.SetTarget(contract, topic) == nil)
		h = uint32(k2[4])<<24 | uint32(k2[5])<<16 | uint32(k2[6])<<8 | uint32(k2[7])
	}
	same := k[4] == byte(h>>24) && k[5] == byte(h>>16) && k[6] == byte(h>>8) && k[7] == byte(h)
	path := k[1] != 0 || k[2] != 0 || k[3] != 0
	if path {
		vcAssert("hash decides", ok == same)
		vcAssert("first path bit is strict", wild == (k[1]&0x80 == 0))
	} else {
		vcAssert("matching hash is enough", !same || ok)
		vcAssert("wildcard", wild)
	}
}

// VC_C22_permissions: the eight permission bits, and nothing else, are set and
// asked for.
func VC_C22_permissions() {
	k := Key(vcBytes("key", 8, 8))
	old := vcCopyBytes(k)
	p, ask := vcU32("p"), vcU32("ask")
	k.SetPermissions(p)
	vcAssert("reported", k.Permissions() == p&0xff)
	vcAssert("target kept", vcEqBytes(k[1:], old[1:]))
	if p < 256 {
		vcAssert("granted exactly", k.HasPermission(ask) == (p&ask == ask))
	}
	vcAssert("asking changes nothing", vcEqBytes(k[1:], old[1:]) && k[0] == byte(p))
	vcAssert("not empty", !k.IsEmpty())
}

// VC_C22_text: a key's text decodes to the key.
//verif:init github.com/unit-io/unitdb/server/internal/pkg/encoding
func VC_C22_text() {
	k := Key(vcBytes("key", 8, 8))
	old := vcCopyBytes(k)
	text := k.Encode()
	vcAssert("13 characters", len(text) == 13)
	vcAssert("key kept", vcEqBytes(k, old))
	d, err := DecodeKey(text)
	vcAssert("accepted", err == nil)
	vcAssert("same key", len(d) == 8 && vcEqBytes(d, old))
}

// VC_C22_anytext: a text of another length is refused, one of 13 characters
// never crashes.
//verif:init github.com/unit-io/unitdb/server/internal/pkg/encoding
func VC_C22_anytext() {
	text := vcStr("text", 0, 1<<16)
	d, err := DecodeKey(text)
	vcAssert("length", (err == nil) == (len(text) == 13))
	if err == nil {
		vcAssert("a key", len(d) == 8)
	} else {
		vcAssert("no key", d.IsEmpty())
	}
}
