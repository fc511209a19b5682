package uid

import (
	"crypto/cipher"

	"github.com/unit-io/unitdb/server/internal/pkg/crypto"
)

// vcAEAD is the contract of an authenticated cipher, see C09.
type vcAEAD struct {
	nonce, ad, pt, ct []byte
	done              bool
}

func (a *vcAEAD) NonceSize() int { return 12 }
func (a *vcAEAD) Overhead() int  { return 16 }
func (a *vcAEAD) Seal(dst, nonce, plaintext, additionalData []byte) []byte {
	a.nonce = vcCopyBytes(nonce)
	a.ad = vcCopyBytes(additionalData)
	a.pt = vcCopyBytes(plaintext)
	a.ct = vcNondetBytes(len(plaintext) + 16)
	a.done = true
	return append(dst, a.ct...)
}
func (a *vcAEAD) Open(dst, nonce, ciphertext, additionalData []byte) ([]byte, error) {
	if a.done && vcEqBytes(nonce, a.nonce) && vcEqBytes(ciphertext, a.ct) && vcEqBytes(additionalData, a.ad) {
		return append(dst, a.pt...), nil
	}
	return nil, vcErr()
}

//verif:model golang.org/x/crypto/chacha20poly1305.New
func vcNewCipher(key []byte) (cipher.AEAD, error) { return &vcAEAD{}, nil }

//verif:loop github.com/unit-io/unitdb/server/internal/pkg/hash.New 0
func vcHash0(i, n int) bool { return i >= 0 && i <= n && i%8 == 0 }

//verif:loop github.com/unit-io/unitdb/server/internal/pkg/hash.New 1
func vcHash1() bool { return true }

// VC_C24_clientid: a client identifier's text decodes to it.
//verif:init github.com/unit-io/unitdb/server/internal/pkg/encoding
//verif:assumes the AEAD opens exactly what it sealed (type vcAEAD)
func VC_C24_clientid() {
	m, err := crypto.New(vcBytes("key", 32, 32))
	vcAssert("cipher", err == nil)
	id := ID(vcBytes("id", 12, 12))
	old := vcCopyBytes(id)
	text := id.Encode(m)
	vcAssert("52 characters", len(text) == 52)
	vcAssert("identifier kept", vcEqBytes(id, old))
	d, err := Decode([]byte(text), m)
	vcAssert("accepted", err == nil)
	vcAssert("same identifier", len(d) == 12 && vcEqBytes(d, old))
}

// VC_C24_foreign: a text no identifier was sealed as is refused.
//verif:init github.com/unit-io/unitdb/server/internal/pkg/encoding
func VC_C24_foreign() {
	m, err := crypto.New(vcBytes("key", 32, 32))
	vcAssert("cipher", err == nil)
	text := vcBytes("text", 0, 1<<16)
	d, err := Decode(text, m)
	vcAssert("refused", err != nil && len(d) == 0)
}

// VC_C24_fields: the fields of an identifier do not overlap.
func VC_C24_fields() {
	id := ID(vcBytes("id", 12, 12))
	e, c, p, q := vcU32("epoch"), vcU32("contract"), vcU16("primary"), vcU8("permissions")
	id.SetEpoch(e)
	id.SetContract(c)
	id.SetPrimary(p)
	id.SetPermissions(uint32(q))
	vcAssert("epoch", id.Epoch() == e)
	vcAssert("contract", id.Contract() == c)
	vcAssert("primary", id.Primary() == p)
	vcAssert("permissions", id.Permissions() == uint32(q))
	vcAssert("is primary", id.IsPrimary() == (q == 1))
	id.SetPermissions(uint32(q))
	id.SetPrimary(p)
	id.SetContract(c)
	id.SetEpoch(e)
	vcAssert("in any order", id.Epoch() == e && id.Contract() == c && id.Primary() == p && id.Permissions() == uint32(q))
}
