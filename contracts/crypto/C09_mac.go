package crypto

import (
	"crypto/cipher"

	"golang.org/x/crypto/chacha20poly1305"
)

// vcAEAD is the contract of an authenticated cipher: Open returns what was
// sealed when nonce, additional data and sealed bytes are the ones of Seal, and
// an error otherwise. Seal appends len(plaintext)+16 bytes to dst.
type vcAEAD struct {
	key byte // which key

	nonce, ad, pt, ct []byte // the one message sealed
	done              bool
}

func (a *vcAEAD) NonceSize() int { return 12 }
func (a *vcAEAD) Overhead() int  { return 16 }
func (a *vcAEAD) Seal(dst, nonce, plaintext, additionalData []byte) []byte {
	vcEnsures("nonce size", len(nonce) == 12)
	a.nonce = vcCopyBytes(nonce)
	a.ad = vcCopyBytes(additionalData)
	a.pt = vcCopyBytes(plaintext)
	a.ct = vcNondetBytes(len(plaintext) + 16)
	a.done = true
	return append(dst, a.ct...)
}
func (a *vcAEAD) Open(dst, nonce, ciphertext, additionalData []byte) ([]byte, error) {
	vcEnsures("nonce size", len(nonce) == 12)
	if a.done && vcEqBytes(nonce, a.nonce) && vcEqBytes(ciphertext, a.ct) && vcEqBytes(additionalData, a.ad) {
		return append(dst, a.pt...), nil
	}
	return nil, vcErr()
}

func vcCipher(key []byte) cipher.AEAD {
	if vcSymbolic() {
		return &vcAEAD{}
	}
	c, err := chacha20poly1305.New(key)
	vcAssert("cipher", err == nil)
	return c
}

func vcMAC() *MAC {
	key := vcBytes("key", 32, 32)
	return &MAC{parent: vcCipher(key), salt: key[:4:4]}
}

// VC_C09_roundtrip: any payload comes back, in a slice of its own, and no input
// changes.
//verif:assumes the AEAD opens exactly what it sealed under the same key, nonce and additional data (cryptographic contract of chacha20poly1305, stated as type vcAEAD)
func VC_C09_roundtrip() {
	m := vcMAC()
	src := vcBytes("src", 0, 1<<24)
	dst := vcBytes("dst", 0, 1<<20)
	old, oldDst := vcCopyBytes(src), vcCopyBytes(dst)
	e := m.Encrypt(nil, src)
	vcAssert("source kept", vcEqBytes(src, old))
	sealed := vcCopyBytes(e)
	d, err := m.Decrypt(nil, e)
	vcAssert("accepted", err == nil)
	vcAssert("same length", len(d) == len(old))
	vcAssert("same bytes", vcEqBytes(d, old))
	vcAssert("sealed bytes kept", vcEqBytes(e, sealed))
	d, err = m.Decrypt(dst, e)
	vcAssert("accepted again", err == nil)
	vcAssert("appended", len(d) == len(oldDst)+len(old) && vcEqBytes(d[:len(oldDst)], oldDst) && vcEqBytes(d[len(oldDst):], old))
}

// VC_C09_append: encrypting appends the same message to a destination.
func VC_C09_append() {
	m := vcMAC()
	src := vcBytes("src", 0, 1<<24)
	dst := vcBytes("dst", 0, 1<<20)
	old, oldDst := vcCopyBytes(src), vcCopyBytes(dst)
	e := m.Encrypt(dst, src)
	vcAssert("destination kept", len(e) >= len(oldDst) && vcEqBytes(e[:len(oldDst)], oldDst))
	d, err := m.Decrypt(nil, e[len(oldDst):])
	vcAssert("accepted", err == nil)
	vcAssert("same bytes", len(d) == len(old) && vcEqBytes(d, old))
}

// VC_C09_tamper: bytes other than those sealed are refused.
func VC_C09_tamper() {
	m := vcMAC()
	src := vcBytes("src", 0, 1<<24)
	e := m.Encrypt(nil, src)
	t := vcBytes("tampered", 0, 1<<24)
	if !vcSymbolic() && vcBool("same length") {
		t = vcCopyBytes(e)
		t[vcRange("at", 0, len(t)-1)] ^= 1 << uint(vcRange("bit", 0, 7))
	}
	vcAssume(!vcEqBytes(t, e))
	old := vcCopyBytes(t)
	d, err := m.Decrypt(nil, t)
	vcAssert("refused", err != nil)
	vcAssert("no data", len(d) == 0)
	vcAssert("input kept", vcEqBytes(t, old))
}

// VC_C09_otherkey: a message sealed under another key is refused.
func VC_C09_otherkey() {
	m, o := vcMAC(), vcMAC()
	src := vcBytes("src", 0, 1<<24)
	if !vcSymbolic() {
		k := vcBytes("other", 32, 32)
		o = &MAC{parent: vcCipher(k), salt: k[:4:4]}
	}
	d, err := o.Decrypt(nil, m.Encrypt(nil, src))
	vcAssert("refused", err != nil && len(d) == 0)
}

// VC_C09_new: the salt is a function of the key, any 32 bytes are a key.
//verif:model golang.org/x/crypto/chacha20poly1305.New
func vcNewCipher(key []byte) (cipher.AEAD, error) {
	if len(key) != 32 {
		return nil, vcErr()
	}
	return &vcAEAD{}, nil
}

func VC_C09_new() {
	key := vcBytes("key", 0, 64)
	old := vcCopyBytes(key)
	m, err := New(key)
	vcAssert("32 byte keys only", (err == nil) == (len(key) == 32))
	vcAssert("key kept", vcEqBytes(key, old))
	if err == nil {
		vcAssert("salt", len(m.salt) == 4 && m.parent != nil)
		n, err := New(old)
		vcAssert("function of the key", err == nil && vcEqBytes(n.salt, m.salt))
		src := vcBytes("src", 0, 1<<24)
		e := m.Encrypt(nil, src)
		if vcSymbolic() {
			n.parent = m.parent
		}
		d, err := n.Decrypt(nil, e)
		vcAssert("decrypts after reopening with the key", err == nil && len(d) == len(src) && vcEqBytes(d, src))
	}
}

// VC_C09_signature: the signature bytes are read back as the value.
func VC_C09_signature() {
	v := vcU32("v")
	vcAssert("signature", SignatureToUint32(Signature(v)) == v)
}

// hash.New reads each byte once and nothing else.
//verif:loop github.com/unit-io/unitdb/hash.New 0
func vcHash0(i, n int) bool { return i >= 0 && i <= n && i%8 == 0 }

//verif:loop github.com/unit-io/unitdb/hash.New 1
func vcHash1() bool { return true }
