package crypto

import (
	"bytes"
	"fmt"
)

// BT_C09_real: the real cipher on every length up to 300 and some longer ones.
func BT_C09_real(v *vcT) {
	for round := 0; round < 3 && !v.over(); round++ {
		key := make([]byte, 32)
		v.rnd.Read(key)
		m, err := New(append([]byte{}, key...))
		v.check(err == nil, "New: %v", err)
		for n := 0; n < 310; n++ {
			l := n
			if n >= 300 {
				l = v.rnd.Intn(1 << 17)
			}
			src := make([]byte, l)
			v.rnd.Read(src)
			keep := append([]byte{}, src...)
			e := m.Encrypt(nil, src)
			v.check(bytes.Equal(src, keep), "Encrypt changed its source of length %d", l)
			ke := append([]byte{}, e...)
			o, _ := New(key)
			for i := 0; i < 2; i++ {
				d, err := o.Decrypt(nil, e)
				v.check(err == nil && bytes.Equal(d, keep), "length %d: Decrypt = %x, %v; want %x", l, vcHead(d), err, vcHead(keep))
			}
			v.check(bytes.Equal(e, ke), "Decrypt changed its source, payload length %d", l)
			pre := []byte("prefix that has spare capacity")[:6]
			d, err := o.Decrypt(pre, e)
			v.check(err == nil && bytes.Equal(d, append([]byte("prefix"), keep...)), "length %d: Decrypt does not append to dst", l)
			d, err = o.Decrypt(nil, m.Encrypt([]byte("prefix8b"), src)[8:])
			v.check(err == nil && bytes.Equal(d, keep), "length %d: Encrypt does not append to dst", l)
			for i := 0; i < 8 && l < 400; i++ {
				t := append([]byte{}, ke...)
				at := v.rnd.Intn(len(t))
				t[at] ^= 1 << uint(v.rnd.Intn(8))
				d, err := m.Decrypt(nil, t)
				v.check(err != nil && len(d) == 0, "length %d: byte %d changed, still accepted", l, at)
				cut := v.rnd.Intn(len(ke))
				d, err = m.Decrypt(nil, ke[:cut])
				v.check(err != nil && len(d) == 0, "length %d: cut to %d bytes, still accepted", l, cut)
			}
			k2 := append([]byte{}, key...)
			k2[v.rnd.Intn(32)] ^= 1 << uint(v.rnd.Intn(8))
			w, _ := New(k2)
			d, err = w.Decrypt(nil, e)
			v.check(err != nil && len(d) == 0, "length %d: accepted under another key", l)
			v.eval(fmt.Sprintf("length %d", l))
		}
	}
	for n := 0; n < 64; n++ {
		if n != 32 {
			_, err := New(make([]byte, n))
			v.check(err != nil, "New accepts a key of %d bytes", n)
		}
	}
}

func vcHead(b []byte) []byte {
	if len(b) > 16 {
		return b[:16]
	}
	return b
}
