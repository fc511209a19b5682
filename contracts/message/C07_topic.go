package message

import (
	"bytes"
	"encoding/binary"
)

// Ghosts: an arbitrary part.
var vcPJ int

//verif:loop (*Topic).Marshal 0
func vcMarshalSize(k int, size int, t *Topic) bool { return k <= len(t.Parts) && size == 1+5*k }

func vcPartAt(b []byte, j int, p Part) bool {
	return b[1+5*j] == p.Wildchars && binary.LittleEndian.Uint32(b[2+5*j:6+5*j]) == p.Hash
}

//verif:loop (*Topic).Marshal 1
func vcMarshalInv(k int, n int, t *Topic, buf []byte) bool {
	return k <= len(t.Parts) && n == 1+5*k && len(buf) == 1+5*len(t.Parts) && buf[0] == t.Depth &&
		(vcPJ >= k || vcPartAt(buf, vcPJ, t.Parts[vcPJ]))
}

//verif:loop (*Topic).Unmarshal 0
func vcUnmarshalInv(i int, depth uint8, parts []Part, buf *bytes.Buffer, data []byte) bool {
	return i >= 0 && i <= int(depth)+1 && 1+5*i <= len(data) && buf.Len() == len(data)-1-5*i && len(parts) == i && depth == data[0] &&
		(vcPJ >= i || vcPartAt(data, vcPJ, parts[vcPJ]))
}

// VC_C07_marshal: the topic read back from its binary form has the same depth
// and parts, of any number up to one for each level and one for the contract.
func VC_C07_marshal() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	n := vcRange("parts", 0, 256)
	t := &Topic{Parts: make([]Part, n), Depth: vcU8("depth")}
	vcAssume(n <= int(t.Depth)+1)
	vcScramble(t.Parts)
	vcPJ = vcRange("part", 0, 255)
	vcAssume(vcPJ < n || n == 0)
	data := t.Marshal()
	vcAssert("size", len(data) == 1+5*n && data[0] == t.Depth)
	u := new(Topic)
	err := u.Unmarshal(data)
	vcAssert("read back", err == nil && u.Depth == t.Depth && len(u.Parts) == n)
	vcAssert("every part", n == 0 || u.Parts[vcPJ].Hash == t.Parts[vcPJ].Hash && u.Parts[vcPJ].Wildchars == t.Parts[vcPJ].Wildchars)
}
