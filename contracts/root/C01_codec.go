package unitdb

import "encoding/binary"

// VC_C01_entry: the entry header codec.
func VC_C01_entry() {
	var e, g _Entry
	e.seq, e.topicSize, e.valueSize = vcU64("seq"), vcU16("tsize"), vcU32("vsize")
	e.expiresAt, e.topicHash = vcU32("exp"), vcU64("hash")
	b, err := e.MarshalBinary()
	vcAssert("no-error", err == nil)
	vcAssert("size", len(b) == entrySize)
	err = g.UnmarshalBinary(b)
	vcAssert("decode-ok", err == nil)
	vcAssert("fields", g.seq == e.seq && g.topicSize == e.topicSize && g.valueSize == e.valueSize &&
		g.expiresAt == e.expiresAt && g.topicHash == e.topicHash)
}

// VC_C01_info: the database info header codec.
func VC_C01_info() {
	var e, g _DBInfo
	vcHavoc(&e.header.signature)
	e.header.version = vcU32("version")
	e.encryption = vcI8("enc")
	e.sequence, e.count = vcU64("seq"), vcU64("count")
	b, err := e.MarshalBinary()
	vcAssert("no-error", err == nil)
	vcAssert("size", uint32(len(b)) == fixed)
	err = g.UnmarshalBinary(b)
	vcAssert("decode-ok", err == nil)
	vcAssert("fields", g.header.signature == e.header.signature && g.header.version == e.header.version &&
		g.encryption == e.encryption && g.sequence == e.sequence && g.count == e.count)
}

// VC_C01_window: the window block codec, for every content.
func VC_C01_window() {
	var e, g _WinBlock
	vcHavoc(&e)
	vcHavoc(&g)
	b := e.marshalBinary()
	vcAssert("size", len(b) == int(blockSize))
	err := g.unmarshalBinary(b)
	vcAssert("decode-ok", err == nil)
	vcAssert("header", g.topicHash == e.topicHash && g.next == e.next && g.cutoffTime == e.cutoffTime && g.entryIdx == e.entryIdx)
	for i := 0; i < entriesPerWindowBlock; i++ {
		vcEnsures("entry", g.entries[i].sequence == e.entries[i].sequence && g.entries[i].expiresAt == e.entries[i].expiresAt)
	}
}

// VC_C01_index: the index block codec, for every block whose used entries
// belong to one block (validated before each write).
func VC_C01_index() {
	var e, g _IndexBlock
	vcHavoc(&g)
	first := vcU64("first") // of the block; blockIndex is C02's
	vcAssume(first >= 1 && first <= uint64(entriesPerIndexBlock)<<31)
	for i := 0; i < entriesPerIndexBlock; i++ {
		s := &e.entries[i]
		s.seq = vcU64("seq")
		vcAssume(s.seq == 0 || s.seq >= first && s.seq-first < entriesPerIndexBlock)
		s.topicSize, s.valueSize, s.msgOffset = vcU16("ts"), vcU32("vs"), vcI64("off")
	}
	vcAssume(e.entries[0].seq != 0)
	e.entryIdx = vcU16("n")
	b := e.marshalBinary()
	vcAssert("size", len(b) == int(blockSize))
	err := g.unmarshalBinary(b)
	vcAssert("decode-ok", err == nil)
	vcAssert("header", g.baseSeq == e.entries[0].seq && g.entryIdx == e.entryIdx)
	for i := 0; i < entriesPerIndexBlock; i++ {
		x, y := g.entries[i], e.entries[i]
		vcEnsures("entry", x.seq == y.seq && x.topicSize == y.topicSize && x.valueSize == y.valueSize && x.msgOffset == y.msgOffset)
	}
}

// vcJ is an arbitrary entry of the free list under test.
var vcJ int

func vcEnc(b []byte, j int, f _FreeBlock) bool {
	return binary.LittleEndian.Uint64(b[12*j:12*j+8]) == uint64(f.offset) && binary.LittleEndian.Uint32(b[12*j+8:12*j+12]) == f.size
}

//verif:loop (*_FreeBlocks).MarshalBinary 0
func vcMarshalInv(k int, b *_FreeBlocks, buf, entry_buf, data []byte) bool {
	return binary.LittleEndian.Uint32(data[:4]) == uint32(len(b.fb)) && k <= len(b.fb) && len(buf) == 12*(len(b.fb)-k) && len(entry_buf) == 12*len(b.fb) &&
		(vcJ >= k || vcEnc(entry_buf, vcJ, b.fb[vcJ]))
}

//verif:loop (*_FreeBlocks).UnmarshalBinary 0
func vcUnmarshalInv(k int, b *_FreeBlocks, data, entry_data []byte, size uint32) bool {
	return k <= int(size) && len(data) == len(entry_data)-12*k && len(b.fb) == k &&
		(vcJ >= k || vcEnc(entry_data, vcJ, b.fb[vcJ]))
}

// VC_C01_freelist: the free-space list codec, for lists of every length: the
// decoded list has the encoded one's length, and its entry j equals entry j for
// an arbitrary j.
func VC_C01_freelist() {
	var e, g _FreeBlocks
	n := vcRange("n", 1, 1<<20)
	vcJ = vcRange("j", 0, 1<<20)
	vcAssume(vcJ < n)
	e.fb = make([]_FreeBlock, n)
	vcHavoc(e.fb)
	data := e.MarshalBinary()
	vcAssert("size", len(data) == 4+12*n)
	k := binary.LittleEndian.Uint32(data[:4])
	vcAssert("count", int(k) == n)
	err := g.UnmarshalBinary(data[4:], k)
	vcAssert("decode-ok", err == nil)
	vcAssert("length", len(g.fb) == n)
	vcAssert("entry", g.fb[vcJ] == e.fb[vcJ])
}
