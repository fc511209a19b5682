package unitdb

import "github.com/unit-io/bpool"

// The index file's block under test: block vcN, holding vcStored.
var vcN int32
var vcStored _IndexBlock

// vcMarshalled is the block marshalled last.
var vcMarshalled _IndexBlock

// The codec's contract, proved for C01: the bytes read at a block's offset
// decode to the block written there last.
//
//verif:model (*github.com/unit-io/unitdb._IndexBlock).unmarshalBinary
func vcUnmarshalBlock(b *_IndexBlock, data []byte) error {
	vcEnsures("a whole block is decoded", len(data) == int(blockSize))
	vcEnsures("the block of the sequence number is read", vcReadOff == int64(vcN)*4096)
	b.entries = vcStored.entries
	b.baseSeq = vcStored.entries[0].seq
	b.entryIdx = vcStored.entryIdx
	return nil
}

//verif:model (github.com/unit-io/unitdb._IndexBlock).marshalBinary
func vcMarshalBlock(b _IndexBlock) []byte {
	vcMarshalled = b
	return make([]byte, blockSize)
}

// vcBlock is any index block: its used entries, the first m, belong to block n.
func vcBlock(b *_IndexBlock, n int32, m int) {
	first := uint64(n)*entriesPerIndexBlock + 1
	vcHavoc(&b.entries)
	b.entryIdx = uint16(m)
	if !vcSymbolic() {
		for i := range b.entries {
			b.entries[i].seq = 0
			if i < m {
				b.entries[i].seq = first + uint64(vcRange("seq", 0, entriesPerIndexBlock-1))
			}
		}
	}
	vcAssume(vcForall(0, m, func(i int) bool {
		return b.entries[i].seq >= first && b.entries[i].seq-first < entriesPerIndexBlock
	}))
	vcAssume(vcForall(m, entriesPerIndexBlock, func(i int) bool { return b.entries[i].seq == 0 }))
}

//verif:loop (*_BlockReader).readEntry 0
func vcReadEntryInv(i int, b _IndexBlock, seq uint64) bool {
	return i >= 0 && i <= entriesPerIndexBlock && vcForall(0, i, func(k int) bool { return b.entries[k].seq != seq })
}

// vcOnly: entry j is the only one with the sequence number.
func vcOnly(b *_IndexBlock, j int, seq uint64) bool {
	return vcForall(0, entriesPerIndexBlock, func(i int) bool { return i == j || b.entries[i].seq != seq })
}

// vcIndexFile is an index file holding any block vcN with m used entries.
func vcIndexFile(m int) *_File {
	vcN = vcI32("block")
	vcAssume(vcN >= 0 && vcN < 1<<20)
	vcBlock(&vcStored, vcN, m)
	size := vcI64("size")
	vcAssume(size >= int64(vcN+1)*4096 && size < 1<<40)
	f := vcNewFile(&vcFileA, size)
	if !vcSymbolic() {
		f.WriteAt(vcStored.marshalBinary(), int64(vcN)*4096)
	}
	return f
}

func vcSameEntry(x, y _IndexEntry) bool {
	return x.seq == y.seq && x.topicSize == y.topicSize && x.valueSize == y.valueSize && x.msgOffset == y.msgOffset
}

// VC_C03_readEntry: an entry is read from the block of its sequence number, with
// the fields stored, if it is stored and not deleted.
//
//verif:drop _IndexEntry.cache
func VC_C03_readEntry() {
	m := vcRange("used", 1, entriesPerIndexBlock)
	f := vcIndexFile(m)
	seq := vcU64("want")
	vcAssume(seq >= 1 && blockIndex(seq) == vcN)
	r := &_BlockReader{indexFile: f}
	e, err := r.readEntry(seq)
	j := vcRange("j", 0, entriesPerIndexBlock-1)
	s := vcStored.entries[j]
	if s.seq == seq && vcOnly(&vcStored, j, seq) {
		if s.msgOffset >= 0 {
			vcEnsures("stored entry found", err == nil)
			vcEnsures("as stored", vcSameEntry(e, s))
		} else {
			vcEnsures("deleted entry refused", err == errMsgIDDeleted)
		}
	}
	if err == nil {
		vcEnsures("only the one asked for", e.seq == seq && e.msgOffset >= 0)
	}
}

//verif:loop (*_BlockWriter).del 0
func vcDelInv(i int, b _IndexBlock, seq uint64) bool {
	return i >= 0 && i <= int(b.entryIdx) && vcForall(0, i, func(k int) bool { return b.entries[k].seq != seq })
}

// vcSameOthers: all entries but the j-th are the same.
func vcSameOthers(x, y *_IndexBlock, j int) bool {
	return vcForall(0, entriesPerIndexBlock, func(i int) bool {
		return i == j || vcSameEntry(x.entries[i], y.entries[i])
	})
}

// VC_C03_del: a stored entry is returned and marked deleted in its block, a topic's
// offset staying recoverable, and no other entry changes; an entry that is not
// stored, or is deleted already, changes nothing.
//
//verif:drop _IndexEntry.cache
func VC_C03_del() {
	m := vcRange("used", 1, entriesPerIndexBlock)
	f := vcIndexFile(m)
	size := f.size
	vcAssume(size >= int64(vcN+1)*4096)
	seq := vcU64("want")
	vcAssume(seq >= 1 && blockIndex(seq) == vcN)
	w := &_BlockWriter{indexFile: f, indexBlocks: map[int32]_IndexBlock{}}
	j := vcRange("j", 0, entriesPerIndexBlock-1)
	s := vcStored.entries[j]
	vcAssume(s.msgOffset < 1<<62)
	unique := s.seq == seq && vcOnly(&vcStored, j, seq)
	vcWrites = 0
	e, err := w.del(seq)
	vcEnsures("no error", err == nil)
	b, cached := w.indexBlocks[vcN]
	if unique && s.msgOffset >= 0 {
		vcEnsures("entry returned as stored", vcSameEntry(e, s))
		vcEnsures("block cached", cached)
		d := b.entries[j]
		vcEnsures("marked deleted", d.msgOffset < 0)
		vcEnsures("identity kept", d.seq == s.seq && d.topicSize == s.topicSize && d.valueSize == s.valueSize)
		if s.topicSize != 0 {
			vcEnsures("topic offset recoverable", -2-d.msgOffset == s.msgOffset && d.msgOffset <= -2)
		}
		vcEnsures("other entries unchanged", vcSameOthers(&b, &vcStored, j) && b.entryIdx == vcStored.entryIdx)
		if vcSymbolic() {
			vcEnsures("one block written in its place", vcWrites == 1 && vcWriteOff == int64(vcN)*4096 && vcWriteLen == int(blockSize))
			vcEnsures("the block written is the one cached", vcSameOthers(&vcMarshalled, &b, -1) && vcMarshalled.entryIdx == b.entryIdx)
		}
	}
	if unique && s.msgOffset < 0 {
		vcEnsures("deleted entry not returned", e.seq == 0 && !cached)
		if vcSymbolic() {
			vcEnsures("nothing written", vcWrites == 0)
		}
	}
	if e.seq != 0 {
		vcEnsures("only the one asked for", e.seq == seq && e.msgOffset >= 0)
	} else {
		vcEnsures("nothing else deleted", !cached)
		if vcSymbolic() {
			vcEnsures("nothing else written", vcWrites == 0)
		}
	}
}

// The lease's contract, proved for C05: a free range of the size, or -1.
//
//verif:model (*github.com/unit-io/unitdb._Lease).allocate
func vcLeaseAllocate(l *_Lease, size uint32) int64 {
	vcEnsures("no empty allocation", size != 0)
	off := vcNondetI64()
	vcAssume(off >= -1 && off < 1<<40)
	return off
}

//verif:loop (*_BlockWriter).append 0
func vcAppendInv(i int, b _IndexBlock, e _IndexEntry) bool {
	return i >= 0 && i <= int(b.entryIdx) && vcForall(0, i, func(k int) bool { return b.entries[k].seq != e.seq })
}

// VC_C03_append…: an entry whose sequence number is stored is refused and nothing
// changes; any other is stored behind the entries of its block, none of which
// changes, its message at the offset it names.
//
//verif:drop _IndexEntry.cache
//verif:timeout 60
func VC_C03_appendCached() { vcAppendCheck(0) }

//verif:drop _IndexEntry.cache
//verif:timeout 60
func VC_C03_appendStored() { vcAppendCheck(1) }

//verif:drop _IndexEntry.cache
//verif:timeout 60
func VC_C03_appendNew() { vcAppendCheck(2) }

func vcAppendCheck(where int) {
	m := vcRange("used", 1, entriesPerIndexBlock)
	f := vcIndexFile(m)
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	data := vcNewFile(&vcFileB, vcI64("data size"))
	vcAssume(vcFileB.size >= 0 && vcFileB.size < 1<<40)
	vcBuf = make([]byte, vcFileMax)
	vcScramble(vcBuf)
	vcBufSize = vcI64("buffered")
	vcAssume(vcBufSize >= 0 && vcBufSize < 1<<40)
	w := &_BlockWriter{indexFile: f, dataFile: data, buffer: new(bpool.Buffer), lease: &_Lease{}}
	w.indexBlocks = map[int32]_IndexBlock{}
	w.indexLeases = map[uint64]struct{}{}
	w.dataLeases = map[int64]uint32{}
	w.offset = vcFileB.size + vcBufSize
	w.blockIdx = vcI32("blocks")
	vcAssume(w.blockIdx >= 0)

	var before _IndexBlock
	switch where {
	case 0:
		before = vcStored
		before.dirty = vcBool("dirty")
		before.leased = vcBool("leased")
		w.indexBlocks[vcN] = before
	case 1:
		vcAssume(vcN < w.blockIdx)
		before = vcStored
	case 2:
		vcAssume(vcN >= w.blockIdx)
		m = 0
	}
	e := _IndexEntry{seq: vcU64("seq"), topicSize: vcU16("topic"), valueSize: vcU32("value"), msgOffset: vcI64("offset")}
	e.cache = vcBytes("message", 0, 1<<30)
	vcAssume(e.seq >= 1 && blockIndex(e.seq) == vcN)
	j := vcRange("j", 0, entriesPerIndexBlock-1)
	// a block has room for every sequence number of its own
	vcAssume(m < entriesPerIndexBlock || before.entries[j].seq == e.seq)
	stored := j < m && before.entries[j].seq == e.seq
	size := vcFileB.size
	buffered := vcBufSize
	k := vcRange("k", 0, entriesPerIndexBlock-1)
	p := vcInt("byte")
	vcAssume(p >= 0 && p < 1<<41)
	inFile, inBuf := vcFileB.data[p], vcBuf[p]
	vcWrites = 0

	err := w.append(e)

	b, ok := w.indexBlocks[vcN]
	if stored {
		vcEnsures("a stored entry is refused", err == errEntryExist)
	}
	if err != nil {
		vcEnsures("nothing appended", !ok || where == 0 && b.entryIdx == before.entryIdx && vcSameEntry(b.entries[k], before.entries[k]))
		vcEnsures("an entry without a message is refused, or one that exists", !stored || vcBufSize == buffered && vcWrites == 0)
		return
	}
	vcEnsures("block kept", ok && b.dirty)
	vcEnsures("one more entry", int(b.entryIdx) == m+1)
	n := b.entries[m]
	vcEnsures("entry stored", n.seq == e.seq && n.topicSize == e.topicSize && n.valueSize == e.valueSize)
	vcEnsures("other entries unchanged", k >= m || vcSameEntry(b.entries[k], before.entries[k]))
	if where == 1 {
		vcEnsures("a block of the file is written back in place", b.leased)
	}
	l := len(e.cache)
	i := vcRange("i", 0, 1<<30)
	if vcWrites == 0 {
		// buffered: it becomes the data file's bytes at its end
		vcEnsures("message at the end of the data", n.msgOffset == size+buffered && w.offset == n.msgOffset+int64(l) && vcBufSize == buffered+int64(l))
		if i < l {
			vcEnsures("message bytes", vcBuf[n.msgOffset-size+int64(i)] == e.cache[i])
		}
		vcEnsures("other bytes of the buffer unchanged", int64(p) >= buffered || vcBuf[p] == inBuf)
		vcEnsures("data file unchanged", vcFileB.size == size && vcFileB.data[p] == inFile)
	} else {
		vcEnsures("message in a free range", vcWrites == 1 && vcWriteOff == n.msgOffset && vcWriteLen == l)
		if i < l {
			vcEnsures("message bytes in the file", vcFileB.data[n.msgOffset+int64(i)] == e.cache[i])
		}
		vcEnsures("other bytes of the file unchanged", int64(p) >= n.msgOffset && int64(p) < n.msgOffset+int64(l) || vcFileB.data[p] == inFile)
		vcEnsures("range leased", w.dataLeases[n.msgOffset] == uint32(l))
		vcEnsures("end of the data unchanged", w.offset == size+buffered && vcBufSize == buffered)
	}
}

// VC_C03_extend: the index file is grown to hold every block before the one of the
// sequence number, never shrunk, and what it holds is kept.
func VC_C03_extend() {
	f := vcNewFile(&vcFileA, vcI64("size")&(1<<40-1))
	w := &_BlockWriter{indexFile: f}
	seq := vcU64("seq")
	vcAssume(seq >= 1 && blockIndex(seq) >= 0 && blockIndex(seq) < 1<<17)
	before := f.currSize()
	want := blockOffset(blockIndex(seq))
	vcAssume(want-before < 1<<32)
	p := vcInt("byte")
	vcAssume(p >= 0 && p < 1<<30)
	was := vcFileByte(f, p)
	_, err := w.extend(seq)
	after := f.currSize()
	vcEnsures("extended", err == nil && after >= want)
	vcEnsures("not shrunk, and no further", after == before || before < want && after == want)
	vcEnsures("contents kept", vcFileByte(f, p) == was)
}

func vcFileByte(f *_File, p int) byte {
	if vcSymbolic() {
		return vcGhost(f.File).data[p]
	}
	b := make([]byte, 1)
	f.ReadAt(b, int64(p))
	return b[0]
}
