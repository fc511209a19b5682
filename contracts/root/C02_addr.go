package unitdb

const vcMaxSeq = uint64(entriesPerIndexBlock) << 31

// VC_C02_blockIndex: block n holds exactly the sequences 255n+1 .. 255n+255.
//
//verif:int
func VC_C02_blockIndex() {
	seq := vcU64("seq")
	vcAssume(seq >= 1 && seq <= vcMaxSeq)
	b := blockIndex(seq)
	vcAssert("non-negative", b >= 0)
	lo := uint64(b)*entriesPerIndexBlock + 1
	vcAssert("lower-bound", lo <= seq)
	vcAssert("upper-bound", seq-lo < entriesPerIndexBlock)
}

// VC_C02_offsets: block n occupies [4096n, 4096n+4096), so ranges of distinct
// blocks are disjoint and never negative.
func VC_C02_offsets() {
	n := vcI32("n")
	m := vcI32("m")
	vcAssume(n >= 0 && m >= 0)
	o := blockOffset(n)
	w := winBlockOffset(n)
	vcAssert("index-offset", o == int64(n)*4096)
	vcAssert("window-offset", w == int64(n)*4096)
	vcAssert("disjoint", vcImplies(n < m, o+int64(blockSize) <= blockOffset(m) && w+int64(blockSize) <= winBlockOffset(m)))
}
