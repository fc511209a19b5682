package unitdb

// Ghosts of the proof of _WindowWriter.append: the block it starts with, its
// index, the number of its entries, the block index of the next new block, and an
// arbitrary new entry vcWJ with its place, entry vcWR of the vcWQ-th block.
var (
	vcWB           _WinBlock
	vcWIdx, vcWNew int32
	vcWN           int
	vcWJ           int
	vcWQ           int32
	vcWR           int
	vcWO           int   // an arbitrary entry of the block it starts with
	vcWZ           int32 // an arbitrary other block
	vcWHash        uint64
)

// vcWinAt is the index of the q-th block of the chain being appended to.
func vcWinAt(q int32) int32 {
	if q == 0 {
		return vcWIdx
	}
	return vcWNew + q - 1
}

// The codec's contract, proved for C01: the block read is the one in the file.
//
//verif:model (*github.com/unit-io/unitdb._WindowReader).readWindowBlock only C04_append
func vcReadWindowBlock(r *_WindowReader) (_WinBlock, error) {
	vcEnsures("the block at the offset is read", r.offset == int64(vcWIdx)*4096)
	if vcNondetBool() {
		return _WinBlock{}, vcErr()
	}
	return vcWB, nil
}

//verif:loop (*_WindowWriter).append 0
func vcWinAppendInv(k int, w *_WindowWriter, b _WinBlock, wIdx int32, wEntries _WindowEntries) bool {
	t := w.windowIdx - vcWNew + 1 // new blocks
	if k > len(wEntries) || t < 0 || int(t) > k || wIdx != vcWinAt(t) || int(b.entryIdx) > entriesPerWindowBlock {
		return false
	}
	if vcWN+k != entriesPerWindowBlock*int(t)+int(b.entryIdx) || b.topicHash != vcWHash {
		return false
	}
	if t > 0 && (b.entryIdx == 0 || b.leased || b.next != int64(vcWinAt(t-1))*4096) {
		return false
	}
	if t == 0 && (b.next != vcWB.next || b.leased != vcWB.leased) {
		return false
	}
	// the block it starts with keeps its entries and its link
	first := w.winBlocks[vcWIdx]
	if t == 0 {
		first = b
	}
	if vcWO < vcWN && !vcWinSame(first.entries[vcWO], vcWB.entries[vcWO]) || first.next != vcWB.next || first.topicHash != vcWHash {
		return false
	}
	if t > 0 && int(first.entryIdx) != entriesPerWindowBlock {
		return false
	}
	// entry vcWJ is in its place, in a block linked to the one before
	if vcWJ < k {
		at := w.winBlocks[vcWinAt(vcWQ)]
		if vcWQ == t {
			at = b
		}
		if vcWQ > t || !vcWinSame(at.entries[vcWR], wEntries[vcWJ]) || at.topicHash != vcWHash || vcWR >= int(at.entryIdx) {
			return false
		}
		if vcWQ > 0 && at.next != int64(vcWinAt(vcWQ-1))*4096 {
			return false
		}
	}
	return true
}

// VC_C04_appendNew, VC_C04_appendCached, VC_C04_appendStored: appending entries to
// a topic's window, of any number, leaves every entry it had in place, puts the
// new ones behind them in the order given, in that block and in new ones each
// linked to the one before, and answers the offset of the last.
//
//verif:timeout 60
func VC_C04_appendNew() { vcWinAppend(0) }

//verif:timeout 60
func VC_C04_appendCached() { vcWinAppend(1) }

//verif:timeout 60
func VC_C04_appendStored() { vcWinAppend(2) }

func vcWinAppend(where int) {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	w := &_WindowWriter{winBlocks: map[int32]_WinBlock{}, winLeases: map[int32][]uint64{}}
	w.windowIdx = vcI32("blocks")
	vcAssume(w.windowIdx >= 0 && w.windowIdx < 1<<30)
	vcScramble(w.winBlocks)
	vcWHash = vcU64("hash")
	vcWNew = w.windowIdx + 1
	off := int64(0)
	if where == 0 {
		vcWIdx = vcWNew
		vcWNew++
		vcWB = _WinBlock{topicHash: vcWHash}
		_, ok := w.winBlocks[vcWIdx]
		vcAssume(!ok)
	} else {
		vcWIdx = vcI32("block")
		vcAssume(vcWIdx > 0 && vcWIdx <= w.windowIdx)
		off = int64(vcWIdx) * 4096
		vcHavoc(&vcWB)
		vcAssume(vcWB.topicHash == vcWHash)
		_, ok := w.winBlocks[vcWIdx]
		vcAssume(ok == (where == 1))
		if where == 1 {
			w.winBlocks[vcWIdx] = vcWB
		} else {
			vcWB.dirty, vcWB.leased = false, false
		}
	}
	vcWN = int(vcWB.entryIdx)
	vcAssume(vcWN <= entriesPerWindowBlock)
	n := vcRange("n", 0, 1<<20)
	es := make(_WindowEntries, n)
	vcHavoc(es)
	vcAssume(vcForall(0, n, func(i int) bool { return es[i].sequence != 0 }))
	vcWJ = vcRange("j", 0, 1<<20)
	vcWQ = int32(vcRange("q", 0, 1<<20))
	vcWR = vcRange("r", 0, entriesPerWindowBlock-1)
	vcAssume(vcWN+vcWJ == entriesPerWindowBlock*int(vcWQ)+vcWR)
	vcWO = vcRange("o", 0, entriesPerWindowBlock-1)
	if where == 2 {
		vcWB.leased = true
	}

	newOff, err := w.append(vcWHash, off, es)

	if err != nil {
		return
	}
	last := w.windowIdx - vcWNew + 1
	vcEnsures("offset of the last block", newOff == int64(vcWinAt(last))*4096)
	if vcWO < vcWN {
		first := w.winBlocks[vcWIdx]
		vcEnsures("earlier entries kept", vcWinSame(first.entries[vcWO], vcWB.entries[vcWO]) && int(first.entryIdx) >= vcWN)
	}
	vcEnsures("earlier blocks linked", w.winBlocks[vcWIdx].next == vcWB.next)
	if vcWJ < n {
		at, ok := w.winBlocks[vcWinAt(vcWQ)]
		vcEnsures("entry stored in its place", ok && vcWQ <= last && vcWinSame(at.entries[vcWR], es[vcWJ]) && vcWR < int(at.entryIdx))
		vcEnsures("block of the topic", at.topicHash == vcWHash)
		if vcWQ > 0 {
			vcEnsures("block linked to the one before", at.next == int64(vcWinAt(vcWQ-1))*4096)
		}
	}
	b := w.winBlocks[vcWinAt(last)]
	vcEnsures("nothing else in the last block", vcWN+n == entriesPerWindowBlock*int(last)+int(b.entryIdx))
}
