package unitdb

// The contract of looking up a topic's entries in its chain of window blocks,
// stated over ghosts that the contracts of the functions it calls keep: the block
// read last and the number of its entries examined.
var (
	vcLB             _WinBlock // the block read last
	vcLRead, vcLLast bool      // a block has been read; reading the last one failed
	vcLExam          int       // its entries examined, from the last one down
	vcLNext          int64     // the offset to read
	vcLHash          uint64
	vcLCutoff        int64
	vcLNow           uint32
	vcLMem           int // entries found in memory
	vcLKept          int // entries found
	vcLLimit         int
	vcLX             int // an arbitrary place among the entries found
	vcLXEntry        _WinEntry
)

func vcLCut() bool { return vcLB.cutoffTime != 0 && vcLB.cutoffTime < vcLCutoff }

// vcLDone: the block read last has nothing left to examine.
func vcLDone() bool { return vcLExam == int(vcLB.entryIdx) }

//verif:model (*github.com/unit-io/unitdb._WindowReader).readWindowBlock only lookup
func vcLReadBlock(r *_WindowReader) (_WinBlock, error) {
	if vcLRead {
		vcEnsures("the block before is looked through first", vcLDone() && vcLB.topicHash == vcLHash)
		vcEnsures("no block is read beyond the cutoff", !vcLCut())
		vcEnsures("no block is read beyond the end of the chain", vcLB.next != 0)
	}
	vcEnsures("the chain is followed", r.offset == vcLNext)
	vcEnsures("no block is read beyond the limit", vcLKept < vcLLimit || vcLRead)
	vcLRead = true
	if vcNondetBool() {
		vcLLast = true
		return _WinBlock{}, vcErr()
	}
	vcScramble(&vcLB)
	vcAssume(vcLB.entryIdx <= entriesPerWindowBlock)
	vcLExam = 0
	vcLNext = vcLB.next
	return vcLB, nil
}

// The contract of isExpired, proved for C12, at one point in time.
//
//verif:model (github.com/unit-io/unitdb._WinEntry).isExpired only lookup
func vcLExpired(e _WinEntry) bool {
	vcEnsures("entries of the topic only", vcLB.topicHash == vcLHash)
	vcEnsures("entries are examined from the newest down", vcLExam < int(vcLB.entryIdx) &&
		vcWinSame(e, vcLB.entries[int(vcLB.entryIdx)-1-vcLExam]))
	vcLExam++
	if e.expiresAt != 0 && e.expiresAt <= vcLNow {
		return true
	}
	if vcLKept == vcLX {
		vcLXEntry = e
	}
	vcLKept++
	return false
}

func vcWinSame(x, y _WinEntry) bool { return x.sequence == y.sequence && x.expiresAt == y.expiresAt }

//verif:model (*github.com/unit-io/unitdb._ExpiryWindowBucket).addExpiry only lookup
func vcLAddExpiry(wb *_ExpiryWindowBucket, e timeWindowEntry) error { return nil }

// The contract of ilookup, proved for C04: at most limit entries.
//
//verif:model (*github.com/unit-io/unitdb._TimeWindowBucket).ilookup only lookup
func vcLMemory(tw *_TimeWindowBucket, topicHash uint64, limit int) _WindowEntries {
	vcEnsures("the topic's entries in memory are looked up", topicHash == vcLHash && limit == vcLLimit)
	es := make(_WindowEntries, vcLMem)
	vcScramble(es)
	if vcLX < vcLMem {
		vcLXEntry = es[vcLX]
	}
	return es
}

//verif:model (*github.com/unit-io/unitdb._FileSet).getFile only lookup
func vcLGetFile(fs *_FileSet, fd _FileDesc) (*_File, error) {
	vcEnsures("the window file is read", fd.fileType == typeTimeWindow)
	return nil, nil
}

func vcLFound(es _WindowEntries) bool {
	return len(es) == vcLKept && vcLKept >= vcLMem && len(es) <= vcLLimit &&
		(vcLX >= len(es) || vcWinSame(es[vcLX], vcLXEntry))
}

// the chain of blocks
//
//verif:loop (*_TimeWindowBucket).lookup$1 0
func vcLChainInv(blockOff int64, winEntries _WindowEntries) bool {
	return !vcLLast && blockOff == vcLNext && vcLFound(winEntries) &&
		(!vcLRead && vcLKept < vcLLimit ||
			vcLRead && vcLDone() && vcLB.topicHash == vcLHash && !vcLCut() && vcLB.next != 0)
}

// the entries of a block
//
//verif:loop (*_TimeWindowBucket).lookup$2 0
func vcLBlockInv(i int, winEntries _WindowEntries) bool {
	return vcLRead && !vcLLast && i == int(vcLB.entryIdx)-1-vcLExam && vcLExam >= 0 && vcLExam <= int(vcLB.entryIdx) &&
		vcLFound(winEntries) && vcLB.topicHash == vcLHash && vcLNext == vcLB.next
}

// vcLookup checks the lookup of any topic at any offset with any limit.
func vcLookup() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	vcLHash, vcLCutoff, vcLNow = vcU64("hash"), vcI64("cutoff"), vcU32("now")
	vcLLimit = vcRange("limit", 0, 1<<30)
	vcLMem = vcRange("in memory", 0, 1<<30)
	vcAssume(vcLMem <= vcLLimit)
	vcLKept = vcLMem
	vcLX = vcRange("place", 0, 1<<30)
	vcLNext = vcI64("offset")
	off := vcLNext
	tw := &_TimeWindowBucket{}
	es := tw.lookup(nil, vcLHash, off, vcLCutoff, vcLLimit)
	vcEnsures("at most the limit", len(es) <= vcLLimit)
	vcEnsures("the entries found in that order", len(es) == vcLKept && (vcLX >= len(es) || vcWinSame(es[vcLX], vcLXEntry)))
	if len(es) < vcLLimit {
		vcEnsures("the chain is looked through", vcLRead)
		vcEnsures("to its end, the cutoff or another topic's block", vcLLast || vcLB.topicHash != vcLHash ||
			vcLDone() && (vcLB.next == 0 || vcLCut()))
	}
}
