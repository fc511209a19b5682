package unitdb

import (
	"sort"

	"github.com/unit-io/unitdb/hash"
)

// FindBlock's contract, proved for C19: it answers one of the blocks in use.
//
//verif:model (*github.com/unit-io/unitdb/hash.Consistent).FindBlock
func vcFindBlock(c *hash.Consistent, key uint64) uint16 {
	b := vcNondetU64()
	vcAssume(b < 2)
	return uint16(b)
}

// sort.Search's contract: the index answered satisfies f, or is n.
//
//verif:model =sort.Search
func vcSearch(n int, f func(int) bool) int {
	i := vcNondetInt()
	vcAssume(i >= 0 && i <= n)
	if i < n {
		vcAssume(f(i))
	}
	return i
}

func vcDisjoint(a, b _FreeBlock) bool {
	return vcEnd(a) <= b.offset || vcEnd(b) <= a.offset
}

func vcEnd(f _FreeBlock) int64 { return vcAdd(f.offset, int64(f.size)) }

func vcGood(f _FreeBlock) bool { return f.offset >= 0 && f.offset < 1<<60 && f.size > 0 }

// vcShard is a shard with n pairwise disjoint free ranges.
func vcShard(n int) *_FreeBlocks {
	b := &_FreeBlocks{cache: make(map[int64]bool)}
	b.fb = make([]_FreeBlock, n)
	vcHavoc(b.fb)
	vcAssume(vcForall(0, n, func(i int) bool { return vcGood(b.fb[i]) }))
	vcAssume(vcForall(0, n, func(i int) bool {
		return vcForall(0, n, func(j int) bool { return i == j || vcDisjoint(b.fb[i], b.fb[j]) })
	}))
	return b
}

func vcLease(n int) *_Lease {
	l := &_Lease{blocks: make([]*_FreeBlocks, 2)}
	l.blocks[0] = vcShard(n)
	l.blocks[1] = &_FreeBlocks{cache: make(map[int64]bool)}
	l.size = vcI64("size")
	l.minimumFreeBlocksSize = vcI64("min")
	vcAssume(l.size >= 0 && l.size < 1<<60 && l.minimumFreeBlocksSize >= 0)
	if !vcSymbolic() {
		l.consistent = hash.InitConsistent(2, 2)
	}
	return l
}

// VC_C05_allocate: a range handed out is the head of one free range, and what
// stays free is what was free without it.
//
//verif:timeout 10
func VC_C05_allocate() {
	n := vcRange("n", 0, 1<<20)
	l := vcLease(n)
	fb := l.blocks[0]
	old := append([]_FreeBlock{}, fb.fb...)
	size := vcU32("want")
	vcAssume(size > 0)
	before, min := l.size, l.minimumFreeBlocksSize
	off := l.allocate(size)
	if before < min {
		vcAssert("nothing below the minimum", off == -1)
	}
	j := vcRange("j", 0, 1<<20)
	if off == -1 {
		vcAssert("refusal changes nothing", l.size == before && len(fb.fb) == n)
		if j < n {
			vcAssert("refusal keeps ranges", fb.fb[j] == old[j])
		}
		return
	}
	vcAssert("size accounted", l.size == before-int64(size))
	vcAssert("only from the shard", len(l.blocks[1].fb) == 0)
	got := _FreeBlock{offset: off, size: size}
	vcAssert("was free", vcExists(0, n, func(i int) bool {
		return old[i].offset == off && old[i].size >= size
	}))
	vcAssert("count", len(fb.fb) == n || len(fb.fb) == n-1)
	if j < len(fb.fb) {
		now := fb.fb[j]
		vcAssert("remaining range not empty", now.size > 0)
		vcAssert("remaining range disjoint from the one handed out", vcDisjoint(now, got))
		vcAssert("remaining range was free", now == old[j] || j+1 < n && now == old[j+1] ||
			now.offset == old[j].offset+int64(size) && now.size == old[j].size-size && off == old[j].offset)
	}
	if j < n {
		o := old[j]
		// what of an old range was not handed out is still free
		vcAssert("nothing lost", o == got ||
			j < len(fb.fb) && (fb.fb[j] == o || o.offset == off && fb.fb[j].offset == off+int64(size) && fb.fb[j].size == o.size-size) ||
			j > 0 && j-1 < len(fb.fb) && fb.fb[j-1] == o)
	}
	vcAssert("no longer recorded as free", !fb.cache[off])
}

// VC_C05_free: freeing adds exactly the range, once.
//
//verif:timeout 10
func VC_C05_free() {
	n := vcRange("n", 0, 1<<20)
	l := vcLease(n)
	off, size := vcI64("off"), vcU32("sz")
	vcAssume(off >= 0 && off < 1<<60 && size > 0)
	a, b := l.blocks[0], l.blocks[1]
	dup := vcBool("listed")
	if dup {
		a.cache[off] = true
		b.cache[off] = true
	}
	before := l.size
	old := append([]_FreeBlock{}, a.fb...)
	l.freeBlock(off, size)
	j := vcRange("j", 0, 1<<20)
	if j < n {
		vcAssert("others kept", a.fb[j] == old[j])
	}
	if dup {
		vcAssert("listed range not added again", len(a.fb) == n && len(b.fb) == 0 && l.size == before)
		return
	}
	vcAssert("added once", len(a.fb)+len(b.fb) == n+1 && l.size == before+int64(size))
	f := _FreeBlock{offset: off, size: size}
	vcAssert("added at the end", len(a.fb) == n+1 && a.fb[n] == f && a.cache[off] || len(b.fb) == 1 && b.fb[0] == f && b.cache[off])
}

var vcKeepSort = sort.Search
