package unitdb

import "sort"

// sort.Slice's contract for free lists: a permutation, ordered by less. The
// first sort orders by offset, the second by size.
//
//verif:model =sort.Slice
func vcSortSlice(x interface{}, less func(i, j int) bool) {
	b := x.([]_FreeBlock)
	n := len(b)
	old := append([]_FreeBlock{}, b...)
	to := make([]int, n)
	from := make([]int, n)
	vcScramble(to)
	vcScramble(from)
	nb := make([]_FreeBlock, n)
	vcScramble(nb)
	vcAssume(vcForall(0, n, func(i int) bool { return from[i] >= 0 && from[i] < n }))
	vcAssume(vcForall(0, n, func(i int) bool { return to[from[i]] == i }))
	vcAssume(vcForall(0, n, func(i int) bool { return nb[i] == old[from[i]] }))
	vcAssume(vcForall(0, n, func(i int) bool { return to[i] >= 0 && to[i] < n }))
	vcAssume(vcForall(0, n, func(i int) bool { return nb[to[i]] == old[i] }))
	vcAssume(n == 0 || to[n-1] >= 0 && to[n-1] < n && nb[to[n-1]] == old[n-1]) // an instance, as a hint
	copy(b, nb)
	vcAssume(vcForall(0, n, func(i int) bool {
		return vcForall(0, n, func(j int) bool { return j <= i || !less(j, i) })
	}))
}

// vcX is an arbitrary byte of the file.
var vcX int64

func vcIn(f _FreeBlock) bool { return f.offset <= vcX && vcX < vcEnd(f) }

//verif:loop (*_FreeBlocks).defrag 0
func vcDefragInv(k int, b *_FreeBlocks, merged []_FreeBlock, curOff int64, curSize uint32) bool {
	m := len(merged)
	return k < len(b.fb) && m <= k && curSize > 0 && curOff >= 0 && curOff < 1<<60 &&
		vcAdd(curOff, int64(curSize)) == vcEnd(b.fb[k]) &&
		vcForall(0, m, func(i int) bool {
			return vcGood(merged[i]) && vcEnd(merged[i]) <= curOff
		}) &&
		vcForall(0, m, func(i int) bool {
			return vcForall(0, m, func(j int) bool {
				return j <= i || vcEnd(merged[i]) <= merged[j].offset
			})
		}) &&
		(vcExists(0, m, func(i int) bool { return vcIn(merged[i]) }) || curOff <= vcX && vcX < vcAdd(curOff, int64(curSize))) ==
			vcExists(0, k+1, func(i int) bool { return vcIn(b.fb[i]) })
}

// VC_C05_defrag: defragmentation keeps exactly the same bytes free and the
// ranges disjoint.
//
//verif:int
//verif:timeout 10
func VC_C05_defrag() {
	n := vcRange("n", 2, 1<<20) // a shorter list is left as it is
	b := vcShard(n)
	old := append([]_FreeBlock{}, b.fb...)
	vcX = vcI64("x")
	vcAssume(vcX >= 0)
	b.defrag()
	vcEnsures("freed bytes stay free", !vcExists(0, n, func(i int) bool { return vcIn(old[i]) }) || vcExists(0, len(b.fb), func(i int) bool { return vcIn(b.fb[i]) }))
	vcEnsures("no other byte becomes free", !vcExists(0, len(b.fb), func(i int) bool { return vcIn(b.fb[i]) }) || vcExists(0, n, func(i int) bool { return vcIn(old[i]) }))
	i, j := vcRange("i", 0, 1<<20), vcRange("j", 0, 1<<20)
	if i < j && j < len(b.fb) {
		vcEnsures("ranges stay disjoint", vcDisjoint(b.fb[i], b.fb[j]))
		vcEnsures("no empty range", vcGood(b.fb[i]) && vcGood(b.fb[j]))
	}
}

var vcKeepSort2 = sort.Slice
