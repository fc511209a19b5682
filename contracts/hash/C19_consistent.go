package hash

// vcAnchor is any anchor of a blocks of which N work: the working ones are
// W[0..N-1], each with its own place in L, are not marked in A and are their
// own successor; the others are in R.
func vcAnchor() *Consistent {
	a := vcRange("blocks", 1, 60000)
	n := vcRange("used", 1, 60000)
	vcAssume(n <= a)
	c := &Consistent{}
	if vcSymbolic() {
		c.A, c.K, c.W, c.L, c.R = make([]uint16, a), make([]uint16, a), make([]uint16, a), make([]uint16, a), make([]uint16, a-n, a)
		c.N = uint16(n)
		vcHavoc(c.A)
		vcHavoc(c.K)
		vcHavoc(c.W)
		vcHavoc(c.L)
		vcHavoc(c.R)
	} else {
		a = 1 + a%50
		n = 1 + n%a
		c = InitConsistent(a, n)
		for i := 0; i < 60; i++ {
			if vcBool("add") && len(c.R) > 0 {
				c.AddBlock()
			} else if c.N > 1 {
				c.RemoveBlock(c.W[vcRange("victim", 0, int(c.N)-1)])
			}
		}
		n = int(c.N)
	}
	vcAssume(vcForall(0, a, func(i int) bool { return int(c.A[i]) < a && int(c.K[i]) < a }))
	vcAssume(vcForall(0, a, func(i int) bool { return int(c.W[i]) < a && int(c.L[i]) < a }))
	vcAssume(vcForall(0, len(c.R), func(i int) bool { return int(c.R[i]) < a }))
	vcAssume(vcForall(0, a, func(i int) bool { return c.A[i] != 0 || c.L[i] < c.N && int(c.W[c.L[i]]) == i && int(c.K[i]) == i }))
	vcAssume(vcForall(0, a, func(i int) bool { return i >= int(c.N) || c.A[c.W[i]] == 0 && int(c.L[c.W[i]]) == i }))
	return c
}

//verif:loop (*Consistent).FindBlock 0
func vcFind0(b uint16, A, K []uint16) bool { return int(b) < len(A) && len(K) == len(A) }

//verif:loop (*Consistent).FindBlock 1
func vcFind1(b, h uint16, A, K []uint16) bool {
	return int(b) < len(A) && int(h) < len(A) && len(K) == len(A)
}

// VC_C19_find: the block found is in use, on every anchor, and finding changes
// nothing.
func VC_C19_find() {
	c := vcAnchor()
	key := vcU64("key")
	n := c.N
	i := vcRange("i", 0, 60000)
	vcAssume(i < len(c.A))
	A, K, W, L := c.A[i], c.K[i], c.W[i], c.L[i]
	b := c.FindBlock(key)
	vcAssert("is a block", int(b) < len(c.A))
	vcAssert("works", c.A[b] == 0)
	vcAssert("is in the working set", c.L[b] < c.N && c.W[c.L[b]] == b)
	vcAssert("nothing changed", c.A[i] == A && c.K[i] == K && c.W[i] == W && c.L[i] == L && c.N == n)
}

// VC_C19_restore: removing a working block takes it, and only it, out of the
// working set; adding a block after that gives the same block and the same
// anchor, so the same assignment for every key.
//verif:timeout 20
func VC_C19_restore() {
	c := vcAnchor()
	vcAssume(c.N > 1)
	b := vcU16("b")
	vcAssume(int(b) < len(c.A) && c.A[b] == 0)
	n, r := c.N, len(c.R)
	i := vcRange("i", 0, 60000)
	vcAssume(i < len(c.A))
	A, K, W, L := c.A[i], c.K[i], c.W[i], c.L[i]
	c.RemoveBlock(b)
	vcAssert("one less", c.N == n-1 && len(c.R) == r+1 && c.R[r] == b)
	vcAssert("no longer in use", c.A[b] != 0)
	if i != int(b) {
		vcAssert("others as before", c.A[i] == A && c.K[i] == K)
	}
	if i < int(c.N) {
		vcAssert("working set kept", c.A[c.W[i]] == 0 && int(c.L[c.W[i]]) == i)
	}
	if c.A[i] == 0 {
		vcAssert("places kept", c.L[i] < c.N && int(c.W[c.L[i]]) == i && int(c.K[i]) == i)
	}
	vcAssert("records the size left", c.A[b] == c.N)
	vcAssert("its successor works", int(c.K[b]) < len(c.A) && (c.A[c.K[b]] == 0 || c.K[b] == b))
	got := c.AddBlock()
	vcAssert("added back", got == b)
	vcAssert("count restored", c.N == n && len(c.R) == r)
	vcAssert("assignment restored", c.A[i] == A && c.K[i] == K)
	if i < int(n) {
		vcAssert("working order restored", c.W[i] == W)
	}
	if A == 0 {
		vcAssert("places restored", c.L[i] == L)
	}
}

// VC_C19_removed: removing a block that does not work changes nothing.
func VC_C19_removed() {
	c := vcAnchor()
	b := vcU16("b")
	vcAssume(int(b) < len(c.A) && c.A[b] != 0)
	n, r := c.N, len(c.R)
	i := vcRange("i", 0, 60000)
	vcAssume(i < len(c.A))
	A, K, W, L := c.A[i], c.K[i], c.W[i], c.L[i]
	c.RemoveBlock(b)
	vcAssert("nothing changed", c.A[i] == A && c.K[i] == K && c.W[i] == W && c.L[i] == L && c.N == n && len(c.R) == r)
}

// VC_C19_fastmod: the reduction of a 32-bit hash stays below the modulus.
//verif:int
func VC_C19_fastmod() {
	x, m := vcU32("x"), vcU32("m")
	vcAssume(m > 0)
	vcAssert("below the modulus", FastMod(uint64(x), uint64(m)) < m)
}

var vcI int // an arbitrary block

//verif:loop InitConsistent 0
func vcInit0(k int, c *Consistent) bool {
	return vcI >= k || int(c.K[vcI]) == vcI && int(c.W[vcI]) == vcI && int(c.L[vcI]) == vcI
}

//verif:loop InitConsistent 1
func vcInit1(b uint16, r, blocks, used int, c *Consistent) bool {
	return r >= 0 && int(b)+r == blocks-1 && int(b)+1 >= used &&
		(c.A[vcI] == 0 || int(c.A[vcI]) == vcI && vcI >= used) && (vcI <= int(b) || int(c.A[vcI]) == vcI)
}

// VC_C19_init: a new anchor has the first blocks in use, each in its place, and
// the others removed.
//verif:int
func VC_C19_init() {
	a, n := vcRange("blocks", 1, 60000), vcRange("used", 1, 60000)
	vcAssume(n <= a)
	vcI = vcRange("i", 0, 60000)
	vcAssume(vcI < a)
	c := InitConsistent(a, n)
	vcAssert("sizes", len(c.A) == a && len(c.K) == a && len(c.W) == a && len(c.L) == a && len(c.R) == a-n && int(c.N) == n)
	vcAssert("places", int(c.K[vcI]) == vcI && int(c.W[vcI]) == vcI && int(c.L[vcI]) == vcI)
	if vcI < n {
		vcAssert("in use", c.A[vcI] == 0)
	} else {
		vcAssert("removed", int(c.A[vcI]) == vcI)
	}
}
