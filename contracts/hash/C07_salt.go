package hash

//verif:loop shuffleInPlace 0
func vcShuffleInv(i, v, p int, result, text, salt []byte) bool {
	return len(result) == len(text) && len(salt) == 4 && v >= 0 && v < 4 && i < len(result) && i >= -1 && p >= 0 && p <= 255*(len(result)-1-i)
}

//verif:loop New 0
func vcNewInv(i, n int, b []byte) bool { return i >= 0 && i <= n && i&7 == 0 && n <= len(b) && n&7 == 0 }

// VC_C07_salt: a level of any length is hashed without touching it.
func VC_C07_salt() {
	n := vcRange("length", 0, 1<<16)
	text := make([]byte, n)
	if vcSymbolic() {
		vcScramble(text)
	}
	j := vcRange("place", 0, 1<<16)
	vcAssume(j < n || n == 0)
	var old byte
	if n > 0 {
		old = text[j]
	}
	WithSalt(text, vcU32("contract"))
	vcAssert("the level is untouched", n == 0 || text[j] == old)
}
