package filter


// vcFilter is an arbitrary filter in a representation satisfying the invariant
// m >= MMin, len(bits) = ceil(m/64).
func vcFilter(k int) *Filter {
	f := &Filter{}
	f.m = vcU64("m")
	vcAssume(f.m >= MMin && f.m <= 1<<24)
	f.bits = make([]uint64, int((f.m+63)/64))
	vcHavoc(f.bits)
	f.keys = make([]uint64, k)
	vcHavoc(f.keys)
	f.n = vcU64("n")
	return f
}

// VC_C06_addfound: after Add(h), Test(h) is true, for every filter state.
func VC_C06_addfound() {
	f := vcFilter(int(bloomHashes))
	h := vcU64("h")
	f.Add(h)
	vcAssert("added-is-found", f.Test(h))
}

// VC_C06_monotone: Add never clears a bit and changes neither the keys nor the
// modulus.
func VC_C06_monotone() {
	f := vcFilter(int(bloomHashes))
	h := vcU64("h")
	i := vcRange("i", 0, 1<<20)
	vcAssume(i < len(f.bits))
	j := vcRange("j", 0, int(bloomHashes)-1)
	old, m, key, nb := f.bits[i], f.m, f.keys[j], len(f.bits)
	f.Add(h)
	vcAssert("bits-kept", f.bits[i]&old == old)
	vcAssert("shape-kept", f.m == m && f.keys[j] == key && len(f.bits) == nb && len(f.keys) == int(bloomHashes))
}

// VC_C06_testmonotone: if every bit of f is also set in g (same keys, same m)
// then whatever f reports present g reports present.
func VC_C06_testmonotone() {
	f := vcFilter(int(bloomHashes))
	extra := make([]uint64, len(f.bits))
	vcHavoc(extra)
	g := &Filter{m: f.m, keys: f.keys}
	g.bits = make([]uint64, len(f.bits))
	vcHavoc(g.bits)
	vcAssume(vcForall(0, len(f.bits), func(i int) bool { return g.bits[i]&f.bits[i] == f.bits[i] }))
	h := vcU64("h")
	vcAssert("monotone", vcImplies(f.Test(h), g.Test(h)))
}
