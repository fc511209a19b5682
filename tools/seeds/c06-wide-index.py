prop='C06'; pkg='filter'
needs='a filter larger than 2^32 bits or, at the default size, a key whose reduced hash has a particular remainder: Test reduces the hash before mixing in the seed key, Add after'
breaks='The filter denies keys that were added (false negative).'
edits=[('filter/bloom.go','''	for _, i := range b.hash(h) {
		i %= b.m
		if (b.bits[i>>6]>>uint(i&0x3f))&1 == 0 {''','''	for _, i := range b.hash(h) {
		i %= b.m
		if i>>6 >= uint64(len(b.bits)-1) {
			i = b.m - 1
		}
		if (b.bits[i>>6]>>uint(i&0x3f))&1 == 0 {''')]
demo='''
package filter

import "testing"

func TestSeedDemo(t *testing.T) {
	f := newFilter(1000, 3)
	for k := uint64(0); k < 20000; k++ {
		f.bits = make([]uint64, len(f.bits))
		f.Add(k * 0x9e3779b97f4a7c15)
		if !f.Test(k * 0x9e3779b97f4a7c15) {
			t.Fatal("false negative")
		}
	}
}
'''
needs='a key with a bit in the last 64-bit word of the filter, while the filter size is not a multiple of 64 or that bit alone is set'
