prop='C05'; pkg='.'
needs='an allocation that leaves a rest of at most 8 bytes of a free range, followed by another allocation'
breaks='A free range is taken as a whole although only part of it was asked for, and its rest is both lost and still counted as free.'
edits=[('leasing.go','	if fbs.fb[i].size == size {','	if fbs.fb[i].size-size < 8 {')]
demo='''
package unitdb

import "testing"

func TestSeedDemo(t *testing.T) {
	l := newLease(_FileSet{}, 0)
	for i := int64(0); i < 500; i++ {
		l.freeBlock(i*40, 20)
	}
	if l.allocate(16) == -1 {
		t.Fatal("nothing allocated")
	}
	var sum int64
	for _, s := range l.blocks {
		for _, f := range s.fb {
			sum += int64(f.size)
		}
	}
	if sum != l.size {
		t.Fatal(sum, l.size)
	}
}
'''
