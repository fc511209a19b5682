package unitdb

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
)

func vcFreeBytes(l *_Lease) (map[int64]int, int64) {
	m := map[int64]int{}
	var sum int64
	for _, s := range l.blocks {
		for _, f := range s.fb {
			sum += int64(f.size)
			for i := int64(0); i < int64(f.size); i++ {
				m[f.offset+i]++
			}
		}
	}
	return m, sum
}

// BT_C05_history: random histories of free, allocate, defragment, save and
// reload against a set of free bytes.
func BT_C05_history(v *vcT) {
	for n := 0; !v.over(); n++ {
		dir := filepath.Join(v.dir, fmt.Sprint("lease", n))
		os.MkdirAll(dir, 0777)
		fs, err := newFile(dir, 1, _FileDesc{fileType: typeLease})
		v.check(err == nil, "newFile: %v", err)
		min := int64(v.rnd.Intn(40))
		l := newLease(fs, min)
		free := map[int64]bool{}
		out := []_FreeBlock{{0, 400}} // in use: may be freed piecewise
		var hist string
		take := func(size uint32) (int64, bool) {
			var cand []int
			for i, o := range out {
				if o.size >= size {
					cand = append(cand, i)
				}
			}
			if len(cand) == 0 {
				return 0, false
			}
			i := cand[v.rnd.Intn(len(cand))]
			off := out[i].offset
			out[i].offset += int64(size)
			out[i].size -= size
			return off, true
		}
		for step := 0; step < 40; step++ {
			switch v.rnd.Intn(6) {
			case 0, 1, 2:
				size := uint32(1 + v.rnd.Intn(12))
				off, ok := take(size)
				if !ok {
					continue
				}
				hist += fmt.Sprintf("free(%d,%d) ", off, size)
				l.freeBlock(off, size)
				before := l.size
				l.freeBlock(off, size)
				v.check(l.size == before, "%s: freeing again changed the free size", hist)
				for i := int64(0); i < int64(size); i++ {
					free[off+i] = true
				}
			case 3:
				size := uint32(1 + v.rnd.Intn(12))
				small := int64(len(free)) < min
				off := l.allocate(size)
				hist += fmt.Sprintf("alloc(%d)=%d ", size, off)
				if off < 0 {
					continue
				}
				v.check(!small, "%s: allocated below the minimum", hist)
				for i := int64(0); i < int64(size); i++ {
					v.check(free[off+i], "%s: handed out byte %d that is not free", hist, off+i)
					delete(free, off+i)
				}
				out = append(out, _FreeBlock{off, size})
			case 4:
				hist += "defrag "
				l.defrag()
			case 5:
				hist += "reload "
				v.check(l.write() == nil, "%s: write failed", hist)
				l = newLease(fs, min)
				v.check(l.read() == nil, "%s: read failed", hist)
			}
			got, sum := vcFreeBytes(l)
			v.check(sum == l.size, "%s: free size %d, ranges sum to %d", hist, l.size, sum)
			v.check(len(got) == len(free), "%s: %d free bytes, want %d", hist, len(got), len(free))
			for b, k := range got {
				v.check(k == 1 && free[b], "%s: byte %d listed %d times, free=%v", hist, b, k, free[b])
			}
		}
		v.eval(hist)
		fs.File.Close()
		os.RemoveAll(dir)
	}
}

// BT_C05_sizes: merging never wraps a range's 32-bit size.
func BT_C05_sizes(v *vcT) {
	for n := 0; n < 200 && !v.over(); n++ {
		b := &_FreeBlocks{cache: map[int64]bool{}}
		var sum int64
		off := int64(v.rnd.Intn(100))
		k := 2 + v.rnd.Intn(5)
		for i := 0; i < k; i++ {
			s := uint32(1<<30 + v.rnd.Intn(1<<31))
			b.fb = append(b.fb, _FreeBlock{off, s})
			off += int64(s)
			sum += int64(s)
		}
		v.rnd.Shuffle(k, func(i, j int) { b.fb[i], b.fb[j] = b.fb[j], b.fb[i] })
		b.defrag()
		sort.Slice(b.fb, func(i, j int) bool { return b.fb[i].offset < b.fb[j].offset })
		var got int64
		for i, f := range b.fb {
			got += int64(f.size)
			v.check(i == 0 || b.fb[i-1].offset+int64(b.fb[i-1].size) == f.offset, "gap after merging large ranges: %v", b.fb)
		}
		v.check(got == sum, "merging %d large ranges kept %d of %d bytes", k, got, sum)
		v.eval(fmt.Sprint(k, sum))
	}
}
