package unitdb

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"

	"github.com/unit-io/bpool"
)

type vcIdxRec struct {
	cache     []byte
	topicSize uint16
	valueSize uint32
	deleted   bool
}

// BT_C03_history: histories of append, write, delete and reopen over real index
// and data files against a map. Bounds: up to 5 index blocks (1275 sequence
// numbers, plus one far block; some waves up to 5 runs of 6 blocks apart from each
// other), 12 rounds, records up to 600 bytes.
func BT_C03_history(v *vcT) {
	for n := 0; !v.over() && n < 4000; n++ {
		vcIdxHistory(v, n)
	}
}

func vcIdxHistory(v *vcT, n int) {
	rnd := rand.New(rand.NewSource(v.seed*7919 + int64(n)))
	dir := filepath.Join(v.dir, fmt.Sprint("i", n))
	os.MkdirAll(dir, 0755)
	defer os.RemoveAll(dir)
	pool := bpool.NewBufferPool(1<<20, nil)
	model := map[uint64]*vcIdxRec{}
	var order []uint64
	var trace []string
	log := func(f string, a ...interface{}) { trace = append(trace, fmt.Sprintf(f, a...)) }
	die := func(f string, a ...interface{}) {
		t := trace
		if len(t) > 40 {
			t = append([]string{"..."}, t[len(t)-40:]...)
		}
		v.failf("history %d: %s; after %v", n, fmt.Sprintf(f, a...), t)
	}
	leaseSet, err := newFile(dir, 1, _FileDesc{fileType: typeLease})
	if err != nil {
		v.failf("open: %v", err)
	}
	lease := newLease(leaseSet, int64(rnd.Intn(2)*300))
	fs, err := vcFileSet(dir, int(typeIndex), int(typeData))
	if err != nil {
		v.failf("open: %v", err)
	}
	defer func() { fs.close(); leaseSet.Close() }()
	buf := pool.Get()
	maxSeq := []uint64{3, 255, 256, 300, 520, 1275}[rnd.Intn(6)]
	next := uint64(1)
	pick := func() uint64 {
		switch rnd.Intn(12) {
		case 0: // block edges
			return uint64(255*rnd.Intn(5)) + uint64(rnd.Intn(3)) + 254*uint64(rnd.Intn(2)) + 1
		case 1, 2:
			return 1 + uint64(rnd.Int63n(int64(maxSeq)))
		case 3:
			if rnd.Intn(40) == 0 {
				return 255*40 + uint64(rnd.Intn(300))
			}
		}
		next++
		return next - 1
	}
	last := 0
	verify := func(when string) {
		r := newBlockReader(fs)
		probe := append([]uint64{}, order...)
		if len(probe) > 60 {
			for i := range probe {
				j := rnd.Intn(i + 1)
				probe[i], probe[j] = probe[j], probe[i]
			}
			probe = probe[:60]
			if tail := order[last:]; len(tail) <= 120 {
				probe = append(probe, tail...)
			}
		}
		for _, s := range probe {
			m := model[s]
			e, err := r.readEntry(s)
			if m.deleted {
				if err == nil {
					die("%s: deleted sequence %d is returned", when, s)
				}
				continue
			}
			if err != nil {
				die("%s: stored sequence %d: %v", when, s, err)
			}
			if e.seq != s || e.topicSize != m.topicSize || e.valueSize != m.valueSize {
				die("%s: sequence %d returned with other sizes", when, s)
			}
			id, val, err := r.readMessage(e)
			if err != nil {
				die("%s: message of %d: %v", when, s, err)
			}
			if !bytes.Equal(id, m.cache[:idSize]) || !bytes.Equal(val, m.cache[idSize+int(m.topicSize):]) {
				die("%s: sequence %d returns another message", when, s)
			}
			tp, err := r.readTopic(e)
			if err != nil || !bytes.Equal(tp, m.cache[idSize:idSize+int(m.topicSize)]) {
				die("%s: sequence %d returns another topic", when, s)
			}
		}
		for i := 0; i < 12; i++ {
			s := 1 + uint64(rnd.Intn(1400))
			if _, ok := model[s]; ok {
				continue
			}
			if e, err := r.readEntry(s); err == nil {
				die("%s: sequence %d was never stored but is returned as %d", when, s, e.seq)
			}
		}
	}
	w, err := newBlockWriter(fs, lease, buf)
	if err != nil {
		die("writer: %v", err)
	}
	// every record appended for a large block run at once, sometimes
	rounds := 1 + rnd.Intn(12)
	for i := 0; i < rounds; i++ {
		switch k := rnd.Intn(10); {
		case k < 5: // one sync wave
			cnt := []int{1, 2, 5, 40, 300, 700}[rnd.Intn(6)]
			upper := uint64(0)
			pend := map[uint64]bool{}
			var wave []uint64
			last = len(order)
			if rnd.Intn(3) == 0 { // several runs of blocks, apart from each other
				b := rnd.Intn(4)
				for r := 2 + rnd.Intn(4); r > 0; r-- {
					for l := 1 + rnd.Intn(6); l > 0; l-- {
						for k := 1 + rnd.Intn(3); k > 0; k-- {
							wave = append(wave, uint64(255*b+rnd.Intn(255))+1)
						}
						b++
					}
					b += 1 + rnd.Intn(3)
				}
				cnt = len(wave)
				rnd.Shuffle(cnt, func(i, j int) { wave[i], wave[j] = wave[j], wave[i] })
			}
			for j := 0; j < cnt; j++ {
				s := uint64(0)
				if wave != nil {
					s = wave[j]
				} else {
					s = pick()
				}
				ts, vs := 0, 1+rnd.Intn(40)
				if rnd.Intn(4) == 0 {
					ts = 1 + rnd.Intn(60)
				}
				if rnd.Intn(30) == 0 {
					vs = rnd.Intn(540)
				}
				rec := &vcIdxRec{cache: make([]byte, idSize+ts+vs), topicSize: uint16(ts), valueSize: uint32(vs)}
				rnd.Read(rec.cache)
				err := w.append(_IndexEntry{seq: s, topicSize: rec.topicSize, valueSize: rec.valueSize, cache: rec.cache})
				if _, dup := model[s]; dup {
					if err != errEntryExist {
						die("append of stored sequence %d: %v", s, err)
					}
					continue
				}
				if err != nil {
					die("append %d: %v", s, err)
				}
				rnd2 := append([]byte{}, rec.cache...)
				rec.cache = rnd2
				model[s] = rec
				order = append(order, s)
				pend[s] = true
				if s > upper {
					upper = s
				}
			}
			log("append %d up to %d", len(pend), upper)
			if upper == 0 {
				continue
			}
			if _, err := w.extend(upper); err != nil {
				die("extend: %v", err)
			}
			if err := w.write(); err != nil {
				die("write: %v", err)
			}
			if err := w.reset(); err != nil {
				die("reset: %v", err)
			}
			log("write")
			verify("after write")
		case k < 7: // delete through a writer of its own, as the database does
			if w, err = nil, nil; false {
				continue
			}
			for j := 0; j < 1+rnd.Intn(4); j++ {
				s := 1 + uint64(rnd.Intn(1400))
				if len(order) > 0 && rnd.Intn(4) > 0 {
					s = order[rnd.Intn(len(order))]
				}
				dw, err := newBlockWriter(fs, lease, nil)
				if err != nil {
					die("writer: %v", err)
				}
				e, err := dw.del(s)
				if err != nil {
					die("delete %d: %v", s, err)
				}
				m := model[s]
				if m == nil || m.deleted {
					if e.seq != 0 {
						die("delete of %d, which is not stored, returns an entry", s)
					}
					log("del missing %d", s)
					continue
				}
				if e.seq != s || e.mSize() != uint32(len(m.cache)) || e.msgOffset < 0 {
					die("delete of %d returns seq %d offset %d size %d", s, e.seq, e.msgOffset, e.mSize())
				}
				m.deleted = true
				lease.freeBlock(e.msgOffset, e.mSize())
				log("del %d", s)
			}
			if rnd.Intn(2) == 0 {
				lease.defrag()
			}
			verify("after delete")
			buf.Reset()
			if w, err = newBlockWriter(fs, lease, buf); err != nil {
				die("writer: %v", err)
			}
		case k < 9: // a new writer on the same files
			buf.Reset()
			if w, err = newBlockWriter(fs, lease, buf); err != nil {
				die("writer: %v", err)
			}
			log("new writer")
		default: // reopen the files
			fs.close()
			if fs, err = vcFileSet(dir, int(typeIndex), int(typeData)); err != nil {
				die("reopen: %v", err)
			}
			buf.Reset()
			if w, err = newBlockWriter(fs, lease, buf); err != nil {
				die("writer: %v", err)
			}
			log("reopen")
			verify("after reopen")
		}
	}
	v.eval(fmt.Sprintf("history %d: %d stored: %v", n, len(order), trace))
}
