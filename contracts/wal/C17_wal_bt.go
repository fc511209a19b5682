package wal

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"time"
)

type vcLog struct {
	id      int64
	records [][]byte
	bad     bool
}

// BT_C17_history: histories of logs written one after another or at once,
// released, damaged and read back after reopening; what is read is compared
// with what was written. Bounds: up to 10 reopenings, 12 logs between them, 20
// records per log, records up to 200000 bytes.
func BT_C17_history(v *vcT) {
	n := 150
	if v.thorough {
		n = 2500
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	next := 0
	seeds := make([]int64, n)
	for i := range seeds {
		seeds[i] = v.rnd.Int63()
	}
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				next++
				stop := i >= n || len(v.fails) > 0 || v.over()
				mu.Unlock()
				if stop {
					return
				}
				w := &vcT{rnd: rand.New(rand.NewSource(seeds[i])), dir: filepath.Join(v.dir, fmt.Sprint("w", i)), nontriv: map[string]bool{}, deadline: v.deadline}
				os.MkdirAll(w.dir, 0755)
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(vcStop); !ok {
								w.fails = append(w.fails, fmt.Sprintf("panic: %v", r))
							}
						}
					}()
					vcWalHistory(w, i)
				}()
				os.RemoveAll(w.dir)
				mu.Lock()
				v.evals += w.evals
				v.fails = append(v.fails, w.fails...)
				for k := range w.nontriv {
					v.nontriv[k] = true
				}
				if len(v.samples) < 3 {
					v.samples = append(v.samples, w.samples...)
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if len(v.fails) > 0 {
		panic(vcStop{})
	}
}

func vcWalHistory(v *vcT, n int) {
	rnd := v.rnd
	dir := filepath.Join(v.dir, "logs")
	opts := Options{Path: dir, BufferSize: 1 << 26}
	var trace []string
	fail := func(f string, a ...interface{}) {
		v.failf("%s; after %v", fmt.Sprintf(f, a...), trace)
	}
	var logs []*vcLog // in the order written
	ascending := n%2 == 0
	nextID := int64(1 + rnd.Intn(1000))
	newID := func() int64 {
		if ascending {
			nextID += int64(1 + rnd.Intn(1<<uint(rnd.Intn(40))))
			return nextID
		}
		for {
			id := rnd.Int63n(1 << uint(2+rnd.Intn(60)))
			if rnd.Intn(8) == 0 {
				id = -id
			}
			fresh := true
			for _, l := range logs {
				fresh = fresh && l.id != id
			}
			if fresh {
				return id
			}
		}
	}
	made := 0
	record := func() []byte {
		made++
		size := rnd.Intn(30)
		switch rnd.Intn(12) {
		case 0:
			size = rnd.Intn(200000)
		case 1:
			size = 4000 + rnd.Intn(200)
		case 2:
			size = 0
		}
		b := make([]byte, size+1)
		rnd.Read(b)
		return b
	}
	write := func(w *WAL, l *vcLog) error {
		lw, err := w.NewWriter()
		if err != nil {
			return err
		}
		for _, r := range l.records {
			c := append([]byte{}, r...)
			if err := <-lw.Append(c); err != nil {
				return err
			}
			for i := range c {
				c[i] = 0xAA // the log has its own copy
			}
		}
		return <-lw.SignalInitWrite(l.id)
	}
	newLog := func() *vcLog {
		l := &vcLog{id: newID()}
		for i, c := 0, 1+rnd.Intn(20)/(1+rnd.Intn(10)); i < c; i++ {
			l.records = append(l.records, record())
		}
		return l
	}
	read := func(w *WAL, want []*vcLog, ordered bool) {
		r, err := w.NewReader()
		if err != nil {
			fail("NewReader: %v", err)
		}
		var got []*vcLog
		err = r.Iterator(func(id int64) (bool, error) {
			l := &vcLog{id: id}
			for c := r.Count(); ; c-- {
				if r.Count() != c {
					fail("log %d: %d records left, want %d", id, r.Count(), c)
				}
				data, ok, err := r.Next()
				if err != nil {
					fail("log %d: Next: %v", id, err)
				}
				if !ok {
					if c != 0 {
						fail("log %d ends with %d records left", id, c)
					}
					break
				}
				l.records = append(l.records, data)
			}
			if len(l.records) > 0 {
				got = append(got, l)
			}
			return false, nil
		})
		if err != nil {
			fail("Iterator: %v", err)
		}
		var exp []*vcLog
		for _, l := range want {
			if !l.bad {
				exp = append(exp, l)
			}
		}
		if !ordered {
			sort.Slice(got, func(i, j int) bool { return got[i].id < got[j].id })
			sort.Slice(exp, func(i, j int) bool { return exp[i].id < exp[j].id })
		}
		ids := func(ls []*vcLog) (s string) {
			for _, l := range ls {
				s += fmt.Sprintf(" %d(%d)", l.id, len(l.records))
			}
			return
		}
		if len(got) != len(exp) {
			fail("read logs%s, want%s", ids(got), ids(exp))
		}
		for i := range exp {
			if got[i].id != exp[i].id || len(got[i].records) != len(exp[i].records) {
				fail("read logs%s, want%s", ids(got), ids(exp))
			}
			for k := range exp[i].records {
				if !bytes.Equal(got[i].records[k], exp[i].records[k]) {
					fail("record %d of log %d is read back with other bytes (%d, want %d)", k, exp[i].id, len(got[i].records[k]), len(exp[i].records[k]))
				}
			}
		}
		v.eval(fmt.Sprintf("%d logs read, ordered %v", len(exp), ordered))
		// a reader stops when told to
		if len(exp) > 1 && rnd.Intn(2) == 0 {
			r, err := w.NewReader()
			if err != nil {
				fail("NewReader: %v", err)
			}
			stop := errors.New("stop")
			k := 0
			err = r.Iterator(func(id int64) (bool, error) { k++; return false, stop })
			if k > 1 || (k == 1 && err != stop) {
				fail("a failing iteration is called %d times and returns %v", k, err)
			}
		}
	}
	w, err := New(opts)
	if err != nil {
		fail("New: %v", err)
	}
	ordered := true
	for step, steps := 0, 2+rnd.Intn(8); step < steps && !v.over(); step++ {
		for i, c := 0, rnd.Intn(12); i < c; i++ {
			switch k := rnd.Intn(10); {
			case k < 5:
				l := newLog()
				if err := write(w, l); err != nil {
					fail("write: %v", err)
				}
				logs = append(logs, l)
				if !ascending {
					time.Sleep(12 * time.Millisecond)
				}
				trace = append(trace, fmt.Sprintf("write %d(%d)", l.id, len(l.records)))
			case k < 7:
				ls := make([]*vcLog, 2+rnd.Intn(3))
				errs := make([]error, len(ls))
				var wg sync.WaitGroup
				for i := range ls {
					ls[i] = newLog()
					for j := 0; j < i; j++ {
						if ls[j].id == ls[i].id {
							ls[i].id++
						}
					}
					wg.Add(1)
					go func(i int) {
						defer wg.Done()
						errs[i] = write(w, ls[i])
					}(i)
				}
				wg.Wait()
				for i, err := range errs {
					if err != nil {
						fail("write %d at once: %v", ls[i].id, err)
					}
				}
				ordered = false
				logs = append(logs, ls...)
				trace = append(trace, fmt.Sprintf("write %d at once", len(ls)))
			case len(logs) > 0:
				j := rnd.Intn(len(logs))
				if logs[j].bad {
					break
				}
				if err := w.SignalLogApplied(logs[j].id); err != nil {
					fail("release: %v", err)
				}
				trace = append(trace, fmt.Sprintf("release %d", logs[j].id))
				logs = append(logs[:j:j], logs[j+1:]...)
			}
		}
		// releasing what is not there changes nothing
		if rnd.Intn(4) == 0 {
			if err := w.SignalLogApplied(newID()); err != nil {
				fail("release of no log: %v", err)
			}
		}
		if err := w.Close(); err != nil {
			fail("Close: %v", err)
		}
		if rnd.Intn(3) == 0 {
			for i, c := 0, 1+rnd.Intn(3); i < c; i++ {
				vcDamage(v, dir, logs, &trace)
			}
		}
		trace = append(trace, "reopen")
		if w, err = New(opts); err != nil {
			fail("New: %v", err)
		}
		read(w, logs, ordered)
		var left []*vcLog
		for _, l := range logs {
			if !l.bad {
				left = append(left, l)
			}
		}
		logs = left
	}
	w.Close()
	// a reset store is empty
	opts.Reset = true
	if w, err = New(opts); err != nil {
		fail("New with reset: %v", err)
	}
	w.Close()
	opts.Reset = false
	if w, err = New(opts); err != nil {
		fail("New: %v", err)
	}
	read(w, nil, true)
	w.Close()
}

// vcDamage damages one log file so that it is no longer a log that was written,
// or adds a file that is none.
func vcDamage(v *vcT, dir string, logs []*vcLog, trace *[]string) {
	rnd := v.rnd
	if rnd.Intn(4) == 0 {
		name := []string{"abc.log", ".log", "log", "x", "12x.log", "77.tmp", "7.CORRUPT"}[rnd.Intn(7)]
		b := make([]byte, rnd.Intn(60))
		rnd.Read(b)
		os.WriteFile(filepath.Join(dir, name), b, 0644)
		*trace = append(*trace, "stray "+name)
		return
	}
	if len(logs) == 0 {
		return
	}
	l := logs[rnd.Intn(len(logs))]
	if l.bad {
		return
	}
	file := filepath.Join(dir, fmt.Sprintf("%d.log", l.id))
	b, err := os.ReadFile(file)
	if err != nil {
		return // stored some other way
	}
	st, _ := os.Stat(file)
	what := ""
	switch rnd.Intn(5) {
	case 0:
		b = b[:rnd.Intn(len(b))]
		what = fmt.Sprintf("truncated to %d", len(b))
	case 1:
		b = b[:len(b)-1-rnd.Intn(3)]
		what = "cut short"
	case 2:
		extra := make([]byte, 1+rnd.Intn(20))
		b = append(b, extra...)
		what = "extended"
	case 3:
		i := 2 + rnd.Intn(16)
		b[i] ^= byte(1 + rnd.Intn(255))
		what = fmt.Sprintf("header byte %d changed", i)
	case 4:
		// a record length
		off, k := 18, rnd.Intn(len(l.records))
		for i := 0; i < k; i++ {
			off += 4 + len(l.records[i])
		}
		if off+4 > len(b) {
			return
		}
		if k == len(l.records)-1 || rnd.Intn(2) == 0 {
			i := rnd.Intn(4)
			if k != len(l.records)-1 && i < 2 {
				i = 3 // past the end
			}
			b[off+i] ^= byte(1 + rnd.Intn(255))
		} else {
			binary.LittleEndian.PutUint32(b[off:], uint32(rnd.Intn(4)))
		}
		what = fmt.Sprintf("length of record %d changed", k)
	}
	if os.WriteFile(file, b, 0644) != nil {
		return
	}
	os.Chtimes(file, st.ModTime(), st.ModTime())
	l.bad = true
	*trace = append(*trace, fmt.Sprintf("log %d %s", l.id, what))
}
