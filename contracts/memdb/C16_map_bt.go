package memdb

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"time"
)

// BT_C16_history: histories of put, batch, delete, free, reading, closing and
// reopening, over short and long time blocks; after each step every key is
// compared with a map. Where the store is reopened every key is put once.
// Bounds: up to 14 steps of up to 60 operations.
func BT_C16_history(v *vcT) {
	n := 600
	if v.thorough {
		n = 3000
	}
	vcCases(v, 10, n, vcMapHistory)
}

// BT_C16_concurrent: the same from four goroutines at once on keys of their own.
func BT_C16_concurrent(v *vcT) {
	n := 100
	if v.thorough {
		n = 500
	}
	vcCases(v, 4, n, vcMapConcurrent)
}

func vcCases(v *vcT, workers, n int, f func(v *vcT, i int)) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	next := 0
	seed := v.rnd.Int63()
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				next++
				stop := i >= n || len(v.fails) > 0 || v.over()
				mu.Unlock()
				if stop {
					return
				}
				w := &vcT{rnd: rand.New(rand.NewSource(seed + int64(i)*7919)), dir: filepath.Join(v.dir, fmt.Sprint("m", i)), nontriv: map[string]bool{}, deadline: v.deadline}
				os.MkdirAll(w.dir, 0755)
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(vcStop); !ok {
								w.fails = append(w.fails, fmt.Sprintf("panic: %v", r))
							}
						}
					}()
					f(w, i)
				}()
				os.RemoveAll(w.dir)
				mu.Lock()
				v.evals += w.evals
				v.fails = append(v.fails, w.fails...)
				for k := range w.nontriv {
					v.nontriv[k] = true
				}
				if len(v.samples) < 3 {
					v.samples = append(v.samples, w.samples...)
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if len(v.fails) > 0 {
		panic(vcStop{})
	}
}

type vcVal struct {
	timeID int64
	data   []byte
	batch  bool
}

type vcMemMap struct {
	v     *vcT
	rnd   *rand.Rand
	dir   string
	opts  []Options
	db    *DB
	vals  map[uint64]vcVal
	used  []uint64 // keys ever used
	trace []string
	again bool // a key may be put again while it is stored
	moved bool // reopened: time IDs are no longer those returned by Put
	twice map[uint64]bool

	once   bool // every key is put once
	handed map[uint64]bool
}

func (m *vcMemMap) log(f string, a ...interface{}) {
	m.trace = append(m.trace, fmt.Sprintf(f, a...))
	if len(m.trace) > 60 {
		m.trace = m.trace[1:]
	}
}
func (m *vcMemMap) fail(f string, a ...interface{}) {
	m.v.failf("%s; after %v", fmt.Sprintf(f, a...), m.trace)
}
func (m *vcMemMap) open() {
	db, err := Open(m.opts...)
	if err != nil {
		m.fail("Open: %v", err)
	}
	m.db = db
}
func (m *vcMemMap) key() uint64 {
	for {
		k := m.anyKey()
		if !m.once {
			return k
		}
		if !m.handed[k] {
			m.handed[k] = true
			return k
		}
	}
}
func (m *vcMemMap) anyKey() uint64 {
	switch m.rnd.Intn(4) {
	case 0:
		return uint64(m.rnd.Intn(60))
	case 1:
		return m.rnd.Uint64()
	case 2:
		return m.rnd.Uint64() >> uint(m.rnd.Intn(64))
	}
	// neighbours in all bytes of a key in use
	if len(m.used) == 0 {
		return 0
	}
	return m.used[m.rnd.Intn(len(m.used))] ^ 1<<uint(m.rnd.Intn(64))
}
func (m *vcMemMap) data() []byte {
	n := m.rnd.Intn(40)
	if m.rnd.Intn(15) == 0 {
		n = m.rnd.Intn(70000)
	}
	b := make([]byte, n)
	m.rnd.Read(b)
	return b
}
func (m *vcMemMap) put(k uint64) {
	if old, ok := m.vals[k]; ok && (!m.again || old.batch) {
		return
	}
	d := m.data()
	arg := append([]byte{}, d...)
	var id int64
	var err error
	for i := 0; i < 200; i++ {
		if id, err = m.db.Put(k, arg); err != errForbidden {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	if err != nil {
		m.fail("put %d: %v", k, err)
	}
	for i := range arg {
		arg[i] ^= 0xFF
	}
	m.set(k, vcVal{id, d, false})
	m.log("put %d (%d bytes) in %d", k, len(d), id)
}
func (m *vcMemMap) set(k uint64, val vcVal) {
	if old, ok := m.vals[k]; ok && old.timeID != val.timeID {
		m.twice[k] = true
	}
	m.vals[k] = val
	m.used = append(m.used, k)
}
func (m *vcMemMap) check(all bool) {
	for k, val := range m.vals {
		got, err := m.db.Get(k)
		if err != nil || !bytes.Equal(got, val.data) {
			m.fail("Get(%d) returns %d bytes, %v, want the %d bytes put last", k, len(got), err, len(val.data))
		}
		if !m.moved {
			got, err = m.db.Lookup(val.timeID, k)
			if err != nil || !bytes.Equal(got, val.data) {
				m.fail("Lookup(%d, %d) returns %d bytes, %v, want %d bytes", val.timeID, k, len(got), err, len(val.data))
			}
		}
		for i := range got {
			got[i] ^= 0xFF // what is returned is the caller's own
		}
	}
	for i := 0; i < 20; i++ {
		k := m.anyKey()
		if len(m.used) > 0 && i%2 == 0 {
			k = m.used[m.rnd.Intn(len(m.used))]
		}
		if _, ok := m.vals[k]; ok {
			continue
		}
		if got, err := m.db.Get(k); err == nil {
			m.fail("Get(%d) returns %d bytes, the key is not stored", k, len(got))
		}
	}
	if len(m.twice) == 0 {
		ks := m.db.Keys()
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		var want []uint64
		for k := range m.vals {
			want = append(want, k)
		}
		sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
		if fmt.Sprint(ks) != fmt.Sprint(want) {
			m.fail("Keys returns %v, want %v", ks, want)
		}
		if s := m.db.Size(); s != int64(len(want)) {
			m.fail("Size returns %d, want %d", s, len(want))
		}
	}
	m.v.eval(fmt.Sprintf("%d keys, %d operations", len(m.vals), len(m.used)))
}

func vcMapHistory(v *vcT, n int) {
	rnd := v.rnd
	m := &vcMemMap{v: v, rnd: rnd, dir: filepath.Join(v.dir, "db"), vals: map[uint64]vcVal{}, twice: map[uint64]bool{}, again: n%3 == 0, once: n%2 == 0, handed: map[uint64]bool{}}
	m.opts = []Options{WithLogFilePath(m.dir), WithLogInterval(time.Duration(2+rnd.Intn(8)) * time.Millisecond),
		WithTimeBlockInterval([]time.Duration{10 * time.Millisecond, 40 * time.Millisecond, time.Second}[rnd.Intn(3)])}
	m.open()
	for step, steps := 0, 4+rnd.Intn(10); step < steps && !v.over(); step++ {
		switch k := rnd.Intn(12); {
		case k < 4:
			for i, c := 0, 1+rnd.Intn(60)/(1+rnd.Intn(10)); i < c; i++ {
				m.put(m.key())
				if rnd.Intn(20) == 0 {
					time.Sleep(time.Duration(rnd.Intn(12)) * time.Millisecond)
				}
			}
		case k < 7:
			for i, c := 0, 1+rnd.Intn(12); i < c && len(m.used) > 0; i++ {
				k := m.used[rnd.Intn(len(m.used))]
				if rnd.Intn(6) == 0 {
					k = m.anyKey()
				}
				_, ok := m.vals[k]
				if m.twice[k] {
					continue
				}
				err := m.db.Delete(k)
				if ok != (err == nil) {
					m.fail("Delete(%d) of a key stored %v returns %v", k, ok, err)
				}
				delete(m.vals, k)
				m.log("delete %d", k)
			}
		case k < 10:
			fails := rnd.Intn(3) == 0
			managed := rnd.Intn(2) == 0
			type kv struct {
				k uint64
				d []byte
			}
			var puts []kv
			var ids []int64
			inside := map[uint64]bool{}
			stop := errors.New("stop")
			fn := func(b *Batch) error {
				for i, c := 0, rnd.Intn(12); i < c; i++ {
					k := m.key()
					if _, ok := m.vals[k]; ok || inside[k] {
						continue
					}
					inside[k] = true
					d := m.data()
					if err := b.Put(k, append([]byte{}, d...)); err != nil {
						return err
					}
					puts = append(puts, kv{k, d})
					ids = append(ids, b.TimeID())
					if rnd.Intn(6) == 0 {
						if err := b.Write(); err != nil {
							return err
						}
					}
				}
				if fails {
					return stop
				}
				return nil
			}
			var err error
			if managed {
				err = m.db.Batch(func(b *Batch, done <-chan struct{}) error { return fn(b) })
			} else {
				b := m.db.NewBatch()
				if err = fn(b); err == nil {
					err = b.Commit()
				} else {
					b.Abort()
				}
			}
			if fails && err != stop || !fails && err != nil {
				m.fail("batch failing %v returns %v", fails, err)
			}
			for i, p := range puts {
				m.used = append(m.used, p.k)
				if !fails {
					m.vals[p.k] = vcVal{ids[i], p.d, true}
				}
			}
			m.log("batch of %d, failing %v, managed %v", len(puts), fails, managed)
		case k < 11:
			if m.moved || len(m.vals) == 0 || len(m.twice) > 0 {
				break
			}
			// free the time block of some key
			var id int64
			for _, val := range m.vals {
				id = val.timeID
				break
			}
			time.Sleep(time.Duration(rnd.Intn(20)) * time.Millisecond)
			if err := m.db.Free(id); err != nil {
				m.fail("Free(%d): %v", id, err)
			}
			m.log("free %d", id)
			for k, val := range m.vals {
				if val.timeID == id {
					delete(m.vals, k)
				}
			}
		default:
			if !m.once {
				break
			}
			if err := m.db.Close(); err != nil {
				m.fail("Close: %v", err)
			}
			if _, err := m.db.Get(1); err == nil {
				m.fail("Get is accepted after Close")
			}
			if _, err := m.db.Put(1, []byte("x")); err == nil {
				m.fail("Put is accepted after Close")
			}
			if m.db.Delete(1) == nil {
				m.fail("Delete is accepted after Close")
			}
			m.log("reopen")
			m.open()
			m.moved = true
		}
		m.check(true)
	}
	m.db.Close()
}

func vcMapConcurrent(v *vcT, n int) {
	dir := filepath.Join(v.dir, "db")
	db, err := Open(WithLogFilePath(dir), WithLogInterval(2*time.Millisecond), WithTimeBlockInterval(8*time.Millisecond))
	if err != nil {
		v.failf("Open: %v", err)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	note := func(f string, a ...interface{}) {
		mu.Lock()
		v.fails = append(v.fails, fmt.Sprintf(f, a...))
		mu.Unlock()
	}
	total := 0
	for g := 0; g < 4; g++ {
		wg.Add(1)
		rnd := rand.New(rand.NewSource(v.rnd.Int63()))
		go func(g int) {
			defer wg.Done()
			vals := map[uint64][]byte{}
			var keys []uint64
			for i := 0; i < 150; i++ {
				switch rnd.Intn(6) {
				case 0, 1, 2:
					k := rnd.Uint64()&^3 | uint64(g)
					if _, ok := vals[k]; ok {
						continue
					}
					d := make([]byte, rnd.Intn(60))
					rnd.Read(d)
					if _, err := db.Put(k, d); err != nil {
						if err != errForbidden {
							note("put: %v", err)
						}
						continue
					}
					vals[k] = d
					keys = append(keys, k)
				case 3:
					if len(keys) == 0 {
						continue
					}
					k := keys[rnd.Intn(len(keys))]
					_, ok := vals[k]
					if err := db.Delete(k); ok != (err == nil) {
						note("Delete of a key stored %v returns %v", ok, err)
					}
					delete(vals, k)
				case 4:
					db.Keys()
					db.Size()
				default:
					if len(keys) == 0 {
						continue
					}
					k := keys[rnd.Intn(len(keys))]
					got, err := db.Get(k)
					want, ok := vals[k]
					if ok != (err == nil) || !bytes.Equal(got, want) {
						note("Get(%d) of a key stored %v returns %d bytes, %v, want %d bytes", k, ok, len(got), err, len(want))
					}
				}
				if rnd.Intn(10) == 0 {
					time.Sleep(time.Millisecond)
				}
			}
			for k, want := range vals {
				got, err := db.Get(k)
				if err != nil || !bytes.Equal(got, want) {
					note("at the end Get(%d) returns %d bytes, %v, want %d bytes", k, len(got), err, len(want))
				}
			}
			mu.Lock()
			total += len(vals)
			mu.Unlock()
		}(g)
	}
	wg.Wait()
	if s := db.Size(); s != int64(total) && len(v.fails) == 0 {
		note("Size returns %d, want %d", s, total)
	}
	db.Close()
	v.eval(fmt.Sprintf("concurrent, %d keys", total))
	if len(v.fails) > 0 {
		panic(vcStop{})
	}
}
