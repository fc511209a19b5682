package unitdb

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/unit-io/unitdb/memdb"
)

// What the bounded stand-ins over whole databases share. A model keeps the
// messages put; the database is driven through its exported interface only.
// Reflection reaches two internals: the in-memory store (to know when its log
// is committed) and the length of its time blocks (so that a sync does not have
// to wait for a second); without them the stand-ins only run slower.

// vcParallel runs n cases on their own goroutines, w at a time.
func vcParallel(v *vcT, w, n int, f func(v *vcT, i int)) {
	var next int64 = -1
	var wg sync.WaitGroup
	var mu sync.Mutex
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				mu.Lock()
				stop := len(v.fails) > 0
				mu.Unlock()
				if i >= n || stop || v.over() {
					return
				}
				c := &vcT{rnd: rand.New(rand.NewSource(v.seed*7919 + int64(i))), seed: v.seed, thorough: v.thorough,
					dir: filepath.Join(v.dir, fmt.Sprint("c", i)), nontriv: map[string]bool{}, deadline: v.deadline}
				os.MkdirAll(c.dir, 0755)
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(vcStop); !ok {
								c.fails = append(c.fails, fmt.Sprintf("case %d: panic: %v", i, r))
							}
						}
					}()
					f(c, i)
				}()
				os.RemoveAll(c.dir)
				mu.Lock()
				v.evals += c.evals
				for k := range c.nontriv {
					if len(v.nontriv) < 200000 {
						v.nontriv[k] = true
					}
				}
				if len(v.samples) < 3 {
					v.samples = append(v.samples, c.samples...)
				}
				v.fails = append(v.fails, c.fails...)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if len(v.fails) > 0 {
		panic(vcStop{})
	}
}

type vcMsg struct {
	id       []byte
	topic    string
	contract uint32
	payload  string
	exp      int64
	gone     bool // deleted, or put in a batch that failed
	open     bool // put in a batch not finished
}

type vcDB struct {
	v     *vcT
	rnd   *rand.Rand
	dir   string
	n     int // copies made
	made  int // payloads made
	opts  []Options
	db    *DB
	msgs  []*vcMsg
	trace []string

	unordered bool // compare queries without their order
}

func vcNewDB(v *vcT, opts ...Options) *vcDB {
	d := &vcDB{v: v, rnd: v.rnd, dir: filepath.Join(v.dir, "db0"), opts: append([]Options{WithMaxSyncDuration(time.Hour, 1)}, opts...)}
	d.open()
	return d
}

func (d *vcDB) log(f string, a ...interface{}) { d.trace = append(d.trace, fmt.Sprintf(f, a...)) }

func (d *vcDB) fail(f string, a ...interface{}) {
	t := d.trace
	if len(t) > 40 {
		t = append([]string{fmt.Sprintf("(%d earlier steps)", len(t)-40)}, t[len(t)-40:]...)
	}
	d.v.failf("%s; after %s", fmt.Sprintf(f, a...), strings.Join(t, ", "))
}

func (d *vcDB) open() {
	os.MkdirAll(d.dir, 0755)
	db, err := Open(d.dir, d.opts...)
	if err != nil {
		d.fail("open: %v", err)
	}
	d.db = db
	vcShortBlocks(db)
}

func vcField(v reflect.Value, name string) reflect.Value {
	for v.IsValid() && (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) {
		v = v.Elem()
	}
	if !v.IsValid() || v.Kind() != reflect.Struct {
		return reflect.Value{}
	}
	return v.FieldByName(name)
}

// vcMem is the in-memory store of the database.
func vcMem(db *DB) *memdb.DB {
	f := vcField(vcField(reflect.ValueOf(db), "internal"), "mem")
	if !f.IsValid() || f.Kind() != reflect.Ptr || f.Type() != reflect.TypeOf((*memdb.DB)(nil)) {
		return nil
	}
	return (*memdb.DB)(unsafe.Pointer(f.Pointer()))
}

func vcShortBlocks(db *DB) {
	m := vcMem(db)
	if m == nil {
		return
	}
	f := vcField(vcField(vcField(vcField(reflect.ValueOf(m), "internal"), "logManager"), "opts"), "blockDuration")
	if f.IsValid() && f.CanAddr() && f.Type() == reflect.TypeOf(time.Duration(0)) {
		*(*time.Duration)(unsafe.Pointer(f.UnsafeAddr())) = 5 * time.Millisecond
	}
}

// sync syncs until nothing is left in memory. Without the memory store it waits
// for the time blocks to pass.
func (d *vcDB) sync() {
	d.log("sync")
	m := vcMem(d.db)
	if m == nil {
		time.Sleep(1400 * time.Millisecond)
	}
	for end := time.Now().Add(4 * time.Second); ; time.Sleep(15 * time.Millisecond) {
		if err := d.db.Sync(); err != nil {
			d.fail("Sync: %v", err)
		}
		if m == nil || m.Size() == 0 || time.Now().After(end) {
			return
		}
	}
}

// committed waits until everything put so far is in the log.
func (d *vcDB) committed() {
	m := vcMem(d.db)
	if m == nil {
		time.Sleep(1500 * time.Millisecond)
		return
	}
	for end := time.Now().Add(8 * time.Second); time.Now().Before(end); time.Sleep(15 * time.Millisecond) {
		n := 0
		m.BlockIterator(func(timeID int64, keys []uint64) (bool, error) {
			n += len(keys)
			return false, nil
		})
		if int64(n) >= m.Size() {
			return
		}
	}
}

func (d *vcDB) reopen() {
	d.log("reopen")
	if err := d.db.Close(); err != nil {
		d.fail("Close: %v", err)
	}
	d.open()
}

// crash opens a copy of the database's files as they are now.
func (d *vcDB) crash() {
	d.log("crash")
	d.n++
	dst := filepath.Join(d.v.dir, fmt.Sprint("db", d.n))
	if err := vcCopyDir(d.dir, dst); err != nil {
		d.v.failf("copy: %v", err)
	}
	old := d.db
	olddir := d.dir
	d.dir = dst
	d.open()
	old.Close()
	os.RemoveAll(olddir)
}

func vcCopyDir(src, dst string) error {
	es, err := os.ReadDir(src)
	if err != nil {
		return err
	}
	if err := os.MkdirAll(dst, 0755); err != nil {
		return err
	}
	for _, e := range es {
		a, b := filepath.Join(src, e.Name()), filepath.Join(dst, e.Name())
		if e.IsDir() {
			if err := vcCopyDir(a, b); err != nil {
				return err
			}
			continue
		}
		if strings.HasSuffix(e.Name(), ".lock") {
			continue
		}
		f, err := os.Open(a)
		if err != nil {
			if os.IsNotExist(err) {
				continue
			}
			return err
		}
		g, err := os.Create(b)
		if err == nil {
			_, err = io.Copy(g, f)
			g.Close()
		}
		f.Close()
		if err != nil {
			return err
		}
		if st, err := os.Stat(a); err == nil {
			os.Chtimes(b, st.ModTime(), st.ModTime())
		}
	}
	return nil
}

func (d *vcDB) close() {
	if d.db != nil {
		d.db.Close()
	}
}

// payload makes a message of a random kind and size.
func (d *vcDB) payload(max int) string {
	d.made++
	head := fmt.Sprintf("m%d.", d.made)
	var n int
	switch d.rnd.Intn(5) {
	case 0:
		n = d.rnd.Intn(4)
	case 1:
		n = d.rnd.Intn(max + 1)
	default:
		n = d.rnd.Intn(60)
	}
	b := make([]byte, n)
	switch d.rnd.Intn(3) {
	case 0:
		d.rnd.Read(b)
	case 1:
		for i := range b {
			b[i] = byte(d.rnd.Intn(2))
		}
	}
	return head + string(b)
}

func (d *vcDB) entry(m *vcMsg, enc bool) *Entry {
	e := NewEntry([]byte(m.topic), []byte(m.payload))
	if m.id != nil {
		e = e.WithID(m.id)
	}
	if m.contract != 0 {
		e = e.WithContract(m.contract)
	}
	if enc {
		e = e.WithEncryption()
	}
	return e
}

// put stores one message; forbidden is a put between two time blocks, which may
// be repeated.
func (d *vcDB) put(m *vcMsg, enc bool) {
	for i := 0; ; i++ {
		err := d.db.PutEntry(d.entry(m, enc))
		if err == nil {
			break
		}
		if i > 100 || !strings.Contains(err.Error(), "refused") {
			d.fail("put %q on %q: %v", vcShort(m.payload), m.topic, err)
		}
		time.Sleep(10 * time.Millisecond)
	}
	d.msgs = append(d.msgs, m)
	d.log("put %d on %s/%d (%d bytes)", len(d.msgs)-1, m.topic, m.contract, len(m.payload))
}

func vcBase(topic string) string {
	if i := strings.IndexByte(topic, '?'); i >= 0 {
		return topic[:i]
	}
	return topic
}

// want is what a query for a static topic returns, newest first; sure is false
// when a message expires about now.
func (d *vcDB) want(topic string, contract uint32, t0, t1 int64) (w []string, sure bool) {
	sure = true
	for i := len(d.msgs) - 1; i >= 0; i-- {
		m := d.msgs[i]
		if m.gone || m.open || vcBase(m.topic) != topic || m.contract != contract {
			continue
		}
		if m.exp != 0 {
			if m.exp <= t0 {
				continue
			}
			if m.exp <= t1 {
				sure = false
			}
		}
		w = append(w, m.payload)
	}
	return w, sure
}

func (d *vcDB) get(topic string, contract uint32, limit int) []string {
	q := NewQuery([]byte(topic)).WithLimit(limit)
	if contract != 0 {
		q = q.WithContract(contract)
	}
	items, err := d.db.Get(q)
	if err != nil {
		d.fail("query %s/%d: %v", topic, contract, err)
	}
	r := []string{}
	for _, it := range items {
		r = append(r, string(it))
	}
	return r
}

// verify compares a query for every topic and contract put on with the model.
func (d *vcDB) verify(when string) {
	type key struct {
		topic    string
		contract uint32
	}
	seen := map[key]bool{}
	var keys []key
	for _, m := range d.msgs {
		k := key{vcBase(m.topic), m.contract}
		if !seen[k] {
			seen[k] = true
			keys = append(keys, k)
		}
	}
	for _, k := range keys {
		for try := 0; ; try++ {
			t0 := time.Now().Unix()
			got := d.get(k.topic, k.contract, 50000)
			t1 := time.Now().Unix()
			want, sure := d.want(k.topic, k.contract, t0, t1)
			if !sure && try < 5 {
				time.Sleep(200 * time.Millisecond)
				continue
			}
			d.v.eval(fmt.Sprintf("%s: %s %d messages", when, k.topic, len(want)))
			if d.unordered {
				sort.Strings(got)
				sort.Strings(want)
			}
			if !reflect.DeepEqual(append([]string{}, got...), append([]string{}, want...)) {
				d.fail("%s: query %s/%d returns %s, want %s", when, k.topic, k.contract, vcList(got), vcList(want))
			}
			break
		}
	}
}

func vcShort(s string) string {
	if len(s) > 16 {
		return fmt.Sprintf("%q+%d", s[:12], len(s)-12)
	}
	return fmt.Sprintf("%q", s)
}

func vcList(l []string) string {
	var b bytes.Buffer
	fmt.Fprintf(&b, "%d [", len(l))
	for i, s := range l {
		if i == 12 {
			b.WriteString(" ...")
			break
		}
		b.WriteString(" " + vcShort(s))
	}
	b.WriteString(" ]")
	return b.String()
}

func vcSortU64(a []uint64) { sort.Slice(a, func(i, j int) bool { return a[i] < a[j] }) }
