package unitdb

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/unit-io/unitdb/message"
)

// The operating system's file functions call os.VcHook before they change
// anything (an overlay of package os, see vcgen). At each such point the
// database's directory is what a crash of the process there would leave.

var vcHooks struct {
	sync.RWMutex
	dirs map[string]func(op string)
	late map[string]func(op string) // called besides; may put
}

func vcLateDir(dir string, f func(op string)) {
	vcHooks.Lock()
	defer vcHooks.Unlock()
	delete(vcHooks.late, dir)
	if f != nil {
		vcHooks.late[dir] = f
	}
}

func vcHookDir(dir string, f func(op string)) {
	vcHooks.Lock()
	defer vcHooks.Unlock()
	if f == nil {
		delete(vcHooks.dirs, dir)
		return
	}
	vcHooks.dirs[dir] = f
}

func vcInstallHook() {
	vcHooks.dirs = map[string]func(string){}
	vcHooks.late = map[string]func(string){}
	os.VcHook = func(op, name string) {
		vcHooks.RLock()
		var f, late func(string)
		for dir, g := range vcHooks.late {
			if strings.HasPrefix(name, dir+"/") {
				late = g
			}
		}
		for dir, g := range vcHooks.dirs {
			if strings.HasPrefix(name, dir+"/") {
				f = g
				break
			}
		}
		vcHooks.RUnlock()
		// a file opened or made holds nothing yet: the next operation is copied
		if f != nil && op != "mkdir" && op != "open" && !strings.HasSuffix(name, ".lock") {
			f(op + " " + filepath.Base(name))
		}
		if late != nil {
			late(op + " " + filepath.Base(name))
		}
	}
}

// BT_C18_crashes: histories of put, batch, delete, log commit, sync and reopen;
// the directory is copied before the file operations of syncs, log releases,
// closing and recovery, and each copy is opened: every message committed to the
// log before and not deleted is returned once, nothing is returned twice or
// that was not put, and new sequence numbers are larger. Copies are also taken
// while a copy is recovered. Bounds: up to 10 steps, 25 messages per step, 24
// crash points per history (half of them as early as possible after a random
// one).
func BT_C18_crashes(v *vcT) {
	vcInstallHook()
	n := 260
	if v.thorough {
		n = 1500
	}
	vcParallel(v, 8, n, vcCrashHistory)
}

type vcImage struct {
	dir       string
	at        string
	committed map[*vcMsg]bool
	deleted   map[*vcMsg]bool
	msgs      []*vcMsg
	depth     int
	trace     []string
}

func vcCrashHistory(v *vcT, n int) {
	rnd := v.rnd
	opts := []Options{WithMutable(), WithFreeBlockSize([]int64{1, 1 << 20}[rnd.Intn(2)])}
	d := vcNewDB(v, opts...)
	d.unordered = true
	topics := []string{"a.b", "a", "x.y.z"}[:1+rnd.Intn(3)]
	committed := map[*vcMsg]bool{}
	deleted := map[*vcMsg]bool{}
	var mu sync.Mutex
	var images []*vcImage
	taken, skip := 0, rnd.Intn(12)
	// watch takes copies of the directory at some of the coming operations
	watch := func(dir, what string, depth int, base *vcImage, limit int) {
		vcHookDir(dir, func(op string) {
			mu.Lock()
			defer mu.Unlock()
			if skip > 0 {
				skip--
				return
			}
			if limit == 0 || v.over() {
				return
			}
			limit--
			skip = rnd.Intn(1 + rnd.Intn(9))
			taken++
			im := &vcImage{dir: filepath.Join(v.dir, fmt.Sprint("im", taken)), at: what + ", before " + op, depth: depth,
				committed: map[*vcMsg]bool{}, deleted: map[*vcMsg]bool{}}
			if base != nil {
				im.committed, im.deleted, im.msgs, im.trace = base.committed, base.deleted, base.msgs, base.trace
				im.at = base.at + "; " + im.at
			} else {
				for m := range committed {
					im.committed[m] = true
				}
				for m := range deleted {
					im.deleted[m] = true
				}
				im.msgs = append(im.msgs, d.msgs...)
				im.trace = append(im.trace, d.trace...)
			}
			if err := vcCopyDir(dir, im.dir); err != nil {
				v.fails = append(v.fails, fmt.Sprint("copy: ", err))
				return
			}
			images = append(images, im)
		})
	}
	check := func() {
		for len(images) > 0 {
			mu.Lock()
			im := images[0]
			images = images[1:]
			mu.Unlock()
			if v.over() {
				continue
			}
			c := &vcDB{v: v, rnd: rnd, dir: im.dir, opts: d.opts, trace: append(append([]string{}, im.trace...), "crash at "+im.at)}
			if im.depth == 0 && rnd.Intn(3) == 0 {
				watch(c.dir, "recovery", 1, im, 2)
			}
			c.open()
			vcHookDir(c.dir, nil)
			vcCrashCheck(c, im, "reopened")
			var top uint64
			for _, m := range im.msgs {
				if s := message.ID(m.id).Sequence(); im.committed[m] && !im.deleted[m] && s > top {
					top = s
				}
			}
			id := c.db.NewID()
			if s := message.ID(id).Sequence(); s <= top {
				c.fail("the new ID has sequence number %d, message %d was committed", s, top)
			}
			more := &vcMsg{topic: topics[0], id: append([]byte{}, id...), payload: fmt.Sprintf("after%d", taken)}
			c.put(more, false)
			im.msgs = append(append([]*vcMsg{}, im.msgs...), more)
			com := map[*vcMsg]bool{more: true}
			for m := range im.committed {
				com[m] = true
			}
			im.committed = com
			if rnd.Intn(2) == 0 {
				c.sync()
				vcCrashCheck(c, im, "synced")
			}
			c.reopen()
			vcCrashCheck(c, im, "reopened again")
			c.close()
			os.RemoveAll(im.dir)
		}
	}
	defer vcHookDir(d.dir, nil)
	watched := func(what string) {
		if rnd.Intn(3) != 0 {
			mu.Lock()
			skip = rnd.Intn(1 + rnd.Intn(40))
			mu.Unlock()
			watch(d.dir, what, 0, nil, 1+rnd.Intn(5))
		}
	}
	for step, steps := 0, 3+rnd.Intn(7); step < steps && !v.over(); step++ {
		vcHookDir(d.dir, nil)
		switch k := rnd.Intn(10); {
		case k < 4:
			// messages put while the log is being written
			var lateMu sync.Mutex
			var late []*vcMsg
			if limit := rnd.Intn(6); limit > 1 {
				pass := rnd.Intn(6)
				vcLateDir(d.dir, func(op string) {
					lateMu.Lock()
					defer lateMu.Unlock()
					if pass--; pass >= 0 || limit == 0 || !strings.HasPrefix(op, "write ") || !strings.Contains(op, ".tmp") {
						return
					}
					limit--
					m := &vcMsg{topic: topics[0], id: d.db.NewID(), payload: fmt.Sprintf("late%d.%d", step, limit)}
					if d.db.PutEntry(d.entry(m, false)) == nil {
						late = append(late, m)
					}
				})
			}
			for i, c := 0, 1+rnd.Intn(25)/(1+rnd.Intn(8)); i < c; i++ {
				m := &vcMsg{topic: topics[rnd.Intn(len(topics))], id: d.db.NewID(), payload: d.payload(200)}
				d.put(m, rnd.Intn(5) == 0)
			}
			d.committed()
			vcLateDir(d.dir, nil)
			lateMu.Lock()
			d.msgs = append(d.msgs, late...)
			d.log("%d put while the log was written", len(late))
			lateMu.Unlock()
			fallthrough
		case k < 5:
			d.committed()
			d.log("committed")
			for _, m := range d.msgs {
				committed[m] = true
			}
		case k < 6:
			var ms []*vcMsg
			if err := d.db.Batch(func(b *Batch, completed <-chan struct{}) error {
				for i, c := 0, 1+rnd.Intn(6); i < c; i++ {
					m := &vcMsg{topic: topics[rnd.Intn(len(topics))], id: d.db.NewID(), payload: d.payload(100)}
					if err := b.PutEntry(d.entry(m, false)); err != nil {
						return err
					}
					ms = append(ms, m)
				}
				return nil
			}); err != nil {
				d.fail("batch: %v", err)
			}
			d.log("batch of %d", len(ms))
			d.msgs = append(d.msgs, ms...)
			for _, m := range ms {
				committed[m] = true
			}
		case k < 7:
			for i, c := 0, 1+rnd.Intn(3); i < c && len(d.msgs) > 0; i++ {
				j := rnd.Intn(len(d.msgs))
				m := d.msgs[j]
				if deleted[m] {
					continue
				}
				// until it returns the message may be there or not
				deleted[m] = true
				m.gone = true
				watched("delete")
				if err := d.db.Delete(m.id, []byte(m.topic)); err != nil {
					d.fail("delete: %v", err)
				}
				vcHookDir(d.dir, nil)
				d.log("delete %d", j)
			}
		case k < 9:
			watched("sync")
			d.sync()
		default:
			watched("close or open")
			d.reopen()
			vcHookDir(d.dir, nil)
			for _, m := range d.msgs {
				committed[m] = true
			}
		}
		vcHookDir(d.dir, nil)
		check()
	}
	// a crash with whatever is in memory
	for _, what := range []string{"end", "synced end"} {
		if what == "synced end" {
			watched("last sync")
			d.sync()
			vcHookDir(d.dir, nil)
			for _, m := range d.msgs {
				committed[m] = true
			}
			check()
		}
		d.n++
		im := &vcImage{dir: filepath.Join(v.dir, fmt.Sprint("end", d.n)), at: what, committed: committed, deleted: deleted, msgs: d.msgs, trace: d.trace}
		if err := vcCopyDir(d.dir, im.dir); err != nil {
			v.failf("copy: %v", err)
		}
		images = append(images, im)
		check()
	}
	d.close()
}

// vcCrashCheck compares what is returned with what was committed before the crash.
func vcCrashCheck(c *vcDB, im *vcImage, when string) {
	c.log("%s", when)
	byPayload := map[string]*vcMsg{}
	for _, m := range im.msgs {
		byPayload[m.topic+"\x00"+m.payload] = m
	}
	seen := map[*vcMsg]bool{}
	topics := map[string]bool{}
	for _, m := range im.msgs {
		topics[m.topic] = true
	}
	var names []string
	for t := range topics {
		names = append(names, t)
	}
	sort.Strings(names)
	for _, t := range names {
		for _, p := range c.get(t, 0, 50000) {
			m := byPayload[t+"\x00"+p]
			if m == nil {
				c.fail("%s: a query for %s returns %s, which was not put", when, t, vcShort(p))
			}
			if seen[m] {
				c.fail("%s: a query for %s returns %s twice", when, t, vcShort(p))
			}
			seen[m] = true
		}
	}
	for _, m := range im.msgs {
		if im.committed[m] && !im.deleted[m] && !seen[m] {
			c.fail("%s: message %s on %s was committed to the log and is not returned", when, vcShort(m.payload), m.topic)
		}
	}
	c.v.eval(fmt.Sprintf("%s: %d messages, %s", when, len(seen), im.at))
}
