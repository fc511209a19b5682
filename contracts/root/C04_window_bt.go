package unitdb

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"time"

	"github.com/unit-io/bpool"
	"github.com/unit-io/unitdb/message"
)

type vcWinTopic struct {
	hash    uint64
	parts   []message.Part
	depth   uint8
	raw     []byte
	entries []_WinEntry
}

// BT_C04_history: histories of adds, syncs, lookups and reopens over several
// topics through the real time window, window file, index file and trie,
// against a list per topic. Bounds: up to 7 topics, 14 steps, up to about 2000
// entries per topic (six window blocks).
func BT_C04_history(v *vcT) {
	tw := newTimeWindowBucket(&_TimeOptions{expDurationType: time.Minute, maxExpDurations: 1})
	for n := 0; !v.over() && n < 3000; n++ {
		vcWinHistory(v, n, tw)
	}
}

func vcWinHistory(v *vcT, n int, tw *_TimeWindowBucket) {
	rnd := rand.New(rand.NewSource(v.seed*104729 + int64(n)))
	dir := filepath.Join(v.dir, fmt.Sprint("w", n))
	os.MkdirAll(dir, 0755)
	defer os.RemoveAll(dir)
	pool := bpool.NewBufferPool(1<<20, nil)
	var trace []string
	log := func(f string, a ...interface{}) { trace = append(trace, fmt.Sprintf(f, a...)) }
	die := func(f string, a ...interface{}) {
		t := trace
		if len(t) > 40 {
			t = append([]string{"..."}, t[len(t)-40:]...)
		}
		v.failf("history %d: %s; after %v", n, fmt.Sprintf(f, a...), t)
	}
	var fs *_FileSet
	var db *DB
	open := func() {
		var err error
		if fs, err = vcFileSet(dir, int(typeTimeWindow), int(typeIndex), int(typeData), int(typeLease)); err != nil {
			v.failf("open: %v", err)
		}
		lf, err := fs.getFile(_FileDesc{fileType: typeLease})
		if err != nil {
			v.failf("open: %v", err)
		}
		db = &DB{fs: fs, internal: &_DB{reader: newBlockReader(fs), trie: newTrie(), timeWindow: tw, freeList: newLease(_FileSet{_File: lf}, 1<<30)}}
	}
	open()
	defer func() { fs.close() }()
	tw.windowBlocks = newWindowBlocks()
	now := uint32(time.Now().Unix())
	topics := make([]*vcWinTopic, 1+rnd.Intn(7))
	for i := range topics {
		t := &message.Topic{Topic: []byte(fmt.Sprintf("t%d.x", i))}
		t.Parse(1, true)
		t.AddContract(1)
		topics[i] = &vcWinTopic{hash: t.GetHash(1), parts: t.Parts, depth: t.Depth, raw: t.Marshal()}
	}
	seq, timeID := uint64(0), int64(1+rnd.Intn(1000))
	pending := map[int64]map[uint64][]_WinEntry{}
	lookup := func(when string) {
		for i, t := range topics {
			off, ok := db.internal.trie.getOffset(t.hash)
			if len(t.entries) > 0 && !ok {
				die("%s: topic %d with %d entries is not known", when, i, len(t.entries))
			}
			limits := []int{1, 5, len(t.entries), len(t.entries) + 1, 100000}
			if len(t.entries) > 1 {
				limits = append(limits, len(t.entries)-1, 1+rnd.Intn(len(t.entries)), 1+rnd.Intn(len(t.entries)))
			}
			for _, l := range limits {
				if l == 0 {
					continue
				}
				var want []uint64
				for j := len(t.entries) - 1; j >= 0 && len(want) < l; j-- {
					if e := t.entries[j]; e.expiresAt == 0 || e.expiresAt > now+500 {
						want = append(want, e.sequence)
					}
				}
				got := tw.lookup(fs, t.hash, off, 0, l)
				if len(got) != len(want) {
					die("%s: lookup of topic %d with limit %d returns %d of %d entries", when, i, l, len(got), len(want))
				}
				for k := range got {
					if got[k].seq() != want[k] {
						die("%s: lookup of topic %d with limit %d returns sequence %d in place %d, expected %d", when, i, l, got[k].seq(), k, want[k])
					}
				}
			}
		}
	}
	total := 0
	sync := func(all bool) {
		var ids []int64
		for id := range pending {
			if all || id < timeID {
				ids = append(ids, id)
			}
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		if len(ids) == 0 {
			return
		}
		rel := tw.release()
		ww, err := newWindowWriter(fs, pool.Get())
		if err != nil {
			die("writer: %v", err)
		}
		bw, err := newBlockWriter(fs, db.internal.freeList, pool.Get())
		if err != nil {
			die("writer: %v", err)
		}
		for _, id := range ids {
			upper := uint64(0)
			for h, es := range pending[id] {
				var t *vcWinTopic
				for _, x := range topics {
					if x.hash == h {
						t = x
					}
				}
				off, ok := db.internal.trie.getOffset(h)
				if !ok {
					die("topic lost")
				}
				for _, e := range es {
					raw := t.raw
					if off != 0 {
						raw = nil
					}
					c := append(append(make([]byte, idSize), raw...), 1, 2, 3)
					if err := bw.append(_IndexEntry{seq: e.sequence, topicSize: uint16(len(raw)), valueSize: 3, cache: c}); err != nil {
						die("index append: %v", err)
					}
					if e.sequence > upper {
						upper = e.sequence
					}
				}
				no, err := ww.append(h, off, es)
				if err != nil {
					die("window append: %v", err)
				}
				if !db.internal.trie.setOffset(_Topic{hash: h, offset: no}) {
					die("set offset")
				}
			}
			if _, err := bw.extend(upper); err != nil {
				die("extend: %v", err)
			}
			if err := ww.write(); err != nil {
				die("window write: %v", err)
			}
			if err := bw.write(); err != nil {
				die("index write: %v", err)
			}
			if err := ww.reset(); err != nil {
				die("window reset: %v", err)
			}
			if err := bw.reset(); err != nil {
				die("index reset: %v", err)
			}
			if err := rel(id); err != nil {
				die("release: %v", err)
			}
			delete(pending, id)
		}
		log("sync of %d time blocks", len(ids))
		lookup("after sync")
	}
	steps := 2 + rnd.Intn(13)
	for i := 0; i < steps; i++ {
		switch k := rnd.Intn(10); {
		case k < 6:
			for j := 0; j < 1+rnd.Intn(5); j++ {
				x := rnd.Intn(len(topics))
				t := topics[x]
				cnt := []int{1, 1, 2, 7, 60, 335, 336, 350, 700}[rnd.Intn(9)]
				if total+cnt > 5000 {
					cnt = 1
				}
				total += cnt
				if len(t.entries) == 0 {
					db.internal.trie.add(newTopic(t.hash, 0), t.parts, t.depth)
				}
				exp := rnd.Intn(3)
				for ; cnt > 0; cnt-- {
					seq++
					e := newWinEntry(seq, 0)
					switch {
					case exp == 0 && rnd.Intn(3) == 0:
						e.expiresAt = now - 10
					case exp == 0 && rnd.Intn(3) == 0:
						e.expiresAt = now + 100000
					}
					if !tw.add(timeID, t.hash, e) {
						die("add refused")
					}
					t.entries = append(t.entries, e)
					if pending[timeID] == nil {
						pending[timeID] = map[uint64][]_WinEntry{}
					}
					pending[timeID][t.hash] = append(pending[timeID][t.hash], e)
				}
				log("topic %d now has %d entries, time %d", x, len(t.entries), timeID)
			}
			if rnd.Intn(2) == 0 {
				timeID += 1 + int64(rnd.Intn(100))
			}
			if rnd.Intn(3) == 0 {
				lookup("after add")
			}
		case k < 8:
			sync(rnd.Intn(2) == 0)
			timeID++
		default:
			sync(true)
			timeID++
			fs.close()
			open()
			if err := db.loadTrie(); err != nil {
				die("load: %v", err)
			}
			for _, t := range topics {
				if len(t.entries) == 0 {
					continue
				}
				if x, ok := db.internal.trie.topicTrie.summary[t.hash]; !ok || x.depth != t.depth {
					die("topic is not reloaded")
				}
			}
			log("reopen")
			lookup("after reopen")
		}
	}
	lookup("at the end")
	sync(true)
	v.eval(fmt.Sprintf("history %d: %d entries in %d topics: %v", n, total, len(topics), trace))
}
