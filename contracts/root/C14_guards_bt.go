package unitdb

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/unit-io/unitdb/message"
)

// BT_C14_refused: each kind of request the statement refuses, at every entry
// point, in databases with different contents; the error, the next sequence
// number, the count, the keys in memory and every topic's query are compared.
// Bounds: topics of 0, 1, 65535, 65536, 65537 and 70000 bytes, payloads of 0, 1
// and 2^30+1 bytes, IDs of 0 to 20 bytes, 5 databases.
func BT_C14_refused(v *vcT) {
	n := 5
	if v.thorough {
		n = 60
	}
	big := make([]byte, 1<<30+1)
	for i := 0; i < n && !v.over(); i++ {
		v.sub(fmt.Sprint("g", i), func(w *vcT) { vcGuards(w, i, big) })
	}
}

type vcCall struct {
	name string
	want string // part of the error, "" for any error
	run  func() error
}

func vcGuards(v *vcT, n int, big []byte) {
	var opts []Options
	mutable := n%2 == 0
	if mutable {
		opts = append(opts, WithMutable())
	}
	if n%3 == 1 {
		opts = append(opts, WithEncryption())
	}
	d := vcNewDB(v, opts...)
	defer d.close()
	for i, c := 0, v.rnd.Intn(12)+1; i < c; i++ {
		d.put(&vcMsg{topic: []string{"a.b", "a", "x.y.z"}[v.rnd.Intn(3)], id: d.db.NewID(), payload: d.payload(60)}, false)
		if v.rnd.Intn(6) == 0 {
			d.sync()
		}
	}
	const (
		empty   = "Topic is empty"
		large   = "Topic is too large"
		noValue = "Payload is empty"
		noID    = "Message ID is empty"
		bad     = "invalid"
		immut   = "immutable"
	)
	long := func(n int) []byte { return []byte("a." + strings.Repeat("t", n-2)) }
	topic := []byte("a.b")
	val := []byte("payload")
	id := append([]byte{}, d.msgs[0].id...)
	// every way to put: each is given a topic, a payload and an ID
	type put struct {
		name string
		f    func(topic, payload, id []byte) error
	}
	entry := func(topic, payload, id []byte) *Entry {
		e := NewEntry(topic, payload)
		if id != nil {
			e = e.WithID(id)
		}
		return e
	}
	batch := func(f func(b *Batch) error) error {
		var err error
		berr := d.db.Batch(func(b *Batch, completed <-chan struct{}) error {
			err = f(b)
			return errors.New("stop")
		})
		if err == nil && berr != nil && berr.Error() != "stop" {
			err = berr
		}
		return err
	}
	puts := []put{
		{"PutEntry", func(t, p, id []byte) error { return d.db.PutEntry(entry(t, p, id)) }},
		{"batch PutEntry", func(t, p, id []byte) error {
			return batch(func(b *Batch) error { return b.PutEntry(entry(t, p, id)) })
		}},
		{"Put", func(t, p, id []byte) error {
			if id != nil {
				return d.db.PutEntry(entry(t, p, id))
			}
			return d.db.Put(t, p)
		}},
		{"batch Put", func(t, p, id []byte) error {
			return batch(func(b *Batch) error {
				if id != nil {
					return b.PutEntry(entry(t, p, id))
				}
				return b.Put(t, p)
			})
		}},
	}
	dels := []put{
		{"Delete", func(t, _, id []byte) error { return d.db.Delete(id, t) }},
		{"DeleteEntry", func(t, _, id []byte) error { return d.db.DeleteEntry(entry(t, nil, id)) }},
		{"batch Delete", func(t, _, id []byte) error { return batch(func(b *Batch) error { return b.Delete(id, t) }) }},
		{"batch DeleteEntry", func(t, _, id []byte) error {
			return batch(func(b *Batch) error { return b.DeleteEntry(entry(t, nil, id)) })
		}},
	}
	var calls []vcCall
	add := func(name, want string, run func() error) { calls = append(calls, vcCall{name, want, run}) }
	for _, p := range puts {
		p := p
		add(p.name+" without topic", empty, func() error { return p.f(nil, val, nil) })
		add(p.name+" with empty topic and ID", empty, func() error { return p.f([]byte{}, val, d.db.NewID()) })
		for _, l := range []int{65537, 70000} {
			l := l
			add(fmt.Sprint(p.name, " with topic of ", l), large, func() error { return p.f(long(l), val, nil) })
		}
		add(p.name+" without payload", noValue, func() error { return p.f(topic, nil, nil) })
		add(p.name+" with empty payload", noValue, func() error { return p.f(topic, []byte{}, d.db.NewID()) })
		add(p.name+" with large payload", "too large", func() error { return p.f(topic, big, nil) })
		for l := 1; l <= 20; l++ {
			if l == len(id) {
				continue
			}
			raw := bytes.Repeat([]byte{7}, l)
			add(fmt.Sprint(p.name, " with ID of ", l), bad, func() error { return p.f(topic, val, raw) })
		}
		add(p.name+" with sequence 0", bad, func() error { return p.f(topic, val, make([]byte, len(id))) })
	}
	for _, p := range dels {
		p := p
		no := func(s string) string {
			if !mutable {
				return immut
			}
			return s
		}
		add(p.name+" without ID", no(noID), func() error { return p.f(topic, nil, nil) })
		add(p.name+" with empty ID", no(noID), func() error { return p.f(topic, nil, []byte{}) })
		add(p.name+" without topic", no(empty), func() error { return p.f(nil, nil, id) })
		for _, l := range []int{65537, 70000} {
			l := l
			add(fmt.Sprint(p.name, " with topic of ", l), no(large), func() error { return p.f(long(l), nil, id) })
		}
		for l := 1; l <= 20; l++ {
			if l == len(id) {
				continue
			}
			raw := append(append([]byte{}, id...), id...)[:l]
			add(fmt.Sprint(p.name, " with ID of ", l), no(bad), func() error { return p.f(topic, nil, raw) })
		}
		if !mutable {
			add(p.name+" when immutable", immut, func() error { return p.f([]byte(d.msgs[0].topic), nil, id) })
		}
	}
	get := func(t []byte) func() error {
		return func() error {
			items, err := d.db.Get(NewQuery(t).WithLimit(10))
			if len(items) != 0 {
				return nil
			}
			return err
		}
	}
	add("Get without topic", empty, get(nil))
	add("Get with empty topic", empty, get([]byte{}))
	add("Get with topic of 65537", large, get(long(65537)))
	add("Get with topic of 70000", large, get(long(70000)))

	v.rnd.Shuffle(len(calls), func(i, j int) { calls[i], calls[j] = calls[j], calls[i] })
	keys := func() string {
		m := vcMem(d.db)
		if m == nil {
			return ""
		}
		k := m.Keys()
		sort.Slice(k, func(i, j int) bool { return k[i] < k[j] })
		return fmt.Sprint(k, m.Size())
	}
	for _, c := range calls {
		uses := strings.Contains(c.name, "empty topic and ID") || strings.Contains(c.name, "empty payload")
		k0, c0 := keys(), d.db.Count()
		s0 := message.ID(d.db.NewID()).Sequence()
		err := c.run()
		s1 := message.ID(d.db.NewID()).Sequence()
		v.eval("refused: " + c.name)
		switch {
		case err == nil:
			v.failf("%s is accepted", c.name)
		case !strings.Contains(err.Error(), c.want):
			v.failf("%s returns %q, want %q", c.name, err, c.want)
		case s1 != s0+1 && !(uses && s1 == s0+2):
			v.failf("%s: sequence numbers %d and %d around it", c.name, s0, s1)
		case d.db.Count() != c0:
			v.failf("%s changes the count from %d to %d", c.name, c0, d.db.Count())
		case keys() != k0:
			v.failf("%s changes the keys in memory from %s to %s", c.name, k0, keys())
		}
	}
	d.verify("after refused requests")
	// what is at the bounds is accepted
	for i, p := range puts {
		if p.name == "batch PutEntry" || p.name == "batch Put" {
			continue
		}
		for _, l := range []int{65535, 65536} {
			m := &vcMsg{topic: string(long(l)), payload: fmt.Sprintf("long%d.%d", l, i)}
			if err := p.f([]byte(m.topic), []byte(m.payload), nil); err != nil {
				v.failf("%s with topic of %d: %v", p.name, l, err)
			}
			d.msgs = append(d.msgs, m)
		}
		m := &vcMsg{topic: "a.b", payload: "1"}
		if err := p.f([]byte(m.topic), []byte(m.payload), nil); err != nil {
			v.failf("%s with payload of 1: %v", p.name, err)
		}
		d.msgs = append(d.msgs, m)
	}
	d.verify("at the bounds")
	if mutable {
		if err := d.db.Delete(id, []byte(d.msgs[0].topic)); err != nil {
			v.failf("Delete: %v", err)
		}
		d.msgs[0].gone = true
	}
	d.sync()
	d.reopen()
	d.verify("reopened after refused requests")

	// a closed database refuses everything
	var late *Batch
	d.db.Batch(func(b *Batch, completed <-chan struct{}) error {
		late = b
		if n%2 == 1 {
			d.msgs = append(d.msgs, &vcMsg{topic: "a.b", payload: string(val)})
			return b.Put(topic, val)
		}
		if err := d.db.Close(); err != nil {
			v.failf("Close: %v", err)
		}
		for _, c := range []vcCall{
			{"Put in an open batch", "", func() error { return late.Put(topic, val) }},
			{"PutEntry in an open batch", "", func() error { return late.PutEntry(NewEntry(topic, val)) }},
			{"Delete in an open batch", "", func() error { return late.Delete(id, topic) }},
		} {
			v.eval("closed: " + c.name)
			if c.run() == nil {
				v.failf("%s is accepted after Close", c.name)
			}
		}
		return errors.New("stop")
	})
	if n%2 == 1 {
		if err := d.db.Close(); err != nil {
			v.failf("Close: %v", err)
		}
	}
	for _, p := range puts {
		v.eval("closed: " + p.name)
		if p.f(topic, val, nil) == nil {
			v.failf("%s is accepted after Close", p.name)
		}
	}
	for _, p := range dels {
		v.eval("closed: " + p.name)
		if p.f(topic, nil, id) == nil {
			v.failf("%s is accepted after Close", p.name)
		}
	}
	if get(topic)() == nil {
		v.failf("Get is accepted after Close")
	}
	called := false
	if d.db.Batch(func(b *Batch, completed <-chan struct{}) error { called = true; return nil }) == nil {
		v.failf("Batch is accepted after Close")
	}
	if called {
		v.failf("Batch calls its function after Close")
	}
	if d.db.Close() == nil {
		v.failf("Close is accepted after Close")
	}
	d.open()
	d.verify("reopened")
	v.eval("reopened")
}
