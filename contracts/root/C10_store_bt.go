package unitdb

import (
	"fmt"
	"strings"
)

// BT_C10_history: histories of put, batch, sync, close and reopen on real
// databases with random payloads, topics, contracts and encryption settings;
// after each step every topic's query is compared with what was put. Bounds: up
// to 14 steps, 60 messages per step, payloads up to 70000 bytes.
func BT_C10_history(v *vcT) {
	n := 300
	if v.thorough {
		n = 4000
	}
	vcParallel(v, 12, n, vcStoreHistory)
}

func vcStoreHistory(v *vcT, n int) {
	rnd := v.rnd
	opts := []Options{WithMutable()}
	if rnd.Intn(3) == 0 {
		opts = append(opts, WithEncryption())
	}
	if rnd.Intn(3) == 0 {
		opts = append(opts, WithEncryptionKey([]byte("0123456789abcdef0123456789abcdef")))
	}
	d := vcNewDB(v, opts...)
	defer d.close()
	topics := []string{"a", "a.b", "b.a", "a.b.c", "x.y.z.w", "b", "topic-with-a-long-name.0123456789"}
	message := func() *vcMsg {
		m := &vcMsg{topic: topics[rnd.Intn(1+n%len(topics))]}
		switch rnd.Intn(3) {
		case 0:
			m.contract = uint32(1 + rnd.Intn(2))
		}
		if rnd.Intn(3) == 0 {
			m.id = d.db.NewID()
		}
		m.payload = d.payload(map[bool]int{true: 70000, false: 300}[rnd.Intn(10) == 0])
		if rnd.Intn(8) == 0 {
			m.topic += "?ttl=1h"
		}
		return m
	}
	// an Entry may be used again with a new payload
	again := func(b *Batch) []*vcMsg {
		m := message()
		e := d.entry(m, rnd.Intn(4) == 0)
		var ms []*vcMsg
		for i, c := 0, 2+rnd.Intn(3); i < c; i++ {
			if i > 0 {
				m = &vcMsg{topic: m.topic, contract: m.contract, payload: d.payload(300)}
				e.WithPayload([]byte(m.payload))
				if rnd.Intn(3) == 0 {
					e.WithID(d.db.NewID())
				}
			}
			var err error
			if b != nil {
				err = b.PutEntry(e)
			} else if err = d.db.PutEntry(e); err != nil && strings.Contains(err.Error(), "refused") {
				return ms
			}
			if err != nil {
				d.fail("put of an Entry used before: %v", err)
			}
			ms = append(ms, m)
		}
		return ms
	}
	for step, steps := 0, 4+rnd.Intn(10); step < steps && !v.over(); step++ {
		switch k := rnd.Intn(10); {
		case k < 4:
			for i, c := 0, 1+rnd.Intn(60)/(1+rnd.Intn(20)); i < c; i++ {
				d.put(message(), rnd.Intn(3) == 0)
			}
			if rnd.Intn(2) == 0 {
				ms := again(nil)
				d.msgs = append(d.msgs, ms...)
				d.log("put the same Entry %d times", len(ms))
			}
		case k < 6:
			var ms []*vcMsg
			err := d.db.Batch(func(b *Batch, completed <-chan struct{}) error {
				if rnd.Intn(3) == 0 {
					b.SetOptions(WithBatchEncryption())
				}
				for i, c := 0, 1+rnd.Intn(20); i < c; i++ {
					m := message()
					if err := b.PutEntry(d.entry(m, rnd.Intn(4) == 0)); err != nil {
						return err
					}
					ms = append(ms, m)
					if rnd.Intn(12) == 0 {
						ms = append(ms, again(b)...)
					}
					if rnd.Intn(8) == 0 {
						if err := b.Write(); err != nil {
							return err
						}
					}
				}
				return nil
			})
			if err != nil {
				d.fail("batch: %v", err)
			}
			d.msgs = append(d.msgs, ms...)
			d.log("batch of %d", len(ms))
		case k < 8:
			d.sync()
		default:
			d.reopen()
		}
		d.verify(fmt.Sprintf("step %d", step))
	}
	d.sync()
	d.verify("synced")
	d.reopen()
	d.verify("reopened")
}
