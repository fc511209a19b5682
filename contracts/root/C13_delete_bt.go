package unitdb

import (
	"fmt"
)

// BT_C13_history: histories of put, batch, delete, batch delete, sync, close
// and reopen, on mutable and immutable databases; after each step every topic's
// query and the count are compared with the model. Bounds: up to 16 steps, 40
// messages per step.
func BT_C13_history(v *vcT) {
	n := 250
	if v.thorough {
		n = 4000
	}
	vcParallel(v, 12, n, vcDeleteHistory)
}

// vcStored counts the messages that were synced and not deleted.
type vcStored map[*vcMsg]bool

func vcDeleteHistory(v *vcT, n int) {
	rnd := v.rnd
	opts := []Options{WithMutable(), WithFreeBlockSize([]int64{1, 200, 1 << 20}[rnd.Intn(3)])}
	d := vcNewDB(v, opts...)
	defer d.close()
	topics := []string{"a.b", "a", "x.y.z"}[:1+rnd.Intn(3)]
	message := func() *vcMsg {
		return &vcMsg{topic: topics[rnd.Intn(len(topics))], id: d.db.NewID(), payload: d.payload(400)}
	}
	stored := vcStored{}
	synced := func() {
		if m := vcMem(d.db); m == nil || m.Size() != 0 {
			return
		}
		for _, m := range d.msgs {
			if !m.gone {
				stored[m] = true
			}
		}
		if c := d.db.Count(); c != uint64(len(stored)) {
			d.fail("%d messages are stored, the count is %d", len(stored), c)
		}
	}
	pick := func() (int, *vcMsg) {
		if len(d.msgs) == 0 {
			return 0, nil
		}
		k := rnd.Intn(len(d.msgs))
		if rnd.Intn(3) == 0 {
			k = len(d.msgs) - 1 - rnd.Intn((len(d.msgs)+9)/10)
		}
		return k, d.msgs[k]
	}
	gone := func(m *vcMsg) {
		m.gone = true
		delete(stored, m)
	}
	for step, steps := 0, 6+rnd.Intn(10); step < steps && !v.over(); step++ {
		switch k := rnd.Intn(12); {
		case k < 4:
			for i, c := 0, 1+rnd.Intn(40)/(1+rnd.Intn(10)); i < c; i++ {
				d.put(message(), rnd.Intn(5) == 0)
			}
		case k < 7:
			for i, c := 0, 1+rnd.Intn(8); i < c; i++ {
				k, m := pick()
				if m == nil {
					break
				}
				// deleting a deleted message again changes nothing
				if m.gone && rnd.Intn(3) != 0 {
					continue
				}
				c0 := d.db.Count()
				if err := d.db.Delete(m.id, []byte(m.topic)); err != nil {
					d.fail("delete %d: %v", k, err)
				}
				d.log("delete %d", k)
				if m.gone && d.db.Count() != c0 {
					d.fail("deleting message %d again changes the count from %d to %d", k, c0, d.db.Count())
				}
				gone(m)
			}
		case k < 8:
			// an ID that is not stored
			c0 := d.db.Count()
			if err := d.db.Delete(d.db.NewID(), []byte(topics[0])); err != nil {
				d.fail("deleting an unused ID: %v", err)
			}
			if d.db.Count() != c0 {
				d.fail("deleting an unused ID changes the count from %d to %d", c0, d.db.Count())
			}
			d.log("delete unused")
		case k < 9:
			var puts []*vcMsg
			var dels []*vcMsg
			err := d.db.Batch(func(b *Batch, completed <-chan struct{}) error {
				for i, c := 0, 1+rnd.Intn(8); i < c; i++ {
					if _, m := pick(); m != nil && rnd.Intn(2) == 0 {
						if err := b.Delete(m.id, []byte(m.topic)); err != nil {
							return err
						}
						dels = append(dels, m)
						continue
					}
					m := message()
					if err := b.PutEntry(d.entry(m, false)); err != nil {
						return err
					}
					puts = append(puts, m)
				}
				return nil
			})
			if err != nil {
				d.fail("batch: %v", err)
			}
			for _, m := range dels {
				gone(m)
			}
			d.msgs = append(d.msgs, puts...)
			d.log("batch of %d puts and %d deletes", len(puts), len(dels))
		case k < 11:
			d.sync()
			synced()
		default:
			d.reopen()
			for _, m := range d.msgs {
				// everything in the log is stored when it is opened again
				if !m.gone {
					stored[m] = true
				}
			}
			if c := d.db.Count(); c != uint64(len(stored)) {
				d.fail("%d messages are stored after reopening, the count is %d", len(stored), c)
			}
		}
		d.verify(fmt.Sprintf("step %d", step))
	}
	d.sync()
	d.verify("synced")
	d.reopen()
	d.verify("reopened")
}

// BT_C13_immutable: on an immutable database every form of delete is refused
// and nothing changes.
func BT_C13_immutable(v *vcT) {
	for i := 0; i < 6; i++ {
		v.sub(fmt.Sprint("im", i), func(v *vcT) {
			d := vcNewDB(v)
			for k := 0; k < 3+i; k++ {
				d.put(&vcMsg{topic: "a.b", id: d.db.NewID(), payload: d.payload(50)}, false)
			}
			if i%2 == 1 {
				d.sync()
			}
			c0 := d.db.Count()
			for _, m := range d.msgs {
				if err := d.db.Delete(m.id, []byte(m.topic)); err == nil {
					v.failf("Delete is accepted on an immutable database")
				}
				if err := d.db.DeleteEntry(NewEntry([]byte(m.topic), nil).WithID(m.id)); err == nil {
					v.failf("DeleteEntry is accepted on an immutable database")
				}
				d.db.Batch(func(b *Batch, completed <-chan struct{}) error {
					if err := b.Delete(m.id, []byte(m.topic)); err == nil {
						v.failf("Batch.Delete is accepted on an immutable database")
					}
					return nil
				})
				v.eval(fmt.Sprintf("immutable %d", i))
			}
			if d.db.Count() != c0 {
				v.failf("the count of an immutable database changed by refused deletes")
			}
			d.verify("immutable")
			d.sync()
			d.reopen()
			d.verify("immutable, reopened")
			d.close()
		})
	}
}
