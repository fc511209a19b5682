package unitdb

import (
	"errors"
	"fmt"
	"strings"
	"sync"
)

// BT_C15_programs: batch functions of puts, deletes, writes, refused requests
// and errors at any point, alone, nested and at the same time, between puts,
// deletes, syncs and reopening; afterwards every topic's query is compared with
// what was committed. Bounds: up to 12 steps, 3 batches at a time, 30
// operations per batch.
func BT_C15_programs(v *vcT) {
	n := 200
	if v.thorough {
		n = 4000
	}
	vcParallel(v, 10, n, vcBatchHistory)
}

type vcBatchPlan struct {
	ops      []int // 0 put, 1 write, 2 delete, 3 refused put, 4 put outside
	msgs     []*vcMsg
	dels     []*vcMsg
	outside  []*vcMsg
	enc      bool
	contract uint32
	fails    bool
	nested   *vcBatchPlan
	nestedAt int
}

func vcBatchHistory(v *vcT, n int) {
	rnd := v.rnd
	opts := []Options{WithMutable()}
	if rnd.Intn(4) == 0 {
		opts = append(opts, WithEncryption())
	}
	d := vcNewDB(v, opts...)
	d.unordered = true
	defer d.close()
	topics := []string{"a.b", "a", "x.y.z", "b"}[:1+rnd.Intn(4)]
	fresh := func() *vcMsg {
		m := &vcMsg{topic: topics[rnd.Intn(len(topics))], id: d.db.NewID(), payload: d.payload(200)}
		if rnd.Intn(4) == 0 {
			m.contract = 7
		}
		return m
	}
	taken := map[*vcMsg]bool{}
	var plan func(depth int) *vcBatchPlan
	plan = func(depth int) *vcBatchPlan {
		p := &vcBatchPlan{enc: rnd.Intn(4) == 0, fails: rnd.Intn(2) == 0}
		if rnd.Intn(4) == 0 {
			p.contract = 9
		}
		for i, c := 0, rnd.Intn(12)/(1+rnd.Intn(4)); i < c; i++ {
			k := 0
			switch rnd.Intn(12) {
			case 0, 1:
				k = 1
			case 2:
				k = 2
			case 3:
				k = 3
			case 4:
				k = 4
			}
			if k == 2 {
				var m *vcMsg
				if len(d.msgs) > 0 {
					m = d.msgs[rnd.Intn(len(d.msgs))]
				}
				if m == nil || m.id == nil || m.gone || taken[m] {
					k = 0
				} else {
					taken[m] = true
					p.dels = append(p.dels, m)
				}
			}
			switch k {
			case 0:
				p.msgs = append(p.msgs, fresh())
			case 4:
				p.outside = append(p.outside, fresh())
			}
			p.ops = append(p.ops, k)
		}
		if depth == 0 && rnd.Intn(6) == 0 {
			p.nested = plan(1)
			p.nestedAt = rnd.Intn(len(p.ops) + 1)
		}
		return p
	}
	stop := errors.New("stopped by the batch function")
	var mu sync.Mutex
	var bad []string
	note := func(f string, a ...interface{}) {
		mu.Lock()
		bad = append(bad, fmt.Sprintf(f, a...))
		mu.Unlock()
	}
	var run func(p *vcBatchPlan)
	run = func(p *vcBatchPlan) {
		err := d.db.Batch(func(b *Batch, completed <-chan struct{}) error {
			if p.enc {
				b.SetOptions(WithBatchEncryption())
			}
			if p.contract != 0 {
				b.SetOptions(WithBatchContract(p.contract))
			}
			mi, di, oi := 0, 0, 0
			for i := 0; i <= len(p.ops); i++ {
				if p.nested != nil && i == p.nestedAt {
					run(p.nested)
				}
				if i == len(p.ops) {
					break
				}
				var err error
				switch p.ops[i] {
				case 0:
					m := p.msgs[mi]
					mi++
					if p.contract != 0 && m.contract == 0 && mi%2 == 0 {
						// the batch's contract is for Put
						m.contract = p.contract
						m.id = nil
						err = b.Put([]byte(m.topic), []byte(m.payload))
					} else {
						err = b.PutEntry(d.entry(m, false))
					}
				case 1:
					err = b.Write()
				case 2:
					m := p.dels[di]
					di++
					err = b.Delete(m.id, []byte(m.topic))
				case 3:
					if b.Put(nil, []byte("x")) == nil || b.Put([]byte("a"), nil) == nil || b.Delete(nil, []byte("a")) == nil {
						note("a batch accepts an invalid request")
					}
				case 4:
					m := p.outside[oi]
					oi++
					for k := 0; k < 100; k++ {
						if err = d.db.PutEntry(d.entry(m, false)); err == nil || !strings.Contains(err.Error(), "refused") {
							break
						}
					}
				}
				if err != nil {
					note("batch operation %d (%d): %v", i, p.ops[i], err)
				}
			}
			if p.fails {
				return stop
			}
			return nil
		})
		if p.fails && err != stop {
			note("a batch function returns %q, Batch returns %v", stop, err)
		}
		if !p.fails && err != nil {
			note("Batch: %v", err)
		}
	}
	var settle func(p *vcBatchPlan)
	settle = func(p *vcBatchPlan) {
		for _, m := range p.msgs {
			m.gone = p.fails
			d.msgs = append(d.msgs, m)
		}
		for _, m := range p.dels {
			if !p.fails {
				m.gone = true
			}
			delete(taken, m)
		}
		d.msgs = append(d.msgs, p.outside...)
		d.log("batch %v (0 put, 1 write, 2 delete, 3 refused, 4 outside)%s", p.ops, map[bool]string{true: " failing"}[p.fails])
		if p.nested != nil {
			settle(p.nested)
		}
	}
	for step, steps := 0, 4+rnd.Intn(8); step < steps && !v.over(); step++ {
		switch k := rnd.Intn(12); {
		case k < 2:
			for i, c := 0, 1+rnd.Intn(6); i < c; i++ {
				d.put(fresh(), false)
			}
		case k < 8:
			var ps []*vcBatchPlan
			for i, c := 0, 1+rnd.Intn(3)*rnd.Intn(2); i < c; i++ {
				ps = append(ps, plan(0))
			}
			if len(ps) == 1 {
				run(ps[0])
			} else {
				var wg sync.WaitGroup
				for _, p := range ps {
					p := p
					wg.Add(1)
					go func() {
						defer wg.Done()
						defer func() {
							if r := recover(); r != nil {
								note("panic: %v", r)
							}
						}()
						run(p)
					}()
				}
				wg.Wait()
			}
			for _, p := range ps {
				settle(p)
			}
			if len(bad) > 0 {
				d.fail("%s", bad[0])
			}
		case k < 9:
			if len(d.msgs) > 0 {
				m := d.msgs[rnd.Intn(len(d.msgs))]
				if m.id != nil && !m.gone {
					if err := d.db.Delete(m.id, []byte(m.topic)); err != nil {
						d.fail("delete: %v", err)
					}
					m.gone = true
					d.log("delete")
				}
			}
		case k < 11:
			d.sync()
		default:
			d.reopen()
		}
		d.verify(fmt.Sprintf("step %d", step))
	}
	d.sync()
	d.verify("synced")
	d.reopen()
	d.verify("reopened")
}
