package unitdb

import (
	"fmt"
	"time"
)

// BT_C12_history: messages with no expiry, an expiry time, and times to live
// given as seconds and as durations on the entry and as topic option, in memory
// and on disk and after reopening, against the clock. Bounds: expiries from
// 100 s in the past to 2 s ahead are waited for, later ones up to a year are
// not.
func BT_C12_history(v *vcT) {
	n := 96
	if v.thorough {
		n = 3000
	}
	vcParallel(v, 24, n, vcExpiryHistory)
}

func vcExpiryHistory(v *vcT, n int) {
	rnd := v.rnd
	opts := []Options{WithMutable()}
	if rnd.Intn(2) == 0 {
		opts = append(opts, WithBackgroundKeyExpiry())
	}
	d := vcNewDB(v, opts...)
	defer d.close()
	topics := []string{"a.b", "c", "d.e.f"}[:1+rnd.Intn(3)]
	put := func() {
		m := &vcMsg{topic: topics[rnd.Intn(len(topics))], payload: fmt.Sprintf("m%d", len(d.msgs))}
		secs := int64(1 + rnd.Intn(2))
		if rnd.Intn(2) == 0 {
			secs = int64(2 + rnd.Intn(365*24*3600))
		}
		for i := 0; ; i++ {
			e := NewEntry(nil, []byte(m.payload))
			topic := m.topic
			t0 := time.Now().Unix()
			switch kind := n + rnd.Intn(7); kind % 7 {
			case 0, 1:
				m.exp = 0
			case 2:
				m.exp = t0 + secs
				if rnd.Intn(3) == 0 {
					m.exp = t0 - int64(rnd.Intn(100))
				}
				e.ExpiresAt = uint32(m.exp)
			case 3:
				m.exp = t0 + secs
				e = e.WithTTL(fmt.Sprint(secs))
			case 4:
				m.exp = t0 + secs
				e = e.WithTTL(fmt.Sprintf("%ds", secs))
			case 5:
				m.exp = t0 + secs
				topic += fmt.Sprintf("?ttl=%d", secs)
			case 6:
				m.exp = t0 + secs
				topic += fmt.Sprintf("?ttl=%ds", secs)
			}
			e.Topic = []byte(topic)
			err := d.db.PutEntry(e)
			t1 := time.Now().Unix()
			if err != nil {
				if i > 100 {
					d.fail("put: %v", err)
				}
				time.Sleep(10 * time.Millisecond)
				continue
			}
			if t1 != t0 {
				// put in an unknown second: any second of the range may end it
				m.open = true
			}
			d.msgs = append(d.msgs, m)
			d.log("put %d on %s expiring in %d s", len(d.msgs)-1, topic, map[bool]int64{true: -999, false: m.exp - t0}[m.exp == 0])
			return
		}
	}
	check := func(when string) {
		for _, t := range topics {
			t0 := time.Now().Unix()
			got := map[string]bool{}
			for _, s := range d.get(t, 0, 5000) {
				got[s] = true
			}
			t1 := time.Now().Unix()
			for i, m := range d.msgs {
				if m.topic != t || m.open {
					continue
				}
				switch {
				case m.exp == 0 || m.exp > t1:
					if !got[m.payload] {
						d.fail("%s: message %d expiring in %d s is not returned", when, i, m.exp-t1)
					}
				case m.exp <= t0:
					if got[m.payload] {
						d.fail("%s: message %d is returned %d s after its expiry", when, i, t0-m.exp)
					}
				}
				v.eval(fmt.Sprintf("%s: expiry in %d s", when, m.exp-t0))
			}
		}
	}
	for step, steps := 0, 4+rnd.Intn(6); step < steps && !v.over(); step++ {
		switch k := rnd.Intn(8); {
		case k < 4:
			for i, c := 0, 1+rnd.Intn(12); i < c; i++ {
				put()
			}
		case k < 5:
			time.Sleep(time.Duration(rnd.Intn(1100)) * time.Millisecond)
			d.log("wait")
		case k < 7:
			d.sync()
		default:
			d.reopen()
		}
		check(fmt.Sprintf("step %d", step))
	}
	time.Sleep(1100 * time.Millisecond)
	check("later")
}
