package unitdb

import (
	"fmt"
	"reflect"
)

// BT_C11_limits: queries with every kind of limit (none, WithLimit, ?last=N,
// WithLast, above the configured maximum, negative) over messages of several
// topics in memory and on disk, deleted and not, against the newest messages
// the model knows. Bounds: up to 1500 messages of up to 3 topics under one
// wildcard topic.
func BT_C11_limits(v *vcT) {
	n := 120
	if v.thorough {
		n = 4000
	}
	vcParallel(v, 12, n, vcLimitHistory)
}

func vcLimitHistory(v *vcT, n int) {
	rnd := v.rnd
	def, max := []int{1000, 3, 1, 20}[rnd.Intn(4)], []int{100000, 5, 40, 400}[rnd.Intn(4)]
	d := vcNewDB(v, WithMutable(), WithDefaultQueryLimit(def), WithMaxQueryLimit(max))
	defer d.close()
	topics := []string{"a.b", "a.c", "a.*"}[:1+rnd.Intn(3)]
	query := func(when string) {
		for i := 0; i < 6; i++ {
			topic := []string{"a.b", "a.c", "a.b", "a.z"}[rnd.Intn(4)]
			limit := []int{0, 1, 2, 3, def, max, max + 1, 10 * max, rnd.Intn(50), rnd.Intn(700), -1, 334, 335, 336}[rnd.Intn(14)]
			text, eff := topic, limit
			switch rnd.Intn(4) {
			case 0:
				last := 1 + rnd.Intn(40)
				if rnd.Intn(5) == 0 {
					last = max + 1
				}
				text += fmt.Sprintf("?last=%d", last)
				if last > eff {
					eff = last
				}
			case 1:
				text += "?last=1h"
			}
			if eff <= 0 {
				eff = def
			}
			if eff > max {
				eff = max
			}
			q := NewQuery([]byte(text)).WithLimit(limit)
			if rnd.Intn(4) == 0 && text == topic && limit > 0 {
				q = NewQuery([]byte(text)).WithLimit(limit).WithLast("2h")
				if limit > 100000 {
					eff = max
				}
			}
			var got []string
			for rep := 0; rep < 1+rnd.Intn(2); rep++ {
				items, err := d.db.Get(q)
				if err != nil {
					d.fail("%s: query %s limit %d: %v", when, text, limit, err)
				}
				got = []string{}
				for _, it := range items {
					got = append(got, string(it))
				}
				if len(got) > eff {
					d.fail("%s: query %s with limit %d (default %d, maximum %d) returns %d messages", when, text, limit, def, max, len(got))
				}
			}
			want := []string{}
			for k := len(d.msgs) - 1; k >= 0 && len(want) < eff; k-- {
				m := d.msgs[k]
				if !m.gone && (m.topic == topic || m.topic == "a.*") {
					want = append(want, m.payload)
				}
			}
			v.eval(fmt.Sprintf("%s: limit %d of %d, default %d, maximum %d", when, limit, len(d.msgs), def, max))
			if !reflect.DeepEqual(got, want) {
				d.fail("%s: query %s with limit %d (default %d, maximum %d) returns %s, want %s", when, text, limit, def, max, vcList(got), vcList(want))
			}
		}
	}
	for step, steps := 0, 3+rnd.Intn(8); step < steps && !v.over(); step++ {
		switch k := rnd.Intn(8); {
		case k < 4:
			t := topics[rnd.Intn(len(topics))]
			c := 1 + rnd.Intn(30)
			if rnd.Intn(4) == 0 {
				c = 1 + rnd.Intn(400)
			}
			for i := 0; i < c; i++ {
				if rnd.Intn(3) == 0 {
					t = topics[rnd.Intn(len(topics))]
				}
				m := &vcMsg{topic: t, id: d.db.NewID()}
				m.payload = fmt.Sprintf("m%d", len(d.msgs))
				d.put(m, false)
			}
		case k < 5 && len(d.msgs) > 0:
			for i, c := 0, 1+rnd.Intn(10); i < c; i++ {
				// mostly recent ones, where a limit is filled up again
				k := len(d.msgs) - 1 - rnd.Intn(len(d.msgs))
				if rnd.Intn(2) == 0 && k > 20 {
					k = len(d.msgs) - 1 - rnd.Intn(10)
				}
				m := d.msgs[k]
				if m.gone {
					continue
				}
				if err := d.db.Delete(m.id, []byte(m.topic)); err != nil {
					d.fail("delete %d: %v", k, err)
				}
				m.gone = true
				d.log("delete %d", k)
			}
		case k < 7:
			d.sync()
		default:
			d.reopen()
		}
		query(fmt.Sprintf("step %d", step))
	}
}
