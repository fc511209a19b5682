package hash

import "fmt"

// BT_C19_history: histories of additions and removals; every key stays on a
// working block and moves only when it must.
func BT_C19_history(v *vcT) {
	for n := 0; !v.over(); n++ {
		a := 1 + v.rnd.Intn(40)
		if v.rnd.Intn(20) == 0 {
			a = 1 + v.rnd.Intn(2000)
		}
		used := 1 + v.rnd.Intn(a)
		c, d := InitConsistent(a, used), InitConsistent(a, used)
		working := map[uint16]bool{}
		for b := 0; b < used; b++ {
			working[uint16(b)] = true
		}
		keys := make([]uint64, 150)
		for i := range keys {
			keys[i] = v.rnd.Uint64() >> uint(v.rnd.Intn(64))
		}
		find := func(hist string) map[uint64]uint16 {
			m := map[uint64]uint16{}
			for _, k := range keys {
				b := c.FindBlock(k)
				v.check(working[b], "%s: key %d is assigned to block %d, which is not in use", hist, k, b)
				p := c.GetPath(k, nil)
				v.check(len(p) > 0 && p[len(p)-1] == b, "%s: GetPath(%d) = %v, FindBlock = %d", hist, k, p, b)
				v.check(d.FindBlock(k) == b, "%s: two instances with the same history disagree on key %d", hist, k)
				m[k] = b
			}
			return m
		}
		hist := fmt.Sprintf("blocks=%d used=%d ", a, used)
		cur := find(hist)
		var stack []map[uint64]uint16
		for step := 0; step < 40; step++ {
			if v.rnd.Intn(2) == 0 && len(c.R) > 0 {
				b := c.AddBlock()
				d.AddBlock()
				hist += fmt.Sprintf("add=%d ", b)
				v.check(!working[b] && int(b) < a, "%s: added a block already in use", hist)
				working[b] = true
				now := find(hist)
				for k, x := range now {
					v.check(x == cur[k] || x == b, "%s: key %d moved from %d to %d", hist, k, cur[k], x)
				}
				if l := len(stack); l > 0 {
					for k, x := range now {
						v.check(stack[l-1][k] == x, "%s: key %d on %d, was on %d before the removal", hist, k, x, stack[l-1][k])
					}
					stack = stack[:l-1]
				}
				cur = now
			} else if len(working) > 1 {
				var ws []uint16
				for b := 0; b < a; b++ {
					if working[uint16(b)] {
						ws = append(ws, uint16(b))
					}
				}
				b := ws[v.rnd.Intn(len(ws))]
				c.RemoveBlock(b)
				d.RemoveBlock(b)
				hist += fmt.Sprintf("remove=%d ", b)
				delete(working, b)
				stack = append(stack, cur)
				now := find(hist)
				for k, x := range now {
					v.check(x == cur[k] || cur[k] == b, "%s: key %d moved from %d to %d", hist, k, cur[k], x)
				}
				cur = now
				if v.rnd.Intn(4) == 0 {
					c.RemoveBlock(b) // again: no effect
				}
			}
		}
		v.eval(hist)
	}
}

// BT_C19_range: the sizes the store uses.
func BT_C19_range(v *vcT) {
	for _, a := range []int{1, 2, 27, 1000, 65535, 100000} {
		c := InitConsistent(a, a)
		for i := 0; i < 20000; i++ {
			k := v.rnd.Uint64() >> uint(v.rnd.Intn(64))
			v.check(int(c.FindBlock(k)) < a, "key %d is assigned to a block beyond %d", k, a)
		}
		v.eval(fmt.Sprint("blocks ", a))
	}
}
