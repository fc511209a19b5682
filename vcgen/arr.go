package main

// Functional arrays: total maps from the index sort to an element sort. Reads
// are reduced eagerly, so only applications of uninterpreted functions (the
// initial contents) reach the solver; no array theory is needed.

import (
	"fmt"
	"go/types"
	"math/big"
)

type ArrKind int

const (
	AUF ArrKind = iota
	AConst
	AStore
	ACopy
	AIte
	AMap
	ALam
	A2 // two-dimensional: each element is a row
)

type Arr struct {
	id       int
	kind     ArrKind
	elem     Sort
	name     string // AUF
	val      *Term  // AConst, AStore
	prev     *Arr
	idx      *Term // AStore; ACopy: dst offset
	n        *Term // ACopy: count
	src      *Arr
	soff     *Term
	cond     *Term
	m        *hamt // AMap over prev
	lam      func(i *Term) *Term
	sel2     func(i, j *Term) *Term // A2
	loB, hiB int                    // element width / sign in Int mode (for range axioms)
}

type selKey struct{ a, i int }

var arrCount int

func newArr(a Arr) *Arr {
	arrCount++
	a.id = arrCount
	return &a
}

func (c *Ctx) IdxSort() Sort {
	if c.IntMod {
		return SInt
	}
	return BV(64)
}

// NewUF makes an array with unconstrained contents. w/signed give the machine
// type of an integer element (w==0: not an integer).
func (c *Ctx) NewUF(name string, elem Sort, w int, signed bool) *Arr {
	c.fresh++
	n := fmt.Sprintf("%s!%d", name, c.fresh)
	c.DeclFun(n, []Sort{c.IdxSort()}, elem)
	if c.IntMod && elem == SInt && w > 0 {
		lo, hi := tyRange(w, signed)
		c.vrange[n] = [2]*big.Int{lo, hi}
		v := c.BoundVar(SInt)
		ap := c.App(n, SInt, v)
		c.Axioms = append(c.Axioms, c.Forall(v, c.And(c.mkLe(c.IntBig(lo), ap), c.mkLe(ap, c.IntBig(hi)))))
	}
	return newArr(Arr{kind: AUF, elem: elem, name: n})
}

// mkLe avoids range simplification
func (c *Ctx) mkLe(a, b *Term) *Term {
	return c.mk(&Term{Op: "<=", Sort: SBool, Args: []*Term{a, b}})
}

func (c *Ctx) ConstArr(v *Term) *Arr { return newArr(Arr{kind: AConst, elem: v.Sort, val: v}) }

func (c *Ctx) add(a, b *Term) *Term {
	if c.IntMod {
		return c.IAdd(a, b)
	}
	return c.BVBin("bvadd", a, b)
}
func (c *Ctx) sub(a, b *Term) *Term {
	if c.IntMod {
		return c.ISub(a, b)
	}
	return c.BVBin("bvsub", a, b)
}

// lt/le on lengths and indices (signed 64-bit or Int)
func (c *Ctx) lt(a, b *Term) *Term {
	if c.IntMod {
		return c.ILt(a, b)
	}
	return c.BVCmp("bvslt", a, b)
}
func (c *Ctx) le(a, b *Term) *Term {
	if c.IntMod {
		return c.ILe(a, b)
	}
	return c.BVCmp("bvsle", a, b)
}
func (c *Ctx) idx(i int64) *Term {
	if c.IntMod {
		return c.Intc(i)
	}
	return c.BVc(uint64(i), 64)
}

// inWindow: lo <= i < lo+n, written to be robust in BV mode (i-lo <u n, n>=0).
func (c *Ctx) inWindow(i, lo, n *Term) *Term {
	if c.IntMod {
		return c.And(c.ILe(lo, i), c.ILt(i, c.IAdd(lo, n)))
	}
	return c.BVCmp("bvult", c.BVBin("bvsub", i, lo), n)
}

type sel2Key struct{ a, i, j int }

// new2 makes a two-dimensional array from its element function.
func new2(c *Ctx, elem Sort, name string, f func(i, j *Term) *Term) *Arr {
	a := newArr(Arr{kind: A2, elem: elem, name: name})
	a.sel2 = func(i, j *Term) *Term {
		k := sel2Key{a.id, i.ID, j.ID}
		if t, ok := c.sel2Memo[k]; ok {
			return t
		}
		t := f(i, j)
		c.sel2Memo[k] = t
		return t
	}
	return a
}

// NewUF2 makes a two-dimensional array with unconstrained contents.
func (c *Ctx) NewUF2(name string, elem Sort, w int, signed bool) *Arr {
	c.fresh++
	n := fmt.Sprintf("%s!%d", name, c.fresh)
	c.DeclFun(n, []Sort{c.IdxSort(), c.IdxSort()}, elem)
	if c.IntMod && elem == SInt && w > 0 {
		lo, hi := tyRange(w, signed)
		c.vrange[n] = [2]*big.Int{lo, hi}
	}
	if c.IntMod && elem == SInt && w > 0 {
		lo, hi := tyRange(w, signed)
		v, x := c.BoundVar(SInt), c.BoundVar(SInt)
		ap := c.App(n, SInt, v, x)
		c.Axioms = append(c.Axioms, c.Forall(v, c.Forall(x, c.And(c.mkLe(c.IntBig(lo), ap), c.mkLe(ap, c.IntBig(hi))))))
	}
	return new2(c, elem, n, func(i, j *Term) *Term { return c.App(n, elem, i, j) })
}

// Row is row i of a two-dimensional array.
func (a *Arr) Row(c *Ctx, i *Term) *Arr {
	k := selKey{a.id, i.ID}
	if r, ok := c.rowMemo[k]; ok {
		return r
	}
	r := newArr(Arr{kind: ALam, elem: a.elem, name: a.name, lam: func(j *Term) *Term { return a.sel2(i, j) }})
	c.rowMemo[k] = r
	return r
}

func (a *Arr) SetRow(c *Ctx, i *Term, r *Arr) *Arr {
	return new2(c, a.elem, "", func(x, j *Term) *Term {
		e := c.Eq(x, i)
		if e.IsTrue() {
			return r.Select(c, j)
		}
		if e.IsFalse() {
			return a.sel2(x, j)
		}
		return c.Ite(e, r.Select(c, j), a.sel2(x, j))
	})
}

// at is element i of a leaf: a scalar, or a row.
func (a *Arr) at(c *Ctx, i *Term) Val {
	if a.kind == A2 {
		return a.Row(c, i)
	}
	return a.Select(c, i)
}

// with is the leaf with element i replaced.
func (a *Arr) with(c *Ctx, i *Term, v Val) *Arr {
	if a.kind == A2 {
		return a.SetRow(c, i, v.(*Arr))
	}
	if _, row := v.(*Arr); row {
		return a // left out
	}
	return a.Store(c, i, v.(*Term))
}

// over is the leaf with [doff, doff+n) replaced by src[soff..], as one layer.
func (a *Arr) over(c *Ctx, doff, n *Term, src *Arr, soff *Term) *Arr {
	if a.kind == A2 {
		return new2(c, a.elem, "", func(i, j *Term) *Term {
			w := c.inWindow(i, doff, n)
			if w.IsTrue() {
				return src.sel2(c.add(c.sub(i, doff), soff), j)
			}
			if w.IsFalse() {
				return a.sel2(i, j)
			}
			return c.Ite(w, src.sel2(c.add(c.sub(i, doff), soff), j), a.sel2(i, j))
		})
	}
	return newArr(Arr{kind: ACopy, elem: a.elem, prev: a, idx: doff, n: n, src: src, soff: soff})
}

// zeroLeafArr and freshLeaf make the array of one leaf of an element type.
func (c *Ctx) zeroLeafArr(t types.Type) *Arr {
	if t == droppedT {
		return c.ConstArr(c.F)
	}
	if u, ok := t.(*types.Array); ok {
		z := c.zeroLeaf(u.Elem())
		return new2(c, z.Sort, "", func(i, j *Term) *Term { return z })
	}
	return c.ConstArr(c.zeroLeaf(t))
}

func (c *Ctx) freshLeaf(name string, t types.Type) *Arr {
	if t == droppedT {
		return c.ConstArr(c.F)
	}
	if u, ok := t.(*types.Array); ok {
		s, w, sg, _ := c.scalar(u.Elem())
		return c.NewUF2(name, s, w, sg)
	}
	s, w, sg, _ := c.scalar(t)
	return c.NewUF(name, s, w, sg)
}

// droppedT stands for a field the arrays of a structure leave out (directive
// drop): reading it is outside the subset.
var droppedT types.Type = types.NewNamed(types.NewTypeName(0, nil, "dropped", nil), types.NewStruct(nil, nil), nil)

func (a *Arr) Select(c *Ctx, i *Term) *Term {
	if a.kind == A2 {
		unsup("element of a two-dimensional array used as a scalar")
	}
	k := selKey{a.id, i.ID}
	if t, ok := c.selMemo[k]; ok {
		return t
	}
	var r *Term
	switch a.kind {
	case AUF:
		r = c.App(a.name, a.elem, i)
	case AConst:
		r = a.val
	case AStore:
		e := c.Eq(i, a.idx)
		if e.IsTrue() {
			r = a.val
		} else if e.IsFalse() {
			r = a.prev.Select(c, i)
		} else {
			r = c.Ite(e, a.val, a.prev.Select(c, i))
		}
	case AMap:
		if ci, ok := i.ConstI64(); ok {
			if v := a.m.get(uint64(ci)); v != nil {
				r = v
			} else {
				r = a.prev.Select(c, i)
			}
		} else {
			r = a.prev.Select(c, i)
			a.m.each(func(k uint64, v *Term) {
				r = c.Ite(c.Eq(i, c.idx(int64(k))), v, r)
			})
		}
	case ACopy:
		w := c.inWindow(i, a.idx, a.n)
		if w.IsTrue() {
			r = a.src.Select(c, c.add(c.sub(i, a.idx), a.soff))
		} else if w.IsFalse() {
			r = a.prev.Select(c, i)
		} else {
			r = c.Ite(w, a.src.Select(c, c.add(c.sub(i, a.idx), a.soff)), a.prev.Select(c, i))
		}
	case AIte:
		r = c.Ite(a.cond, a.prev.Select(c, i), a.src.Select(c, i))
	case ALam:
		r = a.lam(i)
	}
	c.selMemo[k] = r
	return r
}

func (a *Arr) Store(c *Ctx, i, v *Term) *Arr {
	if a.kind == A2 {
		unsup("store into a two-dimensional array")
	}
	if v.Sort != a.elem {
		panic(fmt.Sprintf("store sort %s into %s", v.Sort.SMT(), a.elem.SMT()))
	}
	if ci, ok := i.ConstI64(); ok {
		if a.kind == AMap {
			return newArr(Arr{kind: AMap, elem: a.elem, prev: a.prev, m: a.m.set(uint64(ci), v)})
		}
		return newArr(Arr{kind: AMap, elem: a.elem, prev: a, m: (*hamt)(nil).set(uint64(ci), v)})
	}
	return newArr(Arr{kind: AStore, elem: a.elem, prev: a, idx: i, val: v})
}

// CopyIn overwrites [doff, doff+n) with src[soff..].
func (a *Arr) CopyIn(c *Ctx, doff, n *Term, src *Arr, soff *Term) *Arr {
	if a.kind == A2 {
		if k, ok := n.ConstI64(); ok && k <= 0 {
			return a
		} else if ok && k == 1 {
			return a.SetRow(c, doff, src.Row(c, soff))
		}
		return a.over(c, doff, n, src, soff)
	}
	if k, ok := n.ConstI64(); ok {
		if k <= 0 {
			return a
		}
		if k <= 5000 {
			r := a
			vals := make([]*Term, k)
			for j := int64(0); j < k; j++ {
				vals[j] = src.Select(c, c.add(soff, c.idx(j)))
			}
			for j := int64(0); j < k; j++ {
				r = r.Store(c, c.add(doff, c.idx(j)), vals[j])
			}
			return r
		}
	}
	return newArr(Arr{kind: ACopy, elem: a.elem, prev: a, idx: doff, n: n, src: src, soff: soff})
}

func (c *Ctx) ArrIte(cond *Term, a, b *Arr) *Arr {
	if a == b || cond.IsTrue() {
		return a
	}
	if cond.IsFalse() {
		return b
	}
	if a.kind == A2 || b.kind == A2 {
		if a.kind != b.kind {
			unsup("merge of arrays of different shape")
		}
		return new2(c, a.elem, "", func(i, j *Term) *Term { return c.Ite(cond, a.sel2(i, j), b.sel2(i, j)) })
	}
	// both AMap over the same base: merge pointwise
	if ab, am := a.base(); true {
		bb, bm := b.base()
		if ab == bb {
			keys := map[uint64]bool{}
			am.each(func(k uint64, _ *Term) { keys[k] = true })
			bm.each(func(k uint64, _ *Term) { keys[k] = true })
			m := am
			for k := range keys {
				x, y := am.get(k), bm.get(k)
				if x == y {
					continue
				}
				if x == nil {
					x = ab.Select(c, c.idx(int64(k)))
				}
				if y == nil {
					y = ab.Select(c, c.idx(int64(k)))
				}
				m = m.set(k, c.Ite(cond, x, y))
			}
			return newArr(Arr{kind: AMap, elem: a.elem, prev: ab, m: m})
		}
	}
	return newArr(Arr{kind: AIte, elem: a.elem, cond: cond, prev: a, src: b})
}
func (a *Arr) base() (*Arr, *hamt) {
	if a.kind == AMap {
		return a.prev, a.m
	}
	return a, nil
}

// hamt: persistent map uint64 -> *Term (32-way radix on the low bits first)
type hamt struct {
	ch   [32]*hamt
	leaf bool
	key  uint64
	val  *Term
	n    int
}

func (h *hamt) get(k uint64) *Term {
	sh := uint(0)
	for h != nil {
		if h.leaf {
			if h.key == k {
				return h.val
			}
			return nil
		}
		h = h.ch[(k>>sh)&31]
		sh += 5
	}
	return nil
}
func (h *hamt) set(k uint64, v *Term) *hamt { return h.put(k, v, 0) }
func (h *hamt) put(k uint64, v *Term, sh uint) *hamt {
	if h == nil {
		return &hamt{leaf: true, key: k, val: v}
	}
	if h.leaf {
		if h.key == k {
			return &hamt{leaf: true, key: k, val: v}
		}
		n := &hamt{}
		n.ch[(h.key>>sh)&31] = h
		return n.put(k, v, sh)
	}
	n := *h
	i := (k >> sh) & 31
	n.ch[i] = n.ch[i].put(k, v, sh+5)
	return &n
}
func (h *hamt) each(f func(k uint64, v *Term)) {
	if h == nil {
		return
	}
	if h.leaf {
		f(h.key, h.val)
		return
	}
	for _, x := range h.ch {
		x.each(f)
	}
}
