package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// invFor returns the invariant registered for the next cut loop reached in
// this function (or in the function it was extracted from: helpers without a
// registration of their own take the invariants of the nearest caller that has
// unused ones).
func (a *act) invFor(h *ssa.BasicBlock) *invUse {
	e := a.e
	if iu, ok := e.loopInv[h]; ok {
		return iu
	}
	for i := len(e.fnStack) - 1; i >= 0; i-- {
		f := e.fnStack[i]
		nm := f.String()
		list := e.invs[nm]
		if len(list) == 0 {
			continue
		}
		k := e.loopCnt[nm]
		if k >= len(list) {
			continue
		}
		if i < len(e.fnStack)-1 && (!e.lenientLoops || len(e.invs[a.fn.String()]) > 0) {
			return nil
		}
		if list[k] == nil { // "unroll" entry
			e.loopCnt[nm]++
			e.loopInv[h] = nil
			return nil
		}
		e.loopCnt[nm]++
		iu := &invUse{fn: list[k], label: fmt.Sprintf("%s loop %d", shortFn(f), k)}
		e.loopInv[h] = iu
		return iu
	}
	return nil
}

type invUse struct {
	fn     *ssa.Function
	label  string
	assign []string
}

// cutLoop verifies a loop against its invariant and continues from an
// arbitrary iteration.
func (a *act) cutLoop(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, ins []pend, exits map[*ssa.BasicBlock][]pend, iu *invUse) {
	e := a.e
	c := e.c
	st, env, ok := a.mergePend(h, ins)
	if !ok {
		return
	}
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	entry := make([]Val, len(phis))
	for i, p := range phis {
		entry[i] = env[p]
	}
	e.materialize(st)
	entryHeap := snapHeap(st)
	pos := h.Instrs[0].Pos()

	// entry obligation
	e.oldHeap = append(e.oldHeap, entryHeap)
	defer func() { e.oldHeap = e.oldHeap[:len(e.oldHeap)-1] }()

	runBody := func(s *State, ev envT, phv []Val) (back []pend, ex map[*ssa.BasicBlock][]pend) {
		ev2 := make(envT, len(ev))
		for k, v := range ev {
			ev2[k] = v
		}
		ex = map[*ssa.BasicBlock][]pend{}
		// execute the header with the phis fixed: use a pending entry whose phi
		// values are taken from phv
		a.runHeader(h, body, s, ev2, phis, phv, &back, ex)
		return
	}
	inv := func(s *State, ev envT, phv []Val, k *Term, goal bool, kind string) {
		vals := a.invArgs(s, iu, phis, phv, entry, ev, k)
		f := &FuncV{Alts: []FuncAlt{{C: c.T, Fn: iu.fn}}}
		e.curState = s
		if goal {
			// evaluate conjuncts through vcInv records if the invariant is a
			// plain boolean function
			t := a.pureApply(s, f, vals)
			if xs := c.conjuncts(t); len(xs) > 1 {
				for i, x := range xs {
					e.oblige(s, kind, fmt.Sprintf("invariant of %s, conjunct %d", iu.label, i), x, pos, a.fn)
				}
			} else {
				e.oblige(s, kind, "invariant of "+iu.label, t, pos, a.fn)
			}
		} else {
			s.assume(a.pureApply(s, f, vals))
		}
	}

	inv(st, env, entry, c.idx(0), true, "inv-init")

	// find what the body modifies, by dry runs to a fixpoint
	havocked := map[int]Val{}
	for k, v := range st.heap {
		havocked[k] = v
	}
	phv := make([]Val, len(phis))
	for i, p := range phis {
		phv[i] = a.freshPhi(st, p, entry[i])
	}
	type affT struct {
		ok   bool
		step *Term
		slic bool // a slice moved along its array: steps of offset, length, capacity
		sst  [3]*Term
	}
	affStep := func(t, b *Term) *Term {
		if t == b {
			return c.constLike(b, 0)
		}
		base, k := c.split(unwrapAff(t))
		if base == b && k != nil {
			return k
		}
		return nil
	}
	aff := make([]affT, len(phis))
	saveSums, saveOpq, saveHv := e.sums, e.opqLoop, e.hv
	e.opqLoop = e.opq
	e.hvs++
	e.hv = fmt.Sprintf("hv.%d.", e.hvs) // what this loop has made arbitrary
	e.sums = &loopSums{st: st, havocked: havocked, ids: map[string]int{}}
	defer func() { e.sums, e.opqLoop, e.hv = saveSums, saveOpq, saveHv }()
	for round := 0; ; round++ {
		if round > 8 {
			unsup("loop effects do not stabilise in %s", a.fn)
		}
		e.muted++
		saveCnt := map[string]int{}
		for k, v := range e.loopCnt {
			saveCnt[k] = v
		}
		s := &State{heap: map[int]Val{}, pc: append([]*Term(nil), st.pc...), pcs: map[*Term]bool{}}
		for k := range st.pcs {
			s.pcs[k] = true
		}
		for k, v := range havocked {
			s.heap[k] = v
		}
		e.curState = s
		back, ex := runBody(s, env, phv)
		e.muted--
		e.loopCnt = saveCnt
		changed := false
		for i := range aff {
			aff[i].ok = true
			aff[i].step = nil
			aff[i].slic = true
			aff[i].sst = [3]*Term{}
		}
		if len(back) == 0 {
			for i := range aff {
				aff[i].ok = false
				aff[i].slic = false
			}
		}
		look := func(p pend, isBack bool) {
			if e.dead(p.st) {
				return
			}
			// package variables first used by the loop
			if e.materialize(st) {
				for id, v := range e.globInitID {
					if _, ok := havocked[id]; !ok {
						havocked[id] = v
						changed = true
					}
				}
			}
			for id := range havocked {
				nv, ok := p.st.heap[id]
				if !ok {
					continue
				}
				e.sums.bst = p.st
				hv, ch := e.havocDiff(havocked[id], nv, fmt.Sprintf("loop%d", id))
				if ch {
					havocked[id] = hv
					changed = true
				}
			}
			if !isBack {
				return
			}
			for i, ph := range phis {
				bv := a.get(p.env, ph.Edges[predIdx(h, p.pred)])
				if y, ok := bv.(*SliceV); ok && aff[i].slic {
					x, ok := phv[i].(*SliceV)
					if !ok || !samePtrObjs(x.P, y.P) {
						aff[i].slic = false
					} else {
						for j, d := range [3]*Term{affStep(y.Off, x.Off), affStep(y.Len, x.Len), affStep(y.Cap, x.Cap)} {
							if d == nil || aff[i].sst[j] != nil && aff[i].sst[j] != d {
								aff[i].slic = false
								break
							}
							aff[i].sst[j] = d
						}
					}
				}
				t, ok1 := bv.(*Term)
				b, ok2 := phv[i].(*Term)
				if !ok1 || !ok2 || b.Sort == SBool {
					aff[i].ok = false
					// pointers / slices: widen if the back value designates other objects
					e.sums.bst = p.st
					e.sums.key = fmt.Sprintf("phi%d", i)
					if w, ch := a.widenPhi(phv[i], bv, st); ch {
						phv[i] = w
						changed = true
					}
					continue
				}
				var d *Term
				if t == b {
					d = c.constLike(b, 0)
				} else {
					base, k := c.split(unwrapAff(t))
					if base == b && k != nil {
						d = k
					}
				}
				if d == nil || aff[i].step != nil && aff[i].step != d {
					aff[i].ok = false
				} else {
					aff[i].step = d
				}
			}
		}
		for _, p := range back {
			look(p, true)
		}
		for _, ps := range ex {
			for _, p := range ps {
				look(p, false)
			}
		}
		// a summary object stands for an array that one location alone refers to
		for _, p := range back {
			if e.dead(p.st) {
				continue
			}
			refs := map[int]map[string]bool{}
			for id := range p.st.heap {
				valRefs(p.st.heap[id], fmt.Sprint("o", id), refs)
			}
			for i, ph := range phis {
				valRefs(a.get(p.env, ph.Edges[predIdx(h, p.pred)]), fmt.Sprint("p", i), refs)
			}
			for obj, locs := range refs {
				if _, pre := st.heap[obj]; !pre && len(locs) > 1 && len(e.sums.ids) > 0 {
					unsup("an array allocated in a loop is shared (%s)", a.fn)
				}
			}
		}
		if !changed {
			break
		}
	}

	// arbitrary iteration k
	k := e.freshLen("k")
	s := &State{heap: map[int]Val{}, pc: append([]*Term(nil), st.pc...), pcs: map[*Term]bool{}}
	for x := range st.pcs {
		s.pcs[x] = true
	}
	for id, v := range havocked {
		s.heap[id] = v
	}
	// the position of the range that the loop iterates
	for _, in := range h.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			if it, ok := env[nx.Iter].(*mapIterV); ok && it.sym {
				p0, _ := st.heap[it.pos].(*Term)
				if n0, ok := p0.ConstI64(); !ok || n0 != 0 {
					unsup("a range loop entered again")
				}
				s.heap[it.pos] = k
				s.assume(c.le(k, it.n))
			}
		}
	}
	e.curState = s
	for i := range phis {
		if en, ok := entry[i].(*SliceV); ok && aff[i].slic && aff[i].sst[0] != nil {
			x := *phv[i].(*SliceV)
			at := func(b, d *Term) *Term {
				if c.IntMod {
					return c.IAdd(b, c.IMul(k, d))
				}
				return c.BVBin("bvadd", b, c.BVBin("bvmul", k, d))
			}
			x.Off, x.Len, x.Cap = at(en.Off, aff[i].sst[0]), at(en.Len, aff[i].sst[1]), at(en.Cap, aff[i].sst[2])
			phv[i] = &x
		}
		if aff[i].ok && aff[i].step != nil {
			_, w, sg, _ := c.scalar(phis[i].Type())
			if c.IntMod {
				phv[i] = c.wrap(c.IAdd(entry[i].(*Term), c.IMul(k, aff[i].step)), w, sg)
			} else {
				kk := c.Extract(k, w-1, 0)
				phv[i] = c.BVBin("bvadd", entry[i].(*Term), c.BVBin("bvmul", kk, aff[i].step))
			}
		}
	}
	inv(s, env, phv, k, false, "")
	back, ex := runBody(s, env, phv)
	for _, p := range back {
		if e.dead(p.st) {
			continue
		}
		nphv := make([]Val, len(phis))
		pi := predIdx(h, p.pred)
		for i, ph := range phis {
			nphv[i] = a.get(p.env, ph.Edges[pi])
		}
		e.curState = p.st
		inv(p.st, p.env, nphv, c.add(k, c.idx(1)), true, "inv-step")
	}
	for b, ps := range ex {
		exits[b] = append(exits[b], ps...)
	}
}

// unwrapAff sees through the exact Int-mode wrap ite(in-range, t, ...).
func unwrapAff(t *Term) *Term {
	if t.Sort == SInt && t.Op == "ite" && (t.Args[1].Op == "+") {
		return t.Args[1]
	}
	return t
}

func (c *Ctx) constLike(t *Term, v int64) *Term {
	if t.Sort == SInt {
		return c.Intc(v)
	}
	if t.Sort.IsBV() {
		return c.BVc(uint64(v), t.Sort.W())
	}
	return c.fpConst(t.Sort, float64(v))
}

func predIdx(b, pred *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == pred {
			return i
		}
	}
	panic("pred")
}

// runHeader executes header and body once with the phi values given.
func (a *act) runHeader(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, s *State, env envT, phis []*ssa.Phi, phv []Val, back *[]pend, ex map[*ssa.BasicBlock][]pend) {
	for i, p := range phis {
		env[p] = phv[i]
	}
	pending := map[*ssa.BasicBlock][]pend{}
	route := func(t *ssa.BasicBlock, p pend) {
		if t == h {
			*back = append(*back, p)
		} else if body[t] {
			pending[t] = append(pending[t], p)
		} else {
			ex[t] = append(ex[t], p)
		}
	}
	a.block(h, s, env, route)
	// remaining blocks
	a.run(body, h, pending, back, ex)
}

// freshPhi: an arbitrary value for a loop-carried variable.
func (a *act) freshPhi(st *State, p *ssa.Phi, entry Val) Val {
	e := a.e
	c := e.c
	if s, w, sg, ok := c.scalar(p.Type()); ok {
		return e.freshScalar(s, w, sg, "phi."+p.Comment)
	}
	switch v := entry.(type) {
	case *StrV:
		l := e.freshLen("phi.len")
		return &StrV{A: c.NewUF("phi.s", c.byteSort(), 8, false), Off: c.idx(0), Len: l}
	case *SliceV:
		off, l, cp := e.freshLen("phi.off"), e.freshLen("phi.len"), e.freshLen("phi.cap")
		c.Axioms = append(c.Axioms, c.le(l, cp))
		return &SliceV{P: v.P, Off: off, Len: l, Cap: cp}
	case *StructV:
		return e.fresh(p.Type(), "phi."+p.Comment)
	}
	return entry
}

// widenPhi extends a pointer-like loop variable with the objects its back-edge
// value designates (fresh ones become one summary object).
func (a *act) widenPhi(cur, back Val, st *State) (Val, bool) {
	e := a.e
	c := e.c
	switch x := cur.(type) {
	case *SliceV:
		y, ok := back.(*SliceV)
		if !ok {
			unsup("loop variable of slice type")
		}
		p, ch := a.widenPtr(x.P, y.P, st, true)
		if !ch {
			return cur, false
		}
		r := &SliceV{P: p, Off: x.Off, Len: x.Len, Cap: x.Cap}
		e.nilCap(r)
		return r, true
	case *PtrV:
		y, ok := back.(*PtrV)
		if !ok {
			unsup("loop variable of pointer type")
		}
		return a.widenPtr(x, y, st, false)
	case *StrV, *Term, *StructV:
		return cur, false
	case *IfaceV:
		y, ok := back.(*IfaceV)
		if !ok {
			unsup("loop variable of interface type")
		}
		return e.widenIface(x, y)
	}
	if sameVal(cur, back) {
		return cur, false
	}
	_ = c
	unsup("loop variable of type %T", cur)
	return nil, false
}

func (a *act) widenPtr(x, y *PtrV, st *State, slice bool) (*PtrV, bool) {
	e := a.e
	c := e.c
	type tgt struct {
		obj  int
		path []PathElem
	}
	var ts []tgt
	add := func(obj int, path []PathElem) bool {
		for _, t := range ts {
			if t.obj == obj && samePath(t.path, path) {
				return false
			}
		}
		ts = append(ts, tgt{obj, path})
		return true
	}
	for _, al := range x.Alts {
		add(al.Obj, al.Path)
	}
	// conditions of the loop's entry do not tell which object a later iteration sees
	changed := e.widened[x] != e.hv && !samePtr(x, y)
	for _, al := range y.Alts {
		if al.Obj != 0 {
			if _, pre := st.heap[al.Obj]; !pre {
				if !slice {
					unsup("loop variable refers to an object allocated in the loop (%s)", a.fn)
				}
				if add(e.sumObj(al.Obj), nil) {
					changed = true
				}
				continue
			}
		}
		if add(al.Obj, al.Path) {
			changed = true
		}
	}
	if !changed {
		return x, false
	}
	rest := c.T
	r := &PtrV{}
	for i, t := range ts {
		if i == len(ts)-1 {
			r.Alts = append(r.Alts, PtrAlt{C: rest, Obj: t.obj, Path: t.path})
		} else {
			b := c.Fresh("phiobj", SBool)
			r.Alts = append(r.Alts, PtrAlt{C: c.And(rest, b), Obj: t.obj, Path: t.path})
			rest = c.And(rest, c.Not(b))
		}
	}
	e.widened[r] = e.hv
	return r, true
}

// samePtr: x and y designate the same objects under the same conditions.
func samePtr(x, y *PtrV) bool {
	if len(x.Alts) != len(y.Alts) {
		return false
	}
	for i, al := range x.Alts {
		if b := y.Alts[i]; al.C != b.C || al.Obj != b.Obj || !samePath(al.Path, b.Path) {
			return false
		}
	}
	return true
}

// sameVal: x and y are the same value, on the face of it.
func sameVal(x, y Val) bool {
	if x == y {
		return true
	}
	switch x := x.(type) {
	case *PtrV:
		y, ok := y.(*PtrV)
		return ok && samePtr(x, y)
	case *OpaqueV:
		y, ok := y.(*OpaqueV)
		return ok && x.ID == y.ID
	case *SliceV:
		y, ok := y.(*SliceV)
		return ok && samePtr(x.P, y.P) && x.Off == y.Off && x.Len == y.Len && x.Cap == y.Cap
	case *StrV:
		y, ok := y.(*StrV)
		return ok && x.A == y.A && x.Off == y.Off && x.Len == y.Len
	case *StructV:
		y, ok := y.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !sameVal(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case *IfaceV:
		y, ok := y.(*IfaceV)
		if !ok || len(x.Alts) != len(y.Alts) {
			return false
		}
		for i, al := range x.Alts {
			if b := y.Alts[i]; al.C != b.C || al.T != b.T || al.T != nil && !sameVal(al.V, b.V) {
				return false
			}
		}
		return true
	case *FuncV:
		y, ok := y.(*FuncV)
		if !ok || len(x.Alts) != len(y.Alts) {
			return false
		}
		for i, al := range x.Alts {
			b := y.Alts[i]
			if al.C != b.C || al.Fn != b.Fn || al.Bltn != b.Bltn || len(al.Bind) != len(b.Bind) {
				return false
			}
			for j := range al.Bind {
				if !sameVal(al.Bind[j], b.Bind[j]) {
					return false
				}
			}
		}
		return true
	}
	return false
}

// widenIface: an interface that is any of those x and y may be. Errors made in the
// loop are one error, others are told apart.
func (e *Eng) widenIface(x, y *IfaceV) (*IfaceV, bool) {
	c := e.c
	if sameVal(x, y) {
		return x, false
	}
	changed := e.widened[x] != e.hv
	var alts []IfaceAlt
	made := func(v Val) bool {
		o, ok := v.(*OpaqueV)
		return ok && o.ID > e.opqLoop && !e.sentinels[o.ID]
	}
	add := func(al IfaceAlt) bool {
		for i, b := range alts {
			if al.T == nil || b.T == nil {
				if al.T == b.T {
					return false
				}
				continue
			}
			if !types.Identical(al.T, b.T) {
				continue
			}
			if sameVal(al.V, b.V) || made(al.V) && made(b.V) {
				return false
			}
			_, o1 := al.V.(*OpaqueV)
			_, o2 := b.V.(*OpaqueV)
			if o1 || o2 {
				continue
			}
			if hv, ch := e.havocDiff(b.V, al.V, "iface"); ch {
				alts[i].V = hv
				return true
			}
			return false
		}
		alts = append(alts, al)
		return true
	}
	for _, al := range x.Alts {
		add(al)
	}
	for _, al := range y.Alts {
		if add(al) {
			changed = true
		}
	}
	if !changed {
		return x, false
	}
	rest := c.T
	for i := range alts {
		if i == len(alts)-1 {
			alts[i].C = rest
		} else {
			b := c.Fresh("phisel", SBool)
			alts[i].C = c.And(rest, b)
			rest = c.And(rest, c.Not(b))
		}
	}
	r := &IfaceV{Alts: alts}
	e.widened[r] = e.hv
	return r, true
}

// loopSums: the objects standing for arrays that earlier iterations of the loop
// being cut allocated, one per loop-carried location.
type loopSums struct {
	st, bst  *State
	havocked map[int]Val
	ids      map[string]int
	key      string
}

// nilCap: a slice that may be nil has no capacity then.
func (e *Eng) nilCap(s *SliceV) {
	if s.Cap.IsConst() {
		return
	}
	for _, al := range s.P.Alts {
		if al.Obj == 0 {
			e.c.Axioms = append(e.c.Axioms, e.c.Implies(al.C, e.c.Eq(s.Cap, e.c.idx(0))))
		}
	}
}

func (e *Eng) sumObj(back int) int {
	c := e.c
	u := e.sums
	if id, ok := u.ids[u.key]; ok {
		return id
	}
	av, ok := u.bst.heap[back].(*ArrayV)
	if !ok || av.Leaves == nil {
		unsup("a loop carries a slice of non-scalar elements that it allocates")
	}
	n := &ArrayV{ET: av.ET, N: e.freshLen(e.hv + "sumlen")}
	ls, _ := c.leafTypes(av.ET)
	for _, lt := range ls {
		n.Leaves = append(n.Leaves, c.freshLeaf(e.hv+"sum", lt))
	}
	id := e.newObj(n)
	u.st.heap[id] = n
	u.havocked[id] = n
	u.ids[u.key] = id
	return id
}

// valRefs records which objects v refers to.
func valRefs(v Val, loc string, out map[int]map[string]bool) {
	ptr := func(p *PtrV) {
		for _, al := range p.Alts {
			if al.Obj == 0 {
				continue
			}
			if out[al.Obj] == nil {
				out[al.Obj] = map[string]bool{}
			}
			out[al.Obj][loc] = true
		}
	}
	switch x := v.(type) {
	case *PtrV:
		ptr(x)
	case *SliceV:
		ptr(x.P)
	case *StructV:
		for i, f := range x.F {
			valRefs(f, fmt.Sprint(loc, ".", i), out)
		}
	case *ArrayV:
		for i, f := range x.Elems {
			valRefs(f, fmt.Sprint(loc, ".", i), out)
		}
	case *TupleV:
		for i, f := range x.F {
			valRefs(f, fmt.Sprint(loc, ".", i), out)
		}
	case *IfaceV:
		for i, al := range x.Alts {
			valRefs(al.V, fmt.Sprint(loc, ".", i), out)
		}
	case *FuncV:
		for i, al := range x.Alts {
			for j, b := range al.Bind {
				valRefs(b, fmt.Sprint(loc, ".", i, ".", j), out)
			}
		}
	case *MapO:
		for i, en := range x.Log {
			valRefs(en.V, fmt.Sprint(loc, ".", i), out)
		}
	}
}

// havocDiff: wherever nv differs from old, replace by fresh contents.
func (e *Eng) havocDiff(old, nv Val, name string) (Val, bool) {
	c := e.c
	if old == nv {
		return old, false
	}
	switch x := old.(type) {
	case *Term:
		y, ok := nv.(*Term)
		if !ok {
			unsup("loop changes a scalar to %T", nv)
		}
		if x == y {
			return old, false
		}
		if strings.HasPrefix(x.Name, e.hv) && x.Op == "var" {
			return old, false
		}
		r := c.vrange[x.Name]
		_ = r
		return e.freshLike(x, e.hv+name), true
	case *StructV:
		y, ok := nv.(*StructV)
		if !ok {
			break
		}
		n := &StructV{F: append([]Val(nil), x.F...)}
		ch := false
		for i := range x.F {
			v, d := e.havocDiff(x.F[i], y.F[i], fmt.Sprintf("%s.%d", name, i))
			if d {
				n.F[i] = v
				ch = true
			}
		}
		if ch {
			return n, true
		}
		return old, false
	case *ArrayV:
		y, ok := nv.(*ArrayV)
		if !ok || len(x.Leaves) != len(y.Leaves) || len(x.Elems) != len(y.Elems) {
			break
		}
		n := *x
		n.Leaves = append([]*Arr(nil), x.Leaves...)
		n.Elems = append([]Val(nil), x.Elems...)
		ch := false
		ls, _ := c.leafTypes(x.ET)
		for i := range x.Leaves {
			if x.Leaves[i] != y.Leaves[i] && !strings.HasPrefix(x.Leaves[i].name, e.hv) {
				if ls[i] == droppedT {
					continue
				}
				n.Leaves[i] = c.freshLeaf(e.hv+name, ls[i])
				ch = true
			}
		}
		for i := range x.Elems {
			v, d := e.havocDiff(x.Elems[i], y.Elems[i], fmt.Sprintf("%s.%d", name, i))
			if d {
				n.Elems[i] = v
				ch = true
			}
		}
		if ch {
			return &n, true
		}
		return old, false
	case *SliceV:
		y, ok := nv.(*SliceV)
		if !ok {
			break
		}
		if e.eqVal(e.curState, x.P, y.P, nil).IsTrue() && x.Off == y.Off && x.Len == y.Len && x.Cap == y.Cap {
			return old, false
		}
		n := *x
		ch := false
		fr := func(a, b *Term) *Term {
			if a == b || a.Op == "var" && strings.HasPrefix(a.Name, e.hv) {
				return a
			}
			ch = true
			return e.freshLen(e.hv + name)
		}
		n.Off, n.Len, n.Cap = fr(x.Off, y.Off), fr(x.Len, y.Len), fr(x.Cap, y.Cap)
		if !samePtrObjs(x.P, y.P) {
			if e.sums == nil {
				unsup("a slice stored in memory is replaced inside a loop")
			}
			e.sums.key = name
			p, w := (&act{e: e}).widenPtr(x.P, y.P, e.sums.st, true)
			if w {
				n.P = p
				ch = true
			}
		}
		if ch {
			e.nilCap(&n)
		}
		if ch {
			c.Axioms = append(c.Axioms, c.le(n.Len, n.Cap))
			return &n, true
		}
		return old, false
	case *StrV:
		y, ok := nv.(*StrV)
		if ok && (x.A == y.A && x.Off == y.Off && x.Len == y.Len || strings.HasPrefix(x.A.name, e.hv)) {
			return old, false
		}
		return &StrV{A: c.NewUF(e.hv+name, c.byteSort(), 8, false), Off: c.idx(0), Len: e.freshLen(e.hv + "len")}, true
	case *PtrV:
		y, ok := nv.(*PtrV)
		if ok && (samePtr(x, y) || e.widened[x] == e.hv && samePtrObjs(x, y)) {
			return old, false
		}
		if ok && samePtrObjs(x, y) && e.sums != nil {
			return (&act{e: e}).widenPtr(x, y, e.sums.st, false)
		}
		unsup("a pointer stored in memory changes inside a loop")
	case *MapO:
		y := nv.(*MapO)
		if len(x.Log) == len(y.Log) {
			same := true
			for i := range x.Log {
				if x.Log[i].V != y.Log[i].V || x.Log[i].K != y.Log[i].K {
					same = false
				}
			}
			if same {
				return old, false
			}
		}
		if len(x.Base) > 0 && strings.HasPrefix(x.Base[0].name, e.hv) && len(x.Log) == 0 {
			return old, false
		}
		return e.havocMap(x, e.hv+name), true
	case *IfaceV:
		if y, ok := nv.(*IfaceV); ok {
			return e.widenIface(x, y)
		}
	case *FuncV, *OpaqueV:
		if sameVal(old, nv) {
			return old, false
		}
	case *Poison:
		return old, false
	}
	unsup("loop changes %T", old)
	return nil, false
}

func samePtrObjs(x, y *PtrV) bool {
	in := func(al PtrAlt, p *PtrV) bool {
		for _, b := range p.Alts {
			if b.Obj == al.Obj && samePath(b.Path, al.Path) {
				return true
			}
		}
		return false
	}
	for _, al := range y.Alts {
		if !in(al, x) {
			return false
		}
	}
	return true
}

func (e *Eng) freshLike(t *Term, name string) *Term {
	if t.Sort == SInt {
		// machine range unknown here: use the widest (64-bit either sign)
		v := e.c.Fresh(name, SInt)
		return v
	}
	return e.c.Fresh(name, t.Sort)
}

// invArgs binds the invariant's parameters: k, loop variables by source name,
// entry_<name> for their values at loop entry, function parameters by name,
// falling back on type when a name no longer exists. A parameter has_<name>
// tells whether there is a value for <name>, which is then allowed to be absent.
func (a *act) invArgs(st *State, iu *invUse, phis []*ssa.Phi, phv, entry []Val, env envT, k *Term) []Val {
	var out []Val
	used := map[int]bool{}
	has := map[string]int{}
	for _, p := range iu.fn.Params {
		nm := p.Name()
		if strings.HasPrefix(nm, "has_") {
			has[nm[4:]] = len(out)
			out = append(out, a.e.c.T)
			continue
		}
		if nm == "k" {
			out = append(out, k)
			continue
		}
		src := phv
		if strings.HasPrefix(nm, "entry_") {
			nm = nm[6:]
			src = entry
		}
		found := false
		for i, ph := range phis {
			if ph.Comment == nm && types.Identical(ph.Type(), p.Type()) {
				out = append(out, src[i])
				used[i] = true
				found = true
				break
			}
		}
		if found {
			continue
		}
		// a variable of the function, the latest of that name (captured ones live in memory)
		var best Val
		bestPos, bestRef, mem := token.NoPos, token.NoPos, false
		consider := func(v Val, pos, ref token.Pos, m bool) {
			if best == nil || pos > bestPos || pos == bestPos && (m && !mem || m == mem && ref > bestRef) {
				best, bestPos, bestRef, mem = v, pos, ref, m
			}
		}
		inMem := func(v ssa.Value, name string, t types.Type) {
			pt, ok := t.Underlying().(*types.Pointer)
			if !ok || name != nm || !types.Identical(pt.Elem(), p.Type()) {
				return
			}
			if pv, ok := env[v].(*PtrV); ok {
				consider(a.e.loadPtr(st, pv), v.Pos(), token.NoPos, true)
			}
		}
		for _, b := range a.fn.Blocks {
			for _, in := range b.Instrs {
				if al, ok := in.(*ssa.Alloc); ok {
					inMem(al, al.Comment, al.Type())
				}
			}
		}
		for _, fv := range a.fn.FreeVars {
			inMem(fv, fv.Name(), fv.Type())
			if fv.Name() == nm && types.Identical(fv.Type(), p.Type()) {
				consider(env[fv], fv.Pos(), token.NoPos, false)
			}
		}
		for _, pp := range a.fn.Params {
			if pp.Name() == nm && types.Identical(pp.Type(), p.Type()) {
				consider(env[pp], pp.Pos(), token.NoPos, false)
			}
		}
		for v := range env {
			switch v.(type) {
			case *ssa.Parameter, *ssa.FreeVar:
				continue
			}
			if n, ok := a.localName(v); ok && n == nm && types.Identical(v.Type(), p.Type()) {
				consider(env[v], a.namePos[v], a.refPos[v], false)
			}
		}
		if best != nil {
			out = append(out, best)
			continue
		}
		// a variable of a function this one is called from, or that its caller captured
		for ai := len(a.e.acts) - 2; ai >= 0 && !found; ai-- {
			o := a.e.acts[ai]
			for v, x := range o.cur {
				switch y := v.(type) {
				case *ssa.Alloc:
					if y.Comment != nm || !types.Identical(y.Type().Underlying().(*types.Pointer).Elem(), p.Type()) {
						continue
					}
				case *ssa.FreeVar:
					pt, ok := y.Type().Underlying().(*types.Pointer)
					if y.Name() != nm || !ok || !types.Identical(pt.Elem(), p.Type()) {
						continue
					}
				default:
					continue
				}
				if pv, ok := x.(*PtrV); ok {
					out = append(out, a.e.loadPtr(st, pv))
					found = true
					break
				}
			}
		}
		if found {
			continue
		}
		// by type: an unused loop variable, then a parameter
		for i, ph := range phis {
			if !used[i] && types.Identical(ph.Type(), p.Type()) {
				out = append(out, src[i])
				used[i] = true
				found = true
				break
			}
		}
		if found {
			continue
		}
		for _, pp := range a.fn.Params {
			if types.Identical(pp.Type(), p.Type()) {
				out = append(out, env[pp])
				found = true
				break
			}
		}
		if at, opt := has[p.Name()]; opt && !found {
			out[at] = a.e.c.F
			out = append(out, a.e.c.zero(p.Type()))
			found = true
		}
		if !found {
			unsup("invariant %s: no value for parameter %s", iu.fn.Name(), p.Name())
		}
	}
	return out
}

// later: of two variables of a name, the one defined later in the source.
func (a *act) localName(v ssa.Value) (string, bool) {
	if a.names == nil {
		a.names = map[ssa.Value]string{}
		a.namePos = map[ssa.Value]token.Pos{}
		a.refPos = map[ssa.Value]token.Pos{}
		for _, b := range a.fn.Blocks {
			for _, in := range b.Instrs {
				if d, ok := in.(*ssa.DebugRef); ok && !d.IsAddr {
					if obj := d.Object(); obj != nil {
						a.names[d.X] = obj.Name()
						a.namePos[d.X] = obj.Pos()
						if d.Pos() > a.refPos[d.X] {
							a.refPos[d.X] = d.Pos()
						}
					}
				}
			}
		}
	}
	n, ok := a.names[v]
	return n, ok
}

// havocMap is a map with arbitrary contents.
func (e *Eng) havocMap(x *MapO, name string) *MapO {
	c := e.c
	n := &MapO{KT: x.KT, VT: x.VT, Len: e.freshLen(name + ".maplen")}
	n.Base = append(n.Base, c.NewUF(name, SBool, 0, false))
	lv, ok := c.leafTypes(x.VT)
	if !ok {
		if et, ok := sliceOfLeaves(c, x.VT); ok {
			// slices: their lengths and rows of elements
			n.Rows = true
			n.Base = append(n.Base, c.NewUF(name+".len", c.IdxSort(), 63, false))
			for _, lt := range et {
				n.Base = append(n.Base, c.freshLeaf(name, types.NewArray(lt, 0)))
			}
			e.assumes["slices held in a map of arbitrary contents are not written in place"] = true
			return n
		}
		n.Opaque = true
		return n
	}
	for _, l := range lv {
		n.Base = append(n.Base, c.freshLeaf(name, l))
	}
	return n
}

// sliceOfLeaves: the leaves of the elements of a slice type.
func sliceOfLeaves(c *Ctx, t types.Type) ([]types.Type, bool) {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	ls, ok := c.leafTypes(sl.Elem())
	for _, l := range ls {
		if _, _, _, sc := c.scalar(l); !sc {
			return nil, false
		}
	}
	return ls, ok
}
