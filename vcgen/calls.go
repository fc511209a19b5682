package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (a *act) doCall(st *State, env envT, cc *ssa.CallCommon, site ssa.Instruction) (*State, Val) {
	var fn Val
	fn = a.get(env, cc.Value)
	args := make([]Val, len(cc.Args))
	for i, x := range cc.Args {
		args[i] = a.get(env, x)
	}
	return a.callVal(st, cc, fn, args, site.Pos())
}

func (a *act) callVal(st *State, cc *ssa.CallCommon, fv Val, args []Val, pos token.Pos) (*State, Val) {
	e := a.e
	c := e.c
	e.curState = st
	if cc.IsInvoke() {
		iv, ok := fv.(*IfaceV)
		if !ok {
			unsup("invoke on %v in %s", fv, a.fn)
		}
		nilC := c.F
		var alts []IfaceAlt
		for _, al := range iv.Alts {
			if al.T == nil {
				nilC = c.Or(nilC, al.C)
			} else if !e.decide(st, al.C).IsFalse() {
				alts = append(alts, al)
			}
		}
		a.safety(st, "nil interface call", c.Not(nilC), pos)
		return a.branchCalls(st, len(alts), func(i int) *Term { return alts[i].C }, func(i int, s *State) (*State, Val) {
			al := alts[i]
			if al.T == opaqueErrT {
				if cc.Method.Name() == "Error" {
					return s, e.fresh(types.Typ[types.String], "errtext")
				}
				unsup("method %s on opaque value", cc.Method.Name())
			}
			m := e.prog.LookupMethod(al.T, cc.Method.Pkg(), cc.Method.Name())
			if m == nil {
				unsup("no method %s on %s", cc.Method.Name(), al.T)
			}
			return a.callFn(s, m, append([]Val{al.V}, args...), nil, pos)
		}, cc.Signature())
	}
	f, ok := fv.(*FuncV)
	if !ok {
		unsup("call of %v in %s", fv, a.fn)
	}
	var alts []FuncAlt
	nilC := c.F
	for _, al := range f.Alts {
		if al.Fn == nil && al.Bltn == nil {
			nilC = c.Or(nilC, al.C)
		} else if !e.decide(st, al.C).IsFalse() {
			alts = append(alts, al)
		}
	}
	if !nilC.IsFalse() {
		a.safety(st, "nil function call", c.Not(nilC), pos)
	}
	return a.branchCalls(st, len(alts), func(i int) *Term { return alts[i].C }, func(i int, s *State) (*State, Val) {
		if alts[i].Bltn != nil {
			return a.builtin(s, alts[i].Bltn.Name(), args, cc, pos)
		}
		return a.callFn(s, alts[i].Fn, args, alts[i].Bind, pos)
	}, cc.Signature())
}

func (a *act) branchCalls(st *State, n int, cond func(int) *Term, f func(int, *State) (*State, Val), sig *types.Signature) (*State, Val) {
	e := a.e
	if n == 0 {
		st.assume(e.c.F)
		e.curState = st
		var v Val = &Poison{"unreachable call"}
		if sig.Results().Len() > 0 {
			v = e.deadVal(sig.Results())
		}
		return st, v
	}
	if n == 1 {
		s, v := f(0, st)
		e.curState = s
		return s, v
	}
	var rs *State
	var rv Val
	for i := 0; i < n; i++ {
		s := st.clone()
		s.assume(cond(i))
		if e.dead(s) {
			continue
		}
		e.curState = s
		s2, v := f(i, s)
		if rs == nil {
			rs, rv = s2, v
		} else {
			m, sel := e.mergeStates(rs, s2)
			rs = m
			if rv != nil {
				rv = e.c.mergeVal(sel, rv, v)
			}
		}
	}
	if rs == nil {
		st.assume(e.c.F)
		rs = st
	}
	e.curState = rs
	return rs, rv
}

func (e *Eng) active(fn *ssa.Function) bool {
	for _, f := range e.fnStack {
		if f == fn {
			return true
		}
	}
	return false
}

// sameSig refuses a model whose parameters and results are not the function's.
func sameSig(m, fn *ssa.Function) {
	var ps, ms []types.Type
	if r := fn.Signature.Recv(); r != nil {
		ps = append(ps, r.Type())
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		ps = append(ps, fn.Signature.Params().At(i).Type())
	}
	for i := 0; i < m.Signature.Params().Len(); i++ {
		ms = append(ms, m.Signature.Params().At(i).Type())
	}
	ok := len(ps) == len(ms) && m.Signature.Results().Len() == fn.Signature.Results().Len()
	for i := 0; ok && i < len(ps); i++ {
		ok = types.Identical(ps[i], ms[i])
	}
	for i := 0; ok && i < m.Signature.Results().Len(); i++ {
		ok = types.Identical(m.Signature.Results().At(i).Type(), fn.Signature.Results().At(i).Type())
	}
	if !ok {
		unsup("the model %s has other parameters or results than %s", m.Name(), fn.String())
	}
}

func (a *act) callFn(st *State, fn *ssa.Function, args []Val, free []Val, pos token.Pos) (*State, Val) {
	e := a.e
	e.curState = st
	name := fn.String()
	if e.isSpecFn(fn) && fn.Parent() == nil && strings.HasPrefix(fn.Name(), "vc") && fn.Signature.Recv() == nil {
		s, v := a.intrinsic(st, fn, args, pos)
		e.curState = s
		return s, v
	}
	if m, ok := e.modelFns[name]; ok && (!e.modelRec[name] || e.active(fn)) {
		sameSig(m, fn)
		e.models["model of "+name] = true
		s, v := e.call(m, args, free, st)
		e.curState = s
		return s, v
	}
	if h, ok := stdModels[name]; ok {
		e.models["engine model of "+name] = true
		s, v := h(a, st, fn, args, pos)
		e.curState = s
		return s, v
	}
	// bound-method and thunk wrappers have no position but a body
	if len(e.inCaller) > 0 {
		top := e.inCaller[len(e.inCaller)-1]
		if top.target == fn && !top.called {
			top.called = true
			s, v := a.havocCall(st, fn, top)
			e.curState = s
			return s, v
		}
	}
	if ct, ok := e.use[name]; ok && e.specMode == 0 && !e.inVerify(ct) {
		e.models["contract "+ct.Name()+" used at calls of "+name] = true
		cm := &callerMode{target: fn}
		e.inCaller = append(e.inCaller, cm)
		// contract functions return what the target returned, through vcResult
		e.callerResult = nil
		s, v := e.call(ct, args, nil, st)
		e.inCaller = e.inCaller[:len(e.inCaller)-1]
		e.curState = s
		return s, v
	}
	if strings.HasPrefix(name, "(*github.com/rs/zerolog.") || strings.HasPrefix(name, "(github.com/rs/zerolog.") {
		if fn.Name() == "Fatal" || fn.Name() == "Panic" {
			unsup("%s", name)
		}
		e.models["logging (github.com/rs/zerolog) has no effect"] = true
		if fn.Signature.Results().Len() == 0 {
			return st, nil
		}
		return st, e.c.zero(fn.Signature.Results().At(0).Type())
	}
	if strings.HasPrefix(name, "(*sync.") || strings.HasPrefix(name, "(sync.") {
		e.models["sync primitives are no-ops (sequential semantics)"] = true
		var v Val
		if fn.Signature.Results().Len() > 0 {
			v = e.fresh(fn.Signature.Results(), "sync")
			if tv, ok := v.(*TupleV); ok && len(tv.F) == 1 {
				v = tv.F[0]
			}
		}
		return st, v
	}
	if fn.Blocks == nil {
		unsup("call of bodyless function %s", name)
	}
	s, v := e.call(fn, args, free, st)
	e.curState = s
	return s, v
}

func (e *Eng) inVerify(ct *ssa.Function) bool {
	for _, f := range e.fnStack {
		if f == ct {
			return true
		}
	}
	return false
}

// havocCall: the effect of a contracted call seen from a caller.
func (a *act) havocCall(st *State, fn *ssa.Function, cm *callerMode) (*State, Val) {
	e := a.e
	for _, m := range cm.modifies {
		a.havocTarget(st, m, "mod")
	}
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return st, nil
	case 1:
		return st, e.fresh(res.At(0).Type(), fn.Name())
	}
	return st, e.fresh(res, fn.Name())
}

// havocTarget replaces the memory a pointer or slice designates by fresh contents.
func (a *act) havocTarget(st *State, v Val, name string) {
	e := a.e
	c := e.c
	switch x := v.(type) {
	case *IfaceV:
		if len(x.Alts) != 1 {
			unsup("havoc of merged interface")
		}
		v = x.Alts[0].V
		a.havocTyped(st, v, x.Alts[0].T, name, false)
		return
	}
	_ = c
	unsup("havoc of %T", v)
}

func (a *act) havocTyped(st *State, v Val, t types.Type, name string, draw bool) {
	e := a.e
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p := v.(*PtrV)
		old := e.loadPtr(st, p)
		nv := a.havocVal(st, old, u.Elem(), name, draw)
		e.storePtr(st, p, nv)
	case *types.Slice:
		s := v.(*SliceV)
		if len(s.P.Alts) != 1 || s.P.Alts[0].Obj == 0 {
			if len(s.P.Alts) == 1 {
				return
			}
			if draw {
				unsup("havoc of merged slice")
			}
			var fa *ArrayV
			for _, al := range s.P.Alts {
				if al.Obj == 0 || e.decide(st, al.C).IsFalse() {
					continue
				}
				av := e.c.readPath(st.heap[al.Obj], al.Path).(*ArrayV)
				if av.Leaves == nil {
					unsup("havoc of merged slice")
				}
				if fa == nil {
					fa = e.freshArray(av.ET, s.Len, name)
				}
				n := *av
				n.Leaves = append([]*Arr(nil), av.Leaves...)
				for i := range n.Leaves {
					h := av.Leaves[i].over(e.c, s.Off, s.Len, fa.Leaves[i], e.c.idx(0))
					n.Leaves[i] = e.c.ArrIte(al.C, h, av.Leaves[i])
				}
				st.heap[al.Obj] = e.c.writePath(st.heap[al.Obj], al.Path, &n)
			}
			return
		}
		al := s.P.Alts[0]
		av := e.c.readPath(st.heap[al.Obj], al.Path).(*ArrayV)
		n := *av
		if av.Leaves == nil {
			n.Elems = append([]Val(nil), av.Elems...)
			lo, _ := s.Off.ConstI64()
			ln, ok := s.Len.ConstI64()
			if !ok {
				unsup("havoc of explicit slice with symbolic length")
			}
			for i := lo; i < lo+ln; i++ {
				n.Elems[i] = a.havocVal(st, n.Elems[i], av.ET, fmt.Sprintf("%s.%d", name, i), draw)
			}
		} else {
			fa := e.freshArray(av.ET, s.Len, name)
			n.Leaves = append([]*Arr(nil), av.Leaves...)
			ls, _ := e.c.leafTypes(av.ET)
			for i := range n.Leaves {
				// a window over the fresh contents
				z, lz := s.Off.ConstI64()
				_ = z
				if lz && z == 0 && s.Len == av.N {
					n.Leaves[i] = fa.Leaves[i]
				} else {
					n.Leaves[i] = av.Leaves[i].over(e.c, s.Off, s.Len, fa.Leaves[i], e.c.idx(0))
				}
			}
			if draw {
				a.drawArrays(st, fa, s.Len, ls, name)
			}
		}
		st.heap[al.Obj] = e.c.writePath(st.heap[al.Obj], al.Path, &n)
	case *types.Map:
		p := v.(*PtrV)
		if draw || len(p.Alts) != 1 || p.Alts[0].Obj == 0 {
			unsup("havoc of a map")
		}
		x, ok := st.heap[p.Alts[0].Obj].(*MapO)
		if !ok {
			unsup("havoc of a map")
		}
		st.heap[p.Alts[0].Obj] = e.havocMap(x, name)
	default:
		unsup("havoc of %s", t)
	}
}

// drawArrays records interleaved element draws (element-major order).
func (a *act) drawArrays(st *State, fa *ArrayV, n *Term, ls []types.Type, name string) {
	e := a.e
	if e.muted > 0 {
		return
	}
	e.draws = append(e.draws, Draw{Name: name, Pc: append([]*Term(nil), st.pc...), N: n, T: nil, A: nil})
	d := &e.draws[len(e.draws)-1]
	d.Multi = fa.Leaves
	for _, l := range ls {
		if l == droppedT {
			d.MBits = append(d.MBits, 0)
			d.MSign = append(d.MSign, false)
			continue
		}
		_, w, sg, ok := e.c.scalar(l)
		if !ok {
			unsup("drawing rows of an array of arrays")
		}
		d.MBits = append(d.MBits, w)
		d.MSign = append(d.MSign, sg)
	}
}

func (a *act) havocVal(st *State, old Val, t types.Type, name string, draw bool) Val {
	e := a.e
	c := e.c
	if s, w, sg, ok := c.scalar(t); ok {
		f := e.freshScalar(s, w, sg, name)
		if draw {
			a.draw(st, name, f, w, sg)
		}
		return f
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		ov, ok := old.(*StructV)
		if !ok {
			unsup("havoc struct %T", old)
		}
		n := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			n.F = append(n.F, a.havocVal(st, ov.F[i], u.Field(i).Type(), name+"."+u.Field(i).Name(), draw))
		}
		return n
	case *types.Array:
		ov := old.(*ArrayV)
		if ov.Leaves != nil {
			fa := e.freshArray(u.Elem(), ov.N, name)
			if draw {
				ls, _ := c.leafTypes(u.Elem())
				a.drawArrays(st, fa, ov.N, ls, name)
			}
			return fa
		}
		n := &ArrayV{ET: ov.ET, N: ov.N}
		for i, el := range ov.Elems {
			n.Elems = append(n.Elems, a.havocVal(st, el, u.Elem(), fmt.Sprintf("%s.%d", name, i), draw))
		}
		return n
	case *types.Slice:
		if draw {
			return old // slices are left as built by the harness
		}
		return e.fresh(t, name)
	case *types.Map:
		if draw {
			return old
		}
		lv, ok := c.leafTypes(u.Elem())
		if !ok {
			return old
		}
		mo := &MapO{KT: u.Key(), VT: u.Elem(), Len: e.freshLen(name + ".maplen")}
		mo.Base = append(mo.Base, c.NewUF(name+".has", SBool, 0, false))
		for i, l := range lv {
			mo.Base = append(mo.Base, c.freshLeaf(fmt.Sprintf("%s.v%d", name, i), l))
		}
		return c.ptrTo(e.newObj(mo))
	}
	return old
}

func (a *act) draw(st *State, name string, t *Term, w int, sg bool) {
	if a.e.muted > 0 {
		return
	}
	a.e.draws = append(a.e.draws, Draw{Name: name, Pc: append([]*Term(nil), st.pc...), T: t, Bits: w, Sign: sg})
}

// ---- builtins

func (a *act) builtin(st *State, name string, args []Val, cc *ssa.CallCommon, pos token.Pos) (*State, Val) {
	e := a.e
	c := e.c
	lenTerm := func(t *Term) Val { return t }
	switch name {
	case "len", "cap":
		switch v := args[0].(type) {
		case *SliceV:
			if name == "cap" {
				return st, lenTerm(v.Cap)
			}
			return st, lenTerm(v.Len)
		case *StrV:
			return st, lenTerm(v.Len)
		case *ArrayV:
			return st, lenTerm(v.N)
		case *PtrV:
			switch u := cc.Args[0].Type().Underlying().(type) {
			case *types.Map:
				r := c.idx(0)
				for _, al := range v.Alts {
					if al.Obj == 0 || e.decide(st, al.C).IsFalse() {
						continue
					}
					r = c.Ite(al.C, st.heap[al.Obj].(*MapO).Len, r)
				}
				return st, r
			case *types.Pointer:
				return st, c.idx(u.Elem().Underlying().(*types.Array).Len())
			}
		}
		unsup("%s of %v", name, args[0])
	case "append":
		return st, a.appendB(st, args[0], args[1], cc.Args[0].Type().Underlying().(*types.Slice).Elem())
	case "copy":
		dst := args[0].(*SliceV)
		var sn, soff *Term
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		var leaves []*Arr
		var elems []Val
		switch s := args[1].(type) {
		case *StrV:
			sn, soff, leaves = s.Len, s.Off, []*Arr{s.A}
		case *SliceV:
			sn, soff = s.Len, s.Off
			if _, ok := c.leafTypes(et); ok {
				leaves = e.sliceLeaves(st, s, et)
			} else {
				elems = e.sliceElems(st, s)
			}
		}
		var n *Term
		if x := c.le(dst.Len, sn); x.IsTrue() {
			n = dst.Len
		} else {
			n = c.Ite(x, dst.Len, sn)
			if e.decide(st, x).IsTrue() {
				n = dst.Len
			} else if e.decide(st, x).IsFalse() {
				n = sn
			}
		}
		if k, ok := n.ConstI64(); ok && k == 0 {
			return st, n
		}
		a.blit(st, dst, c.idx(0), n, leaves, soff, elems)
		return st, n
	case "delete":
		m, ok := args[0].(*PtrV)
		if !ok {
			unsup("delete from %v", args[0])
		}
		e.mapSet(st, m, args[1], nil, true)
		return st, nil
	case "print", "println":
		return st, nil
	case "close":
		return st, nil
	case "min", "max":
		r := args[0].(*Term)
		for _, x := range args[1:] {
			y := x.(*Term)
			lt := a.arith(st, token.LSS, r, y, cc.Args[0].Type(), cc.Args[0].Type(), pos)
			if name == "min" {
				r = c.Ite(lt, r, y)
			} else {
				r = c.Ite(lt, y, r)
			}
		}
		return st, r
	case "recover":
		return st, &IfaceV{Alts: []IfaceAlt{{C: c.T}}}
	case "ssa:wrapnilchk":
		return st, args[0]
	}
	unsup("builtin %s", name)
	return nil, nil
}

func (e *Eng) sliceElems(st *State, s *SliceV) []Val {
	c := e.c
	lo, ok1 := s.Off.ConstI64()
	n, ok2 := s.Len.ConstI64()
	if ok2 && n == 0 {
		return nil
	}
	if !ok1 || !ok2 {
		unsup("explicit slice with symbolic bounds")
	}
	var out []Val
	for i := lo; i < lo+n; i++ {
		out = append(out, e.loadPtr(st, c.extPath(s.P, PathElem{Idx: c.idx(i)})))
	}
	return out
}

// blit writes n elements at dst[doff..] (memmove semantics: sources are snapshots).
func (a *act) blit(st *State, dst *SliceV, doff, n *Term, leaves []*Arr, soff *Term, elems []Val) {
	e := a.e
	c := e.c
	var alts []PtrAlt
	for _, al := range dst.P.Alts {
		if al.Obj == 0 || e.decide(st, al.C).IsFalse() {
			continue
		}
		alts = append(alts, al)
	}
	for _, al := range alts {
		av := c.readPath(st.heap[al.Obj], al.Path).(*ArrayV)
		nv := *av
		if av.Leaves != nil {
			nv.Leaves = append([]*Arr(nil), av.Leaves...)
			for i := range nv.Leaves {
				nl := nv.Leaves[i].CopyIn(c, c.add(dst.Off, doff), n, leaves[i], soff)
				if len(alts) > 1 {
					nl = c.ArrIte(al.C, nl, av.Leaves[i])
				}
				nv.Leaves[i] = nl
			}
		} else {
			k, ok := n.ConstI64()
			if !ok {
				unsup("copy of explicit elements with symbolic count")
			}
			for i := int64(0); i < k; i++ {
				at := c.add(c.add(dst.Off, doff), c.idx(i))
				v := elems[i]
				if len(alts) > 1 {
					v = c.mergeVal(al.C, v, c.elem(&nv, at))
				}
				nv = *c.setElem(&nv, at, v)
			}
		}
		st.heap[al.Obj] = c.writePath(st.heap[al.Obj], al.Path, &nv)
	}
}

func (a *act) appendB(st *State, s0, x0 Val, et types.Type) Val {
	e := a.e
	c := e.c
	s, ok := s0.(*SliceV)
	if !ok {
		unsup("append to %v in %s", s0, a.fn)
	}
	var n, soff *Term
	var leaves []*Arr
	var elems []Val
	lts, scalarET := c.leafTypes(et)
	switch x := x0.(type) {
	case *StrV:
		n, soff, leaves = x.Len, x.Off, []*Arr{x.A}
	case *SliceV:
		n, soff = x.Len, x.Off
		if scalarET {
			leaves = e.sliceLeaves(st, x, et)
		} else {
			elems = e.sliceElems(st, x)
		}
	default:
		unsup("append of %v", x0)
	}
	if k, ok := n.ConstI64(); ok && k == 0 {
		return s
	}
	newLen := c.add(s.Len, n)
	fits := e.decide(st, c.le(newLen, s.Cap))
	if len(s.P.Alts) == 1 && s.P.Alts[0].Obj == 0 {
		fits = c.F
		if _, ok := n.ConstI64(); !ok {
			fits = c.F // n==0 keeps nil; an empty non-nil slice is indistinguishable except by == nil
		}
	}
	if !scalarET {
		if k, ok := newLen.ConstI64(); !ok {
			_ = k
			unsup("append of %s with symbolic length", et)
		}
		if !fits.IsTrue() {
			fits = c.F
		}
	}
	mk := func() *SliceV { // reallocated result
		var ncap *Term
		if scalarET {
			ncap = e.freshLen("cap")
			c.Axioms = append(c.Axioms, c.mkImpliesLen(newLen, ncap))
			if c.IntMod {
				// the allocation never shrinks
			}
		} else {
			ncap = newLen
		}
		av := &ArrayV{ET: et, N: ncap}
		if scalarET {
			old := e.sliceLeaves(st, s, et)
			for i, lt := range lts {
				l := c.zeroLeafArr(lt).CopyIn(c, c.idx(0), s.Len, old[i], s.Off)
				l = l.CopyIn(c, s.Len, n, leaves[i], soff)
				av.Leaves = append(av.Leaves, l)
			}
		} else {
			av.Elems = append(av.Elems, e.sliceElems(st, s)...)
			av.Elems = append(av.Elems, elems...)
		}
		id := e.newObj(av)
		return &SliceV{P: c.ptrTo(id), Off: c.idx(0), Len: newLen, Cap: ncap}
	}
	if fits.IsFalse() {
		return mk()
	}
	if fits.IsTrue() {
		a.blit(st, s, s.Len, n, leaves, soff, elems)
		return &SliceV{P: s.P, Off: s.Off, Len: newLen, Cap: s.Cap}
	}
	grown := mk()
	// in-place write happens only when it fits
	g := &SliceV{P: &PtrV{}, Off: s.Off, Len: s.Len, Cap: s.Cap}
	for _, al := range s.P.Alts {
		if al.Obj != 0 {
			al.C = c.And(al.C, fits)
			g.P.Alts = append(g.P.Alts, al)
		}
	}
	g.P.Alts = append(g.P.Alts, PtrAlt{C: c.Not(fits)})
	a.blitGuard(st, g, s.Len, n, leaves, soff)
	in := &SliceV{P: s.P, Off: s.Off, Len: newLen, Cap: s.Cap}
	return c.mergeVal(fits, in, grown)
}

func (c *Ctx) mkImpliesLen(a, b *Term) *Term {
	// newLen is below 2^49 whenever both lengths are; b >= a
	if c.IntMod {
		return c.mkLe(a, b)
	}
	// lengths may exceed the 2^48 modelling bound only when a does
	return c.Or(c.BVCmp("bvule", a, b), c.Not(c.BVCmp("bvule", a, c.BVc(1<<48, 64))))
}

func (a *act) blitGuard(st *State, dst *SliceV, doff, n *Term, leaves []*Arr, soff *Term) {
	e := a.e
	c := e.c
	for _, al := range dst.P.Alts {
		if al.Obj == 0 || e.decide(st, al.C).IsFalse() {
			continue
		}
		av := c.readPath(st.heap[al.Obj], al.Path).(*ArrayV)
		nv := *av
		nv.Leaves = append([]*Arr(nil), av.Leaves...)
		for i := range nv.Leaves {
			nl := nv.Leaves[i].CopyIn(c, c.add(dst.Off, doff), n, leaves[i], soff)
			nv.Leaves[i] = c.ArrIte(al.C, nl, av.Leaves[i])
		}
		st.heap[al.Obj] = c.writePath(st.heap[al.Obj], al.Path, &nv)
	}
}

// ---- specification intrinsics

func strArg(v Val) string {
	s, ok := v.(*StrV)
	if !ok {
		return "?"
	}
	n, _ := s.Len.ConstI64()
	var b []byte
	off, _ := s.Off.ConstI64()
	cc := theCtx
	for i := int64(0); i < n; i++ {
		k, _ := s.A.Select(cc, cc.idx(off+i)).ConstI64()
		b = append(b, byte(k))
	}
	return string(b)
}

var theCtx *Ctx

func (a *act) intrinsic(st *State, fn *ssa.Function, args []Val, pos token.Pos) (*State, Val) {
	e := a.e
	c := e.c
	name := fn.Name()
	scalarDraw := func(t types.Type) Val {
		s, w, sg, _ := c.scalar(t)
		nm := strArg(args[0])
		v := e.freshScalar(s, w, sg, nm)
		a.draw(st, nm, v, w, sg)
		return v
	}
	switch name {
	case "vcU64", "vcU32", "vcU16", "vcU8", "vcI64", "vcI32", "vcI16", "vcI8", "vcInt", "vcBool":
		return st, scalarDraw(fn.Signature.Results().At(0).Type())
	case "vcNondetBool", "vcNondetU64", "vcNondetI64", "vcNondetInt", "vcNondetU32":
		s, w, sg, _ := c.scalar(fn.Signature.Results().At(0).Type())
		return st, e.freshScalar(s, w, sg, "nondet")
	case "vcNondetErr":
		return st, e.fresh(fn.Signature.Results().At(0).Type(), "nondet")
	case "vcErr": // a definite, distinct error
		e.opq++
		return st, &IfaceV{Alts: []IfaceAlt{{C: c.T, T: opaqueErrT, V: &OpaqueV{e.opq}}}}
	case "vcNondetBytes":
		n := args[0].(*Term)
		fa := e.freshArray(types.Typ[types.Uint8], n, "ndbytes")
		return st, &SliceV{P: c.ptrTo(e.newObj(fa)), Off: c.idx(0), Len: n, Cap: n}
	case "vcRange":
		v := scalarDraw(types.Typ[types.Int]).(*Term)
		st.assume(c.And(c.le(args[1].(*Term), v), c.le(v, args[2].(*Term))))
		return st, v
	case "vcBytes", "vcStr":
		nm := strArg(args[0])
		l := e.freshLen(nm + ".len")
		a.draw(st, nm+".len", l, 64, true)
		mn, mx := args[1].(*Term), args[2].(*Term)
		st.assume(c.le(mn, l))
		if k, ok := mx.ConstI64(); !ok || k >= 0 {
			st.assume(c.le(l, mx))
			if k, ok2 := mn.ConstI64(); ok && ok2 {
				if k2, _ := mx.ConstI64(); k == k2 {
					l = mn
				}
			}
		}
		fa := e.freshArray(types.Typ[types.Uint8], l, nm)
		a.drawArrays(st, fa, l, []types.Type{types.Typ[types.Uint8]}, nm)
		if name == "vcStr" {
			return st, &StrV{A: fa.Leaves[0], Off: c.idx(0), Len: l}
		}
		return st, &SliceV{P: c.ptrTo(e.newObj(fa)), Off: c.idx(0), Len: l, Cap: l}
	case "vcHavoc":
		iv := args[0].(*IfaceV)
		a.havocTyped(st, iv.Alts[0].V, iv.Alts[0].T, "h", true)
		return st, nil
	case "vcScramble": // havoc without a draw (model-side)
		iv := args[0].(*IfaceV)
		a.havocTyped(st, iv.Alts[0].V, iv.Alts[0].T, "s", false)
		return st, nil
	case "vcAssume":
		st.assume(args[0].(*Term))
		return st, nil
	case "vcAssert", "vcEnsures", "vcRequires":
		t, ok := args[1].(*Term)
		if !ok {
			unsup("%s on %v", name, args[1])
		}
		caller := len(e.inCaller) > 0 && a.fn.Name() != "" && e.isCT(a.fn)
		if caller {
			if name == "vcRequires" {
				e.oblige(st, "requires", "precondition "+strArg(args[0])+" of "+shortFn(e.inCaller[len(e.inCaller)-1].target), t, pos, a.fn)
			} else {
				st.assume(t)
			}
			return st, nil
		}
		if name == "vcRequires" {
			st.assume(t)
			return st, nil
		}
		if name == "vcEnsures" { // checked, and not assumed afterwards
			pc := st.pc
			e.oblige(st, "ensures", strArg(args[0]), t, pos, a.fn)
			for _, t := range st.pc[len(pc):] {
				delete(st.pcs, t)
			}
			st.pc = pc
			return st, nil
		}
		e.oblige(st, "ensures", strArg(args[0]), t, pos, a.fn)
		return st, nil
	case "vcModifies":
		sl := args[0].(*SliceV)
		els := e.sliceElems(st, sl)
		if len(e.inCaller) > 0 && e.isCT(a.fn) {
			top := e.inCaller[len(e.inCaller)-1]
			top.modifies = append(top.modifies, els...)
			return st, nil
		}
		e.frames = append(e.frames, frameRec{fn: a.fn, snap: snapHeap(st), mods: els})
		return st, nil
	case "vcFrame": // end of a contract function: check the frame
		for i := len(e.frames) - 1; i >= 0; i-- {
			if e.frames[i].fn == a.fn {
				a.checkFrame(st, e.frames[i], pos)
				e.frames = append(e.frames[:i], e.frames[i+1:]...)
				break
			}
		}
		return st, nil
	case "vcCover":
		if e.muted == 0 {
			e.obls = append(e.obls, &Obligation{Name: strArg(args[0]), Kind: "cover", Hyp: append([]*Term(nil), st.pc...), Goal: c.F, Pos: e.pos(pos), Fn: fnName(a.fn)})
		}
		return st, nil
	case "vcForall", "vcExists":
		lo, hi := args[0].(*Term), args[1].(*Term)
		lc, ok1 := lo.ConstI64()
		hc, ok2 := hi.ConstI64()
		f := args[2].(*FuncV)
		if ok1 && ok2 && hc-lc <= 64 {
			var ts []*Term
			for i := lc; i < hc; i++ {
				ts = append(ts, a.pureApply(st, f, []Val{c.idx(i)}))
			}
			if name == "vcForall" {
				return st, c.And(ts...)
			}
			return st, c.Or(ts...)
		}
		q := c.BoundVar(c.IdxSort())
		b := a.pureApply(st, f, []Val{q})
		in := c.And(c.le(lo, q), c.lt(q, hi))
		b = c.under(b, append([]*Term{in}, st.pc...))
		if name == "vcForall" {
			return st, c.Forall(q, c.Implies(in, b))
		}
		return st, c.Not(c.Forall(q, c.Implies(in, c.Not(b))))
	case "vcForall64": // over all uint64
		f := args[0].(*FuncV)
		q := c.BoundVar(c.IdxSort())
		b := a.pureApply(st, f, []Val{q})
		if c.IntMod {
			lo, hi := tyRange(64, false)
			b = c.Implies(c.And(c.mkLe(c.IntBig(lo), q), c.mkLe(q, c.IntBig(hi))), b)
		}
		return st, c.Forall(q, b)
	case "vcOldInt", "vcOldU64", "vcOldBool", "vcOldU32", "vcOldI64", "vcOldU8":
		if len(e.oldHeap) == 0 {
			unsup("vcOld outside an invariant")
		}
		old := &State{heap: e.oldHeap[len(e.oldHeap)-1], pc: st.pc, pcs: st.pcs}
		old = old.clone()
		for id, v := range st.heap { // captured variables of the invariant
			if _, ok := old.heap[id]; !ok {
				old.heap[id] = v
			}
		}
		return st, a.pureApply(old, args[0].(*FuncV), nil)
	case "vcPanics":
		f := args[0].(*FuncV)
		cr := &captureRec{}
		e.capture = append(e.capture, cr)
		before := len(st.pc)
		_ = before
		s2 := st.clone()
		_, _ = a.callFn(s2, f.Alts[0].Fn, nil, f.Alts[0].Bind, pos)
		e.capture = e.capture[:len(e.capture)-1]
		e.curState = st
		return st, c.Or(cr.cond...)
	case "vcSameErr":
		return st, e.eqVal(st, args[0], args[1], fn.Signature.Params().At(0).Type())
	case "vcEqBytes":
		x, y := args[0].(*SliceV), args[1].(*SliceV)
		bt := types.Typ[types.Uint8]
		return st, e.eqSeq(e.sliceLeaves(st, x, bt)[0], x.Off, x.Len, e.sliceLeaves(st, y, bt)[0], y.Off, y.Len)
	case "vcAlias": // the same memory
		x, y := args[0].(*SliceV), args[1].(*SliceV)
		return st, c.And(e.eqVal(st, x.P, y.P, types.NewPointer(types.Typ[types.Uint8])), c.Eq(x.Off, y.Off))
	case "vcCopyBytes": // an independent snapshot
		x := args[0].(*SliceV)
		bt := types.Typ[types.Uint8]
		l := e.sliceLeaves(st, x, bt)
		id := e.newObj(&ArrayV{ET: bt, N: x.Len, Leaves: []*Arr{c.shiftArr(l[0], x.Off)}})
		return st, &SliceV{P: c.ptrTo(id), Off: c.idx(0), Len: x.Len, Cap: x.Len}
	case "vcAdd": // mathematical addition in specifications
		if c.IntMod {
			return st, c.IAdd(args[0].(*Term), args[1].(*Term))
		}
		return st, c.add(args[0].(*Term), args[1].(*Term))
	case "vcMapForall": // of every key and value in the map
		mi, fi := args[0].(*IfaceV), args[1].(*IfaceV)
		mp, ok := mi.Alts[0].V.(*PtrV)
		if !ok || len(mi.Alts) != 1 || len(mp.Alts) != 1 {
			unsup("vcMapForall of merged maps")
		}
		m, ok := st.heap[mp.Alts[0].Obj].(*MapO)
		if !ok || len(m.Log) > 0 || m.Base == nil || m.Opaque {
			unsup("vcMapForall of a map with known entries")
		}
		q := c.BoundVar(c.IdxSort())
		st2 := st.clone()
		e.curState = st2
		k := e.boundKey(q, m.KT)
		v := e.mapAtIdx(st2, m, q)
		b := a.pureApply(st2, fi.Alts[0].V.(*FuncV), []Val{k, v})
		e.curState = st
		return st, c.Forall(q, c.Implies(m.Base[0].Select(c, q), b))
	case "vcToCome": // the map still holds every key that the range over it has yet to pass
		mp, ok := args[0].(*IfaceV).Alts[0].V.(*PtrV)
		if !ok || len(mp.Alts) != 1 || len(args[0].(*IfaceV).Alts) != 1 {
			unsup("vcToCome of merged maps")
		}
		it := e.iters[mp.Alts[0].Obj]
		m, ok := st.heap[mp.Alts[0].Obj].(*MapO)
		if it == nil || !ok {
			unsup("vcToCome before the range")
		}
		pos, ok := st.heap[it.pos].(*Term)
		if !ok {
			unsup("vcToCome before the range")
		}
		q := c.BoundVar(c.IdxSort())
		return st, c.Forall(q, c.Implies(c.And(it.present(q), c.le(pos, c.App(it.posOf, c.IdxSort(), q))), e.presentIn(m, q)))
	case "vcVisited": // the range over the map has passed the key
		p := args[0].(*IfaceV)
		if len(p.Alts) != 1 {
			unsup("vcVisited of merged maps")
		}
		mp, ok := p.Alts[0].V.(*PtrV)
		if !ok || len(mp.Alts) != 1 {
			unsup("vcVisited of merged maps")
		}
		it := e.iters[mp.Alts[0].Obj]
		if it == nil {
			return st, c.F
		}
		if it.pos == 0 {
			unsup("vcVisited before the range")
		}
		ki := args[1].(*IfaceV)
		idx := e.mapKeyIdx(ki.Alts[0].V, it.mt.Key())
		pos, _ := st.heap[it.pos].(*Term)
		return st, c.And(it.present(idx), c.lt(e.iterKey(it, idx), pos))
	case "vcImplies":
		return st, c.Implies(args[0].(*Term), args[1].(*Term))
	case "vcSymbolic":
		return st, c.T
	case "vcSkip":
		return st, nil
	}
	// any other vc* helper is ordinary specification code
	return e.call(fn, args, nil, st)
}

// isCT: is this the contract function being executed in caller mode?
func (e *Eng) isCT(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return strings.HasPrefix(fn.Name(), "CT_")
}

// pureApply evaluates a specification closure to a term, with no obligations.
func (a *act) pureApply(st *State, f *FuncV, args []Val) *Term {
	e := a.e
	if len(f.Alts) != 1 || f.Alts[0].Fn == nil {
		unsup("specification closure is not a single function")
	}
	e.specMode++
	s2 := st.clone()
	keep := e.curState
	e.curState = s2
	_, v := e.call(f.Alts[0].Fn, args, f.Alts[0].Bind, s2)
	e.curState = keep
	e.specMode--
	t, ok := v.(*Term)
	if !ok {
		unsup("specification closure returned %v", v)
	}
	return t
}

func snapHeap(st *State) map[int]Val {
	m := make(map[int]Val, len(st.heap))
	for k, v := range st.heap {
		m[k] = v
	}
	return m
}

type frameRec struct {
	fn   *ssa.Function
	snap map[int]Val
	mods []Val
}

// checkFrame: every object that existed at vcModifies time is unchanged except
// for what the modifies list designates.
func (a *act) checkFrame(st *State, fr frameRec, pos token.Pos) {
	e := a.e
	c := e.c
	want := &State{heap: fr.snap, pc: st.pc, pcs: st.pcs}
	// overwrite the modifiable parts in the snapshot with the current contents
	for _, m := range fr.mods {
		iv, ok := m.(*IfaceV)
		if !ok || len(iv.Alts) != 1 {
			unsup("modifies list")
		}
		switch u := iv.Alts[0].T.Underlying().(type) {
		case *types.Pointer:
			p := iv.Alts[0].V.(*PtrV)
			e.storePtr(want, p, e.loadPtr(st, p))
			_ = u
		case *types.Slice:
			s := iv.Alts[0].V.(*SliceV)
			for _, al := range s.P.Alts {
				if al.Obj == 0 {
					continue
				}
				want.heap[al.Obj] = c.writePath(want.heap[al.Obj], al.Path, c.readPath(st.heap[al.Obj], al.Path))
			}
		case *types.Map:
			p := iv.Alts[0].V.(*PtrV)
			for _, al := range p.Alts {
				if al.Obj != 0 {
					want.heap[al.Obj] = st.heap[al.Obj]
				}
			}
		}
	}
	var ids []int
	for id := range fr.snap {
		ids = append(ids, id)
	}
	var goals []*Term
	for _, id := range ids {
		goals = append(goals, e.sameVal(want.heap[id], st.heap[id]))
	}
	e.oblige(st, "frame", "nothing outside the modifies list changes", c.And(goals...), pos, fr.fn)
}

// sameVal: structural equality of memory contents.
func (e *Eng) sameVal(x, y Val) *Term {
	c := e.c
	if x == y {
		return c.T
	}
	switch a := x.(type) {
	case *Term:
		if b, ok := y.(*Term); ok && a.Sort == b.Sort {
			return c.Eq(a, b)
		}
	case *StructV:
		b, ok := y.(*StructV)
		if ok && len(a.F) == len(b.F) {
			var ts []*Term
			for i := range a.F {
				ts = append(ts, e.sameVal(a.F[i], b.F[i]))
			}
			return c.And(ts...)
		}
	case *ArrayV:
		b, ok := y.(*ArrayV)
		if ok && len(a.Leaves) == len(b.Leaves) && len(a.Elems) == len(b.Elems) {
			var ts []*Term
			for i := range a.Leaves {
				if a.Leaves[i] != b.Leaves[i] && a.Leaves[i].kind == A2 {
					return c.F
				}
				if a.Leaves[i] != b.Leaves[i] {
					ts = append(ts, e.eqSeq(a.Leaves[i], c.idx(0), a.N, b.Leaves[i], c.idx(0), b.N))
				}
			}
			for i := range a.Elems {
				ts = append(ts, e.sameVal(a.Elems[i], b.Elems[i]))
			}
			return c.And(ts...)
		}
	case *StrV:
		if b, ok := y.(*StrV); ok {
			return e.eqStr(a, b)
		}
	case *PtrV, *IfaceV:
		return e.eqVal(e.curState, x, y, nil)
	case *SliceV:
		if b, ok := y.(*SliceV); ok {
			return c.And(e.eqVal(e.curState, a.P, b.P, nil), c.Eq(a.Off, b.Off), c.Eq(a.Len, b.Len), c.Eq(a.Cap, b.Cap))
		}
	case *MapO:
		return c.F
	case *Poison:
		return c.T
	}
	return c.F
}
