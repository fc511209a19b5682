package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func newBig(v constant.Value) (*big.Int, bool) {
	switch x := constant.Val(v).(type) {
	case int64:
		return big.NewInt(x), true
	case *big.Int:
		return x, true
	}
	return nil, false
}

func (c *Ctx) fpConst(s Sort, f float64) *Term {
	if s == SF32 {
		return c.mk(&Term{Op: "const", Sort: s, U: uint64(math.Float32bits(float32(f)))})
	}
	return c.mk(&Term{Op: "const", Sort: s, U: math.Float64bits(f)})
}

func (e *Eng) neg(t *Term, ty types.Type) *Term {
	c := e.c
	s, w, sg, _ := c.scalar(ty)
	switch {
	case s == SInt:
		return c.wrap(c.ISub(c.Intc(0), t), w, sg)
	case s.IsBV():
		return c.BVBin("bvsub", c.BVc(0, w), t)
	}
	return c.mk(&Term{Op: "fp.neg", Sort: s, Args: []*Term{t}})
}
func (e *Eng) bitnot(t *Term, ty types.Type) *Term {
	c := e.c
	s, w, sg, _ := c.scalar(ty)
	if s == SInt {
		if sg {
			return c.ISub(c.Intc(-1), t)
		}
		_, hi := tyRange(w, false)
		return c.ISub(c.IntBig(hi), t)
	}
	return c.BVBin("bvxor", t, c.BVc(^uint64(0), w))
}

func (a *act) binop(st *State, x *ssa.BinOp, env envT) Val {
	e := a.e
	c := e.c
	l, r := a.get(env, x.X), a.get(env, x.Y)
	switch x.Op {
	case token.EQL:
		return e.eqVal(st, l, r, x.X.Type())
	case token.NEQ:
		return c.Not(e.eqVal(st, l, r, x.X.Type()))
	}
	if ls, ok := l.(*StrV); ok {
		rs := r.(*StrV)
		switch x.Op {
		case token.ADD:
			return e.concatStr(ls, rs)
		}
		unsup("string operator %s", x.Op)
	}
	lt, ok1 := l.(*Term)
	rt, ok2 := r.(*Term)
	if !ok1 || !ok2 {
		unsup("binop %s on %v, %v in %s", x.Op, l, r, a.fn)
	}
	return a.arith(st, x.Op, lt, rt, x.X.Type(), x.Y.Type(), x.Pos())
}

func (a *act) arith(st *State, op token.Token, x, y *Term, tx, ty types.Type, pos token.Pos) *Term {
	e := a.e
	c := e.c
	s, w, sg, ok := c.scalar(tx)
	if !ok {
		unsup("arith on %s", tx)
	}
	if s == SBool {
		switch op {
		case token.AND, token.LAND:
			return c.And(x, y)
		case token.OR, token.LOR:
			return c.Or(x, y)
		}
		unsup("bool op %s", op)
	}
	if s == SF64 || s == SF32 {
		return e.fpArith(op, x, y, s)
	}
	if op == token.SHL || op == token.SHR {
		_, wy, sgy, _ := c.scalar(ty)
		if sgy {
			if s == SInt {
				a.safety(st, "shift count", c.ILe(c.Intc(0), y), pos)
			} else {
				a.safety(st, "shift count", c.BVCmp("bvsle", c.BVc(0, wy), y), pos)
			}
		}
		return e.shift(op, x, y, s, w, sg, wy)
	}
	if op == token.QUO || op == token.REM {
		var z *Term
		if s == SInt {
			z = c.Intc(0)
		} else {
			z = c.BVc(0, w)
		}
		a.safety(st, "division by zero", c.Not(c.Eq(y, z)), pos)
	}
	if s == SInt {
		return e.intArith(op, x, y, w, sg)
	}
	switch op {
	case token.ADD:
		return c.BVBin("bvadd", x, y)
	case token.SUB:
		return c.BVBin("bvsub", x, y)
	case token.MUL:
		return c.BVBin("bvmul", x, y)
	case token.QUO:
		if r := c.pow2Div(x, y, sg, false); r != nil {
			return r
		}
		if sg {
			return c.BVBin("bvsdiv", x, y)
		}
		return c.BVBin("bvudiv", x, y)
	case token.REM:
		if r := c.pow2Div(x, y, sg, true); r != nil {
			return r
		}
		if sg {
			return c.BVBin("bvsrem", x, y)
		}
		return c.BVBin("bvurem", x, y)
	case token.AND:
		return c.BVBin("bvand", x, y)
	case token.OR:
		return c.BVBin("bvor", x, y)
	case token.XOR:
		return c.BVBin("bvxor", x, y)
	case token.AND_NOT:
		return c.BVBin("bvand", x, c.BVBin("bvxor", y, c.BVc(^uint64(0), w)))
	}
	p := "bvu"
	if sg {
		p = "bvs"
	}
	switch op {
	case token.LSS:
		return c.BVCmp(p+"lt", x, y)
	case token.LEQ:
		return c.BVCmp(p+"le", x, y)
	case token.GTR:
		return c.BVCmp(p+"lt", y, x)
	case token.GEQ:
		return c.BVCmp(p+"le", y, x)
	}
	unsup("operator %s", op)
	return nil
}

func (e *Eng) shift(op token.Token, x, y *Term, s Sort, w int, sg bool, wy int) *Term {
	c := e.c
	if s == SInt {
		k, ok := y.ConstI64()
		if !ok {
			// exact via bit-vectors
			bx, by := c.int2bv(x, w), c.int2bv(y, w)
			big := c.ILe(c.Intc(int64(w)), y)
			o := "bvshl"
			if op == token.SHR {
				o = "bvlshr"
				if sg {
					o = "bvashr"
				}
			}
			r := c.bv2int(c.bv(o, w, bx, by), w, sg)
			z := c.Intc(0)
			if op == token.SHR && sg {
				z = c.Ite(c.ILt(x, c.Intc(0)), c.Intc(-1), c.Intc(0))
			}
			return c.Ite(big, z, r)
		}
		if op == token.SHL {
			if k >= int64(w) {
				return c.Intc(0)
			}
			return c.wrap(c.IMul(x, c.IntBig(pow2(int(k)))), w, sg)
		}
		if k >= int64(w) {
			k = int64(w)
		}
		return c.IDiv(x, c.IntBig(pow2(int(k))))
	}
	// bring the count to width w, saturating
	var cnt *Term
	over := c.F
	switch {
	case wy == w:
		cnt = y
	case wy < w:
		cnt = c.ZExt(y, w)
	default:
		over = c.Not(c.BVCmp("bvult", y, c.BVc(uint64(w), wy)))
		cnt = c.Extract(y, w-1, 0)
	}
	if op == token.SHL {
		return c.Ite(over, c.BVc(0, w), c.BVBin("bvshl", x, cnt))
	}
	if sg {
		return c.Ite(over, c.BVBin("bvashr", x, c.BVc(uint64(w-1), w)), c.BVBin("bvashr", x, cnt))
	}
	return c.Ite(over, c.BVc(0, w), c.BVBin("bvlshr", x, cnt))
}

func (c *Ctx) int2bv(x *Term, w int) *Term {
	if x.Op == "bv2nat" && x.Args[0].Sort.W() == w {
		return x.Args[0]
	}
	if k, ok := x.ConstI64(); ok {
		return c.BVc(uint64(k), w)
	}
	return c.mk(&Term{Op: "int2bv", Sort: BV(w), Args: []*Term{x}, U: uint64(w)})
}
func (c *Ctx) bv2int(x *Term, w int, sg bool) *Term {
	n := c.mk(&Term{Op: "bv2nat", Sort: SInt, Args: []*Term{x}})
	if x.IsConst() {
		n = c.IntBig(new(big.Int).SetUint64(x.U))
	}
	if !sg {
		return n
	}
	return c.Ite(c.ILt(n, c.IntBig(pow2(w-1))), n, c.ISub(n, c.IntBig(pow2(w))))
}

func (e *Eng) intArith(op token.Token, x, y *Term, w int, sg bool) *Term {
	c := e.c
	switch op {
	case token.ADD:
		return c.wrap(c.IAdd(x, y), w, sg)
	case token.SUB:
		return c.wrap(c.ISub(x, y), w, sg)
	case token.MUL:
		return c.wrap(c.IMul(x, y), w, sg)
	case token.QUO:
		if !sg {
			return c.IDiv(x, y)
		}
		xl, _ := c.rng(x)
		if xl != nil && xl.Sign() >= 0 && y.IsConst() && y.I.Sign() > 0 {
			return c.IDiv(x, y)
		}
		if y.IsConst() && y.I.Sign() > 0 {
			z := c.Intc(0)
			return c.Ite(c.ILe(z, x), c.IDiv(x, y), c.ISub(z, c.IDiv(c.ISub(z, x), y)))
		}
		z := c.Intc(0)
		ab := func(t *Term) *Term { return c.Ite(c.ILe(z, t), t, c.ISub(z, t)) }
		qv := c.mk(&Term{Op: "div", Sort: SInt, Args: []*Term{ab(x), ab(y)}})
		same := c.Eq(c.ILe(z, x), c.ILe(z, y))
		return c.wrap(c.Ite(same, qv, c.ISub(z, qv)), w, sg)
	case token.REM:
		if !sg {
			return c.IMod(x, y)
		}
		xl, _ := c.rng(x)
		if xl != nil && xl.Sign() >= 0 && y.IsConst() && y.I.Sign() > 0 {
			return c.IMod(x, y)
		}
		z := c.Intc(0)
		ab := func(t *Term) *Term { return c.Ite(c.ILe(z, t), t, c.ISub(z, t)) }
		m := c.IMod(ab(x), ab(y))
		return c.Ite(c.ILe(z, x), m, c.ISub(z, m))
	case token.AND:
		if x.IsConst() {
			x, y = y, x
		}
		if y.IsConst() && y.I.Sign() >= 0 {
			p := new(big.Int).Add(y.I, big.NewInt(1))
			if y.I.Sign() == 0 {
				return c.Intc(0)
			}
			if new(big.Int).And(p, y.I).Sign() == 0 {
				return c.IMod(x, c.IntBig(p))
			}
		}
		return c.bv2int(c.BVBin("bvand", c.int2bv(x, w), c.int2bv(y, w)), w, sg)
	case token.OR:
		return c.bv2int(c.BVBin("bvor", c.int2bv(x, w), c.int2bv(y, w)), w, sg)
	case token.XOR:
		if x == y {
			return c.Intc(0)
		}
		return c.bv2int(c.BVBin("bvxor", c.int2bv(x, w), c.int2bv(y, w)), w, sg)
	case token.AND_NOT:
		n := c.BVBin("bvxor", c.int2bv(y, w), c.BVc(^uint64(0), w))
		return c.bv2int(c.BVBin("bvand", c.int2bv(x, w), n), w, sg)
	case token.LSS:
		return c.ILt(x, y)
	case token.LEQ:
		return c.ILe(x, y)
	case token.GTR:
		return c.ILt(y, x)
	case token.GEQ:
		return c.ILe(y, x)
	}
	unsup("int operator %s", op)
	return nil
}

func (c *Ctx) f64(t *Term) float64 { return math.Float64frombits(t.U) }

func (e *Eng) fpArith(op token.Token, x, y *Term, s Sort) *Term {
	c := e.c
	if x.IsConst() && y.IsConst() && s == SF64 {
		a, b := c.f64(x), c.f64(y)
		switch op {
		case token.ADD:
			return c.fpConst(s, a+b)
		case token.SUB:
			return c.fpConst(s, a-b)
		case token.MUL:
			return c.fpConst(s, a*b)
		case token.QUO:
			return c.fpConst(s, a/b)
		case token.LSS:
			return c.Bool(a < b)
		case token.LEQ:
			return c.Bool(a <= b)
		case token.GTR:
			return c.Bool(a > b)
		case token.GEQ:
			return c.Bool(a >= b)
		}
	}
	o := map[token.Token]string{token.ADD: "fp.add", token.SUB: "fp.sub", token.MUL: "fp.mul", token.QUO: "fp.div"}[op]
	if o != "" {
		return c.mk(&Term{Op: o, Sort: s, Args: []*Term{x, y}})
	}
	o = map[token.Token]string{token.LSS: "fp.lt", token.LEQ: "fp.leq", token.GTR: "fp.gt", token.GEQ: "fp.geq"}[op]
	if o == "" {
		unsup("float operator %s", op)
	}
	return c.mk(&Term{Op: o, Sort: SBool, Args: []*Term{x, y}})
}

func (e *Eng) convert(st *State, v Val, from, to types.Type) Val {
	c := e.c
	sf, wf, sgf, ok1 := c.scalar(from)
	stt, wt, sgt, ok2 := c.scalar(to)
	if ok1 && ok2 {
		t, ok := v.(*Term)
		if !ok {
			unsup("convert of %v", v)
		}
		isF := func(s Sort) bool { return s == SF64 || s == SF32 }
		switch {
		case isF(sf) && isF(stt):
			if sf == stt {
				return t
			}
			return c.mk(&Term{Op: "fpconv", Sort: stt, Args: []*Term{t}})
		case isF(sf):
			if t.IsConst() && sf == SF64 {
				return c.constOf(to, int64(c.f64(t)))
			}
			if stt == SInt {
				if t.Op == "fp.div" && sf == SF64 && t.Args[1].IsConst() && t.Args[0].Op == "app" && t.Args[0].Name == "i2f" {
					d := c.f64(t.Args[1])
					x := t.Args[0].Args[0]
					if d >= 1 && d < 1<<31 && d == float64(uint64(d)) {
						quo := c.IDiv(x, c.Intc(int64(d)))
						g := c.And(c.ILe(c.Intc(0), x), c.ILt(x, c.Intc(1<<52)), c.Eq(c.wrap(quo, wt, sgt), quo))
						return c.Ite(g, quo, e.freshScalar(SInt, wt, sgt, "f2i"))
					}
				}
				return e.freshScalar(SInt, wt, sgt, "f2i")
			}
			u := uint64(0)
			if sgt {
				u = 1
			}
			exact := c.mk(&Term{Op: "fp2bv", Sort: stt, Args: []*Term{t}, U: u})
			// trunc(fl(n/k)) = floor(n/k) for integers n+k < 2^53 (see DESIGN.md)
			if t.Op == "fp.div" && sf == SF64 && t.Args[1].IsConst() && t.Args[0].Op == "bv2fp" {
				d := c.f64(t.Args[1])
				x := t.Args[0].Args[0]
				if d >= 1 && d < 1<<31 && d == float64(uint64(d)) {
					lim := uint64(1) << 52
					if w := x.Sort.W(); w < 53 {
						lim = uint64(1) << uint(w)
						if t.Args[0].U == 1 {
							lim >>= 1
						}
					}
					n := c.ZExt(x, 64)
					quo := c.BVBin("bvudiv", n, c.BVc(uint64(d), 64))
					g := c.BVCmp("bvult", n, c.BVc(lim, 64))
					if wt < 53 {
						m := uint64(1) << uint(wt)
						if sgt {
							m >>= 1
						}
						g = c.And(g, c.BVCmp("bvult", quo, c.BVc(m, 64)))
					}
					return c.Ite(g, c.Extract(quo, wt-1, 0), exact)
				}
			}
			return exact
		case isF(stt):
			if k, ok := t.ConstI64(); ok {
				if sgf || k >= 0 {
					return c.fpConst(stt, float64(k))
				}
			}
			if sf == SInt {
				return c.App("i2f", stt, t)
			}
			u := uint64(0)
			if sgf {
				u = 1
			}
			return c.mk(&Term{Op: "bv2fp", Sort: stt, Args: []*Term{t}, U: u})
		case sf == SInt:
			return c.wrap(t, wt, sgt)
		case sf.IsBV():
			if wt <= wf {
				return c.Extract(t, wt-1, 0)
			}
			if sgf {
				return c.SExt(t, wt)
			}
			return c.ZExt(t, wt)
		}
		unsup("convert %s to %s", from, to)
	}
	isStr := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	isBytes := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	switch {
	case isStr(from) && isStr(to):
		return v
	case isStr(from) && isBytes(to):
		s := v.(*StrV)
		id := e.newObj(&ArrayV{ET: types.Typ[types.Uint8], N: s.Len, Leaves: []*Arr{c.shiftArr(s.A, s.Off)}})
		return &SliceV{P: c.ptrTo(id), Off: c.idx(0), Len: s.Len, Cap: s.Len}
	case isBytes(from) && isStr(to):
		s := v.(*SliceV)
		return &StrV{A: e.sliceLeaves(st, s, types.Typ[types.Uint8])[0], Off: s.Off, Len: s.Len}
	}
	if _, ok := from.Underlying().(*types.Pointer); ok {
		return v
	}
	if b, ok := from.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	unsup("convert %s to %s", from, to)
	return nil
}

// sliceLeaves returns the leaf arrays behind a slice (indexed from the backing
// array's start, i.e. add s.Off).
func (e *Eng) sliceLeaves(st *State, s *SliceV, et types.Type) []*Arr {
	c := e.c
	var out []*Arr
	for _, al := range s.P.Alts {
		if al.Obj == 0 || e.decide(st, al.C).IsFalse() {
			continue
		}
		av, ok := c.readPath(st.heap[al.Obj], al.Path).(*ArrayV)
		if !ok || av.Leaves == nil {
			unsup("slice of non-scalar elements used as a whole")
		}
		if out == nil {
			out = append([]*Arr(nil), av.Leaves...)
		} else {
			for i := range out {
				out[i] = c.ArrIte(al.C, av.Leaves[i], out[i])
			}
		}
	}
	if out == nil {
		ls, ok := c.leafTypes(et)
		if !ok {
			unsup("leaves of nil slice of %s", et)
		}
		for _, l := range ls {
			out = append(out, c.zeroLeafArr(l))
		}
	}
	return out
}

func (e *Eng) concatStr(a, b *StrV) *StrV {
	c := e.c
	if k, ok := a.Len.ConstI64(); ok && k == 0 {
		return b
	}
	if k, ok := b.Len.ConstI64(); ok && k == 0 {
		return a
	}
	arr := c.shiftArr(a.A, a.Off)
	arr = arr.CopyIn(c, a.Len, b.Len, b.A, b.Off)
	return &StrV{A: arr, Off: c.idx(0), Len: c.add(a.Len, b.Len)}
}

// eqSeq: equality of two scalar sequences.
func (e *Eng) eqSeq(a *Arr, aoff, alen *Term, b *Arr, boff, blen *Term) *Term {
	c := e.c
	le := c.Eq(alen, blen)
	if le.IsFalse() {
		return c.F
	}
	if a == b && aoff == boff {
		return le
	}
	n, ok := alen.ConstI64()
	if !ok {
		n, ok = blen.ConstI64()
	}
	if ok && n <= 300 {
		r := []*Term{le}
		for i := int64(0); i < n; i++ {
			r = append(r, c.Eq(a.Select(c, c.add(aoff, c.idx(i))), b.Select(c, c.add(boff, c.idx(i)))))
		}
		return c.And(r...)
	}
	i := c.BoundVar(c.IdxSort())
	body := c.Or(c.Not(a.inR(c, i, alen)), c.Eq(a.Select(c, c.add(aoff, i)), b.Select(c, c.add(boff, i))))
	return c.And(le, c.Forall(i, body))
}
func (a *Arr) inR(c *Ctx, i, n *Term) *Term {
	if c.IntMod {
		return c.And(c.ILe(c.Intc(0), i), c.ILt(i, n))
	}
	return c.BVCmp("bvult", i, n)
}
func (e *Eng) eqStr(a, b *StrV) *Term { return e.eqSeq(a.A, a.Off, a.Len, b.A, b.Off, b.Len) }

func (e *Eng) eqVal(st *State, l, r Val, t types.Type) *Term {
	c := e.c
	switch x := l.(type) {
	case *Term:
		y, ok := r.(*Term)
		if !ok {
			unsup("compare %T with %T", l, r)
		}
		if x.Sort == SF64 || x.Sort == SF32 {
			if x.IsConst() && y.IsConst() && x.Sort == SF64 {
				return c.Bool(c.f64(x) == c.f64(y))
			}
			return c.mk(&Term{Op: "fp.eq", Sort: SBool, Args: []*Term{x, y}})
		}
		return c.Eq(x, y)
	case *StrV:
		return e.eqStr(x, r.(*StrV))
	case *PtrV:
		y, ok := r.(*PtrV)
		if !ok {
			unsup("compare pointer with %T", r)
		}
		res := c.F
		for _, p := range x.Alts {
			for _, q := range y.Alts {
				if p.Obj != q.Obj {
					continue
				}
				eq := c.T
				if len(p.Path) != len(q.Path) {
					continue
				}
				for i := range p.Path {
					if p.Path[i].Idx != nil && q.Path[i].Idx != nil {
						eq = c.And(eq, c.Eq(p.Path[i].Idx, q.Path[i].Idx))
					} else if p.Path[i].Field != q.Path[i].Field {
						eq = c.F
					}
				}
				res = c.Or(res, c.And(p.C, q.C, eq))
			}
		}
		return res
	case *SliceV: // comparison with nil only
		y := r.(*SliceV)
		return e.eqVal(st, x.P, y.P, nil)
	case *StructV:
		y := r.(*StructV)
		u := t.Underlying().(*types.Struct)
		var cs []*Term
		for i := range x.F {
			cs = append(cs, e.eqVal(st, x.F[i], y.F[i], u.Field(i).Type()))
		}
		return c.And(cs...)
	case *ArrayV:
		y := r.(*ArrayV)
		n, _ := x.N.ConstI64()
		var cs []*Term
		for i := int64(0); i < n; i++ {
			cs = append(cs, e.eqVal(st, c.elem(x, c.idx(i)), c.elem(y, c.idx(i)), x.ET))
		}
		return c.And(cs...)
	case *IfaceV:
		y, ok := r.(*IfaceV)
		if !ok {
			unsup("compare interface with %T", r)
		}
		res := c.F
		for _, p := range x.Alts {
			for _, q := range y.Alts {
				var eq *Term
				switch {
				case p.T == nil && q.T == nil:
					eq = c.T
				case p.T == nil || q.T == nil:
					eq = c.F
				case p.T == opaqueErrT || q.T == opaqueErrT:
					o1, k1 := p.V.(*OpaqueV)
					o2, k2 := q.V.(*OpaqueV)
					eq = c.Bool(k1 && k2 && o1.ID == o2.ID)
				case types.Identical(p.T, q.T):
					eq = e.eqVal(st, p.V, q.V, p.T)
				default:
					eq = c.F
				}
				res = c.Or(res, c.And(p.C, q.C, eq))
			}
		}
		return res
	case *FuncV:
		y := r.(*FuncV)
		res := c.F
		for _, p := range x.Alts {
			for _, q := range y.Alts {
				if p.Fn == nil && p.Bltn == nil && q.Fn == nil && q.Bltn == nil {
					res = c.Or(res, c.And(p.C, q.C))
				}
			}
		}
		return res
	}
	unsup("compare %T (%v)", l, l)
	return nil
}

// ---- maps

func (e *Eng) mapKeyIdx(k Val, kt types.Type) *Term {
	t, ok := k.(*Term)
	if sv, isS := k.(*StructV); isS {
		return e.structKey(sv, kt)
	}
	if !ok {
		unsup("symbolic map with key type %s", kt)
	}
	if t.Sort == SInt {
		return t
	}
	return e.c.ZExt(t, 64)
}

// mapAtIdx is the value in the map's base under the key numbered ki.
func (e *Eng) mapAtIdx(st *State, m *MapO, ki *Term) Val {
	c := e.c
	var ts []Val
	for _, l := range m.Base[1:] {
		ts = append(ts, l.at(c, ki))
	}
	var v Val
	if m.Rows {
		// the element reads as an array of its own
		av := &ArrayV{ET: m.VT.Underlying().(*types.Slice).Elem(), N: ts[0].(*Term)}
		for _, r := range ts[1:] {
			av.Leaves = append(av.Leaves, r.(*Arr))
		}
		if !av.N.Bound && !e.keyed[av.N] {
			e.keyed[av.N] = true
			c.Axioms = append(c.Axioms, c.le(c.idx(0), av.N), c.le(av.N, c.idx(1<<48)))
		}
		id := e.newObj(av)
		st.heap[id] = av
		v = &SliceV{P: c.ptrTo(id), Off: c.idx(0), Len: av.N, Cap: av.N}
	} else if m.Opaque {
		if pt, ok := m.VT.Underlying().(*types.Pointer); ok {
			// some object, of which nothing is known
			e.assumes["pointers held by a map of arbitrary contents are not nil, and objects reached by them are not written"] = true
			id := e.newObj(e.fresh(pt.Elem(), "map.value"))
			st.heap[id] = e.curState.heap[id]
			v = c.ptrTo(id)
		} else {
			v = e.fresh(m.VT, "map.value")
		}
	} else {
		v, _ = c.unflatten(m.VT, ts)
	}
	return v
}

// boundKey is the key numbered by a bound variable.
func (e *Eng) boundKey(q *Term, kt types.Type) Val {
	c := e.c
	if s, w, _, ok := c.scalar(kt); ok {
		if s == SInt {
			return q
		}
		return c.Extract(q, w-1, 0)
	}
	ls, ok := c.leafTypes(kt)
	if !ok {
		unsup("keys of type %s", kt)
	}
	var vs []Val
	for i, lt := range ls {
		s, _, _, ok := c.scalar(lt)
		if !ok {
			unsup("keys of type %s", kt)
		}
		pn := fmt.Sprintf("mapkey.%s.%d", kt, i)
		c.DeclFun(pn, []Sort{c.IdxSort()}, s)
		vs = append(vs, c.App(pn, s, q))
	}
	v, _ := c.unflatten(kt, vs)
	return v
}

func (e *Eng) mapGet1(st *State, m *MapO, k Val) (Val, *Term) {
	c := e.c
	var val Val = c.zero(m.VT)
	ok := c.F
	if m.Base != nil {
		ki := e.mapKeyIdx(k, m.KT)
		ok = m.Base[0].Select(c, ki)
		v := e.mapAtIdx(st, m, ki)
		val = c.mergeVal(ok, v, val)
	}
	for _, en := range m.Log {
		hit := c.And(en.G, e.eqVal(st, en.K, k, m.KT))
		if hit.IsFalse() {
			continue
		}
		if en.Del {
			val = c.mergeVal(hit, c.zero(m.VT), val)
			ok = c.And(ok, c.Not(hit))
		} else {
			val = c.mergeVal(hit, en.V, val)
			ok = c.Or(ok, hit)
		}
	}
	return val, ok
}

func (e *Eng) mapGet(st *State, p *PtrV, k Val, mt *types.Map) (Val, *Term) {
	c := e.c
	var val Val = c.zero(mt.Elem())
	ok := c.F
	for _, al := range p.Alts {
		if al.Obj == 0 || e.decide(st, al.C).IsFalse() {
			continue
		}
		m, isM := st.heap[al.Obj].(*MapO)
		if !isM {
			unsup("map object is %v", st.heap[al.Obj])
		}
		v, o := e.mapGet1(st, m, k)
		val = c.mergeVal(al.C, v, val)
		ok = c.Ite(al.C, o, ok)
	}
	return val, ok
}

func (e *Eng) mapSet(st *State, p *PtrV, k, v Val, del bool) {
	c := e.c
	for _, al := range p.Alts {
		if al.Obj == 0 || e.decide(st, al.C).IsFalse() {
			continue
		}
		m, isM := st.heap[al.Obj].(*MapO)
		if !isM {
			unsup("map object is %v", st.heap[al.Obj])
		}
		_, present := e.mapGet1(st, m, k)
		g := al.C
		if len(p.Alts) == 1 {
			g = c.T
		}
		n := *m
		n.Log = append(m.Log[:len(m.Log):len(m.Log)], MapEnt{G: g, K: k, V: v, Del: del})
		one := c.idx(1)
		if del {
			n.Len = c.Ite(c.And(g, present), c.sub(m.Len, one), m.Len)
		} else {
			n.Len = c.Ite(c.And(g, c.Not(present)), c.add(m.Len, one), m.Len)
		}
		st.heap[al.Obj] = &n
	}
}
func (e *Eng) mapIter(st *State, p *PtrV, mt *types.Map) Val {
	c := e.c
	if len(p.Alts) == 1 {
		if p.Alts[0].Obj == 0 {
			return &mapIterV{pos: e.newObj(c.idx(0)), mt: mt}
		}
		m := st.heap[p.Alts[0].Obj].(*MapO)
		if m.Base == nil && len(m.Log) <= 1 {
			it := &mapIterV{pos: e.newObj(c.idx(0)), mt: mt}
			for _, en := range m.Log {
				if !en.Del && en.G.IsTrue() {
					it.ents = append(it.ents, en)
				} else {
					unsup("range over a map with conditional entries")
				}
			}
			return it
		}
	}
	if len(p.Alts) != 1 {
		unsup("range over one of several maps")
	}
	return e.symIter(st, p.Alts[0].Obj, mt)
}

type mapIterV struct {
	ents []MapEnt
	pos  int
	mt   *types.Map

	// a range over arbitrary contents: the keys in an arbitrary order
	sym     bool
	obj     int
	n       *Term
	keyAt   string
	posOf   string
	present func(k *Term) *Term
}

// structKey numbers the values of a structure of scalars: equal keys have equal
// numbers, and the numbers of the keys that occur give back their fields.
func (e *Eng) structKey(sv *StructV, kt types.Type) *Term {
	c := e.c
	ls, ok := c.leafTypes(kt)
	if !ok {
		unsup("symbolic map with key type %s", kt)
	}
	var ts []*Term
	var ss []Sort
	for _, v := range c.flatten(sv, kt, nil) {
		t, ok := v.(*Term)
		if !ok {
			unsup("symbolic map with key type %s", kt)
		}
		ts = append(ts, t)
		ss = append(ss, t.Sort)
	}
	_ = ls
	nm := "mapkey." + kt.String()
	c.DeclFun(nm, ss, c.IdxSort())
	r := c.App(nm, c.IdxSort(), ts...)
	if r.Bound {
		unsup("quantified map key of type %s", kt)
	}
	if !e.keyed[r] {
		e.keyed[r] = true
		for i, t := range ts {
			pn := fmt.Sprintf("%s.%d", nm, i)
			c.DeclFun(pn, []Sort{c.IdxSort()}, t.Sort)
			c.Axioms = append(c.Axioms, c.Eq(c.App(pn, t.Sort, r), t))
		}
	}
	return r
}

// keyOf is the key with the number given.
func (e *Eng) keyOf(idx *Term, kt types.Type) Val {
	c := e.c
	if s, w, sg, ok := c.scalar(kt); ok {
		if s == SInt {
			lo, hi := tyRange(w, sg)
			c.Axioms = append(c.Axioms, c.And(c.mkLe(c.IntBig(lo), idx), c.mkLe(idx, c.IntBig(hi))))
			return idx
		}
		t := c.Extract(idx, w-1, 0)
		c.Axioms = append(c.Axioms, c.Eq(c.ZExt(t, 64), idx))
		return t
	}
	ls, ok := c.leafTypes(kt)
	if !ok {
		unsup("range over a map with key type %s", kt)
	}
	nm := "mapkey." + kt.String()
	var vs []Val
	var ts []*Term
	var ss []Sort
	for i, lt := range ls {
		s, w, sg, ok := c.scalar(lt)
		if !ok {
			unsup("range over a map with key type %s", kt)
		}
		pn := fmt.Sprintf("%s.%d", nm, i)
		c.DeclFun(pn, []Sort{c.IdxSort()}, s)
		t := c.App(pn, s, idx)
		if s == SInt {
			lo, hi := tyRange(w, sg)
			c.Axioms = append(c.Axioms, c.And(c.mkLe(c.IntBig(lo), t), c.mkLe(t, c.IntBig(hi))))
		}
		vs, ts, ss = append(vs, t), append(ts, t), append(ss, s)
	}
	c.DeclFun(nm, ss, c.IdxSort())
	c.Axioms = append(c.Axioms, c.Eq(c.App(nm, c.IdxSort(), ts...), idx))
	v, _ := c.unflatten(kt, vs)
	return v
}

// symIter begins a range over a map of arbitrary contents: its keys are numbered
// in an arbitrary order, each present key once.
func (e *Eng) symIter(st *State, obj int, mt *types.Map) *mapIterV {
	c := e.c
	m := st.heap[obj].(*MapO)
	c.fresh++
	it := &mapIterV{pos: e.newObj(c.idx(0)), mt: mt, sym: true, obj: obj, n: e.freshLen("range.n"),
		keyAt: fmt.Sprintf("range.key!%d", c.fresh), posOf: fmt.Sprintf("range.pos!%d", c.fresh)}
	ix := c.IdxSort()
	c.DeclFun(it.keyAt, []Sort{ix}, ix)
	c.DeclFun(it.posOf, []Sort{ix}, ix)
	it.present = func(k *Term) *Term { return e.presentIn(m, k) }
	e.assumes["a map is not extended while it is ranged over"] = true
	e.iters[obj] = it
	if m.Base == nil {
		// known entries: each of their keys has its turn
		c.Axioms = append(c.Axioms, c.Eq(it.n, m.Len))
		for _, en := range m.Log {
			if !en.Del {
				e.iterKey(it, e.mapKeyIdx(en.K, m.KT))
			}
		}
	}
	return it
}

// presentIn: the map holds the key with the number given.
func (e *Eng) presentIn(m *MapO, k *Term) *Term {
	c := e.c
	ok := c.F
	if m.Base != nil {
		ok = m.Base[0].Select(c, k)
	}
	for _, en := range m.Log {
		hit := c.And(en.G, c.Eq(e.mapKeyIdx(en.K, m.KT), k))
		if en.Del {
			ok = c.And(ok, c.Not(hit))
		} else {
			ok = c.Or(ok, hit)
		}
	}
	return ok
}

// iterAt: the facts about position i of the range.
func (e *Eng) iterAt(it *mapIterV, i *Term) *Term {
	c := e.c
	k := c.App(it.keyAt, c.IdxSort(), i)
	in := c.And(c.le(c.idx(0), i), c.lt(i, it.n))
	c.Axioms = append(c.Axioms, c.Implies(in, c.And(it.present(k), c.Eq(c.App(it.posOf, c.IdxSort(), k), i))))
	return k
}

// iterKey: the facts about the key with the number given; its position.
func (e *Eng) iterKey(it *mapIterV, k *Term) *Term {
	c := e.c
	p := c.App(it.posOf, c.IdxSort(), k)
	c.Axioms = append(c.Axioms, c.Implies(it.present(k), c.And(c.le(c.idx(0), p), c.lt(p, it.n), c.Eq(c.App(it.keyAt, c.IdxSort(), p), k))))
	return p
}

func (e *Eng) next(st *State, it Val, x *ssa.Next) Val {
	c := e.c
	switch v := it.(type) {
	case *mapIterV:
		if v.sym {
			p := st.heap[v.pos].(*Term)
			ok := c.lt(p, v.n)
			idx := e.iterAt(v, p)
			k := e.keyOf(idx, v.mt.Key())
			m, isM := st.heap[v.obj].(*MapO)
			if !isM {
				unsup("range over %v", st.heap[v.obj])
			}
			val, there := e.mapGet1(st, m, k)
			e.oblige(st, "safety", "no key to come is deleted while a map is ranged over", c.Implies(ok, there), x.Pos(), x.Parent())
			st.heap[v.pos] = c.add(p, c.idx(1))
			return &TupleV{F: []Val{ok, k, val}}
		}
		p, ok := st.heap[v.pos].(*Term).ConstI64()
		if !ok {
			unsup("map iterator position")
		}
		if int(p) < len(v.ents) {
			st.heap[v.pos] = c.idx(p + 1)
			return &TupleV{F: []Val{c.T, v.ents[p].K, v.ents[p].V}}
		}
		var zk, zv Val
		zk, zv = c.zero(v.mt.Key()), &Poison{"map end"}
		return &TupleV{F: []Val{c.F, zk, zv}}
	case *IterV:
		pos := st.heap[v.Pos].(*Term)
		ok := c.lt(pos, v.S.Len)
		b := v.S.at(c, pos)
		// ASCII only: a byte >= 0x80 makes the rune (and width) unconstrained
		var r, w *Term
		if c.IntMod {
			ascii := c.ILt(b, c.Intc(128))
			fr := e.freshScalar(SInt, 32, true, "rune")
			fw := e.freshScalar(SInt, 64, true, "runew")
			c.Axioms = append(c.Axioms, c.mkLe(c.Intc(1), fw), c.mkLe(fw, c.Intc(4)), c.mkLe(c.Intc(128), fr), c.mkLe(fr, c.Intc(0x10ffff)))
			r, w = c.Ite(ascii, b, fr), c.Ite(ascii, c.Intc(1), fw)
			e.assumes["range over a string: a non-ASCII sequence yields an unconstrained rune >= 0x80 of width 1..4"] = true
			rem := c.ISub(v.S.Len, pos)
			w = c.Ite(c.ILe(w, rem), w, rem)
		} else {
			ascii := c.BVCmp("bvult", b, c.BVc(128, 8))
			fr := c.Fresh("rune", BV(32))
			fw := c.Fresh("runew", BV(64))
			c.Axioms = append(c.Axioms, c.BVCmp("bvule", c.BVc(128, 32), fr), c.BVCmp("bvule", fr, c.BVc(0x10ffff, 32)),
				c.BVCmp("bvule", c.BVc(1, 64), fw), c.BVCmp("bvule", fw, c.BVc(4, 64)))
			e.assumes["range over a string: a non-ASCII sequence yields an unconstrained rune >= 0x80 of width 1..4"] = true
			r, w = c.Ite(ascii, c.ZExt(b, 32), fr), c.Ite(ascii, c.BVc(1, 64), fw)
			rem := c.sub(v.S.Len, pos)
			w = c.Ite(c.BVCmp("bvule", w, rem), w, rem)
		}
		st.heap[v.Pos] = c.Ite(ok, c.add(pos, w), pos)
		return &TupleV{F: []Val{ok, pos, r}}
	}
	unsup("next on %T", it)
	return nil
}

// pow2Div is signed division (or remainder) by a constant power of two, with
// shifts and masks: rounding is towards zero.
func (c *Ctx) pow2Div(x, y *Term, sg, rem bool) *Term {
	w := x.Sort.W()
	if !sg || x.IsConst() || !y.IsConst() || y.U < 2 || y.U&(y.U-1) != 0 || y.U>>uint(w-1) != 0 {
		return nil
	}
	k := 0
	for y.U>>uint(k) != 1 {
		k++
	}
	t := c.BVBin("bvadd", x, c.BVBin("bvand", c.BVBin("bvashr", x, c.BVc(uint64(w-1), w)), c.BVc(y.U-1, w)))
	if !rem {
		return c.BVBin("bvashr", t, c.BVc(uint64(k), w))
	}
	return c.BVBin("bvsub", x, c.BVBin("bvand", t, c.BVc(^(y.U-1), w)))
}
