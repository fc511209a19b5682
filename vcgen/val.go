package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type PathElem struct {
	Field int   // when Idx == nil
	Idx   *Term // array / backing-store index
}
type PtrAlt struct {
	C    *Term
	Obj  int // 0 = nil
	Path []PathElem
}
type PtrV struct{ Alts []PtrAlt }

type SliceV struct {
	P             *PtrV // address of the backing array (path to an ArrayV)
	Off, Len, Cap *Term
}
type StrV struct {
	A        *Arr
	Off, Len *Term
}
type StructV struct{ F []Val }
type ArrayV struct {
	ET     types.Type
	N      *Term
	Leaves []*Arr // scalar-only element types
	Elems  []Val  // otherwise (concrete length)
}
type IfaceAlt struct {
	C *Term
	T types.Type // nil = nil interface
	V Val
}
type IfaceV struct{ Alts []IfaceAlt }
type FuncAlt struct {
	C    *Term
	Fn   *ssa.Function // nil = nil func
	Bind []Val
	Bltn *ssa.Builtin
}
type FuncV struct{ Alts []FuncAlt }
type TupleV struct{ F []Val }
type MapEnt struct {
	G   *Term
	K   Val
	V   Val
	Del bool
}
type MapO struct {
	KT, VT types.Type
	Base   []*Arr // [present, leaves...] or nil for empty
	Log    []MapEnt
	Len    *Term
	Opaque bool // the values of Base are not known: each read of one is arbitrary
	Rows   bool // the values are slices: Base holds their lengths and rows
}
type OpaqueV struct{ ID int } // an error value or other opaque payload
type IterV struct {           // range iterator over a string
	S   *StrV
	Pos int // heap object holding position
}
type Poison struct{ why string }

// Unsupported aborts a harness: the construct is outside the verified subset.
type Unsupported struct{ Msg string }

func unsup(f string, a ...interface{}) {
	panic(Unsupported{fmt.Sprintf(f, a...)})
}

// ---- scalar types

func (c *Ctx) scalar(t types.Type) (s Sort, w int, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return SBool, 0, false, true
	case types.Float64, types.UntypedFloat:
		return SF64, 0, true, true
	case types.Float32:
		return SF32, 0, true, true
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		w, signed = 64, true
	case types.Int32, types.UntypedRune:
		w, signed = 32, true
	case types.Int16:
		w, signed = 16, true
	case types.Int8:
		w, signed = 8, true
	case types.Uint, types.Uint64, types.Uintptr:
		w = 64
	case types.Uint32:
		w = 32
	case types.Uint16:
		w = 16
	case types.Uint8:
		w = 8
	default:
		return 0, 0, false, false
	}
	if c.IntMod {
		return SInt, w, signed, true
	}
	return BV(w), w, signed, true
}

// leafTypes flattens a type made only of scalars (structs, small fixed arrays).
func (c *Ctx) leafTypes(t types.Type) ([]types.Type, bool) {
	if _, _, _, ok := c.scalar(t); ok {
		return []types.Type{t}, true
	}
	if et := c.seqElem(t); et != nil {
		return []types.Type{types.Typ[types.Int], c.rowType(et, 0)}, true
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		out := []types.Type{}
		for i := 0; i < u.NumFields(); i++ {
			if c.dropped(t, u, i) {
				out = append(out, droppedT)
				continue
			}
			l, ok := c.leafTypes(u.Field(i).Type())
			if !ok {
				return nil, false
			}
			out = append(out, l...)
		}
		return out, true
	case *types.Array:
		if u.Len() > 64 {
			l, ok := c.leafTypes(u.Elem())
			if !ok {
				return nil, false
			}
			out := []types.Type{}
			for _, x := range l {
				if x == droppedT {
					out = append(out, x)
					continue
				}
				if _, is := x.(*types.Array); is {
					return nil, false // three dimensions
				}
				out = append(out, c.rowType(x, u.Len()))
			}
			return out, true
		}
		l, ok := c.leafTypes(u.Elem())
		if !ok {
			return nil, false
		}
		out := []types.Type{}
		for i := int64(0); i < u.Len(); i++ {
			out = append(out, l...)
		}
		return out, true
	}
	return nil, false
}

// seqElem: the element type of a string or slice of scalars, which arrays hold
// as its length and a row of its elements (directive seqs).
func (c *Ctx) seqElem(t types.Type) types.Type {
	if !c.seqs {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return types.Typ[types.Uint8]
		}
	case *types.Slice:
		if _, _, _, ok := c.scalar(u.Elem()); ok {
			return u.Elem()
		}
	}
	return nil
}

// dropped: the field is left out of arrays of the structure (directive drop).
func (c *Ctx) dropped(t types.Type, u *types.Struct, i int) bool {
	if len(c.drop) == 0 {
		return false
	}
	n, ok := t.(*types.Named)
	return ok && c.drop[n.Obj().Name()+"."+u.Field(i).Name()]
}

func (c *Ctx) constOf(t types.Type, v int64) *Term {
	s, w, _, _ := c.scalar(t)
	switch {
	case s == SBool:
		return c.Bool(v != 0)
	case s == SInt:
		return c.Intc(v)
	case s.IsBV():
		return c.BVc(uint64(v), w)
	}
	return c.fpConst(s, float64(v))
}

func (c *Ctx) zeroLeaf(t types.Type) *Term { return c.constOf(t, 0) }

func (c *Ctx) zero(t types.Type) Val {
	if _, _, _, ok := c.scalar(t); ok {
		return c.zeroLeaf(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return c.emptyStr()
		}
		if u.Kind() == types.UnsafePointer {
			return c.nilPtr()
		}
	case *types.Struct:
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, c.zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		return c.zeroArray(u.Elem(), c.idx(u.Len()))
	case *types.Pointer, *types.Chan:
		return c.nilPtr()
	case *types.Map:
		return c.nilPtr()
	case *types.Slice:
		return c.nilSlice()
	case *types.Interface:
		return &IfaceV{Alts: []IfaceAlt{{C: c.T}}}
	case *types.Signature:
		return &FuncV{Alts: []FuncAlt{{C: c.T}}}
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.F = append(tv.F, c.zero(u.At(i).Type()))
		}
		return tv
	}
	unsup("zero value of %s", t)
	return nil
}
func (c *Ctx) nilPtr() *PtrV { return &PtrV{Alts: []PtrAlt{{C: c.T}}} }
func (c *Ctx) nilSlice() *SliceV {
	z := c.idx(0)
	return &SliceV{P: c.nilPtr(), Off: z, Len: z, Cap: z}
}
func (c *Ctx) emptyStr() *StrV {
	b := c.zeroLeaf(types.Typ[types.Uint8])
	return &StrV{A: c.ConstArr(b), Off: c.idx(0), Len: c.idx(0)}
}
func (c *Ctx) zeroArray(et types.Type, n *Term) *ArrayV {
	a := &ArrayV{ET: et, N: n}
	if ls, ok := c.leafTypes(et); ok {
		for _, l := range ls {
			a.Leaves = append(a.Leaves, c.zeroLeafArr(l))
		}
		return a
	}
	k, ok := n.ConstI64()
	if !ok || k > 100000 {
		unsup("array of %s with symbolic length", et)
	}
	z := c.zero(et)
	for i := int64(0); i < k; i++ {
		a.Elems = append(a.Elems, z)
	}
	return a
}

// fresh builds an unconstrained value of a type.
func (e *Eng) fresh(t types.Type, name string) Val {
	c := e.c
	if s, w, sg, ok := c.scalar(t); ok {
		return e.freshScalar(s, w, sg, name)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			l := e.freshLen(name + ".len")
			return &StrV{A: c.NewUF(name+".s", c.byteSort(), 8, false), Off: c.idx(0), Len: l}
		}
	case *types.Struct:
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, e.fresh(u.Field(i).Type(), name+"."+u.Field(i).Name()))
		}
		return s
	case *types.Array:
		return e.freshArray(u.Elem(), c.idx(u.Len()), name)
	case *types.Slice:
		l := e.freshLen(name + ".len")
		id := e.newObj(e.freshArray(u.Elem(), l, name))
		return &SliceV{P: c.ptrTo(id), Off: c.idx(0), Len: l, Cap: l}
	case *types.Interface:
		if types.Implements(errT, u) || t.String() == "error" {
			b := c.Fresh(name+".iserr", SBool)
			e.opq++
			return &IfaceV{Alts: []IfaceAlt{{C: c.Not(b)}, {C: b, T: opaqueErrT, V: &OpaqueV{e.opq}}}}
		}
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.F = append(tv.F, e.fresh(u.At(i).Type(), fmt.Sprintf("%s.%d", name, i)))
		}
		return tv
	}
	return &Poison{"unconstrained " + t.String()}
}
func (c *Ctx) byteSort() Sort {
	if c.IntMod {
		return SInt
	}
	return BV(8)
}
func (e *Eng) freshLen(name string) *Term {
	l := e.freshScalar(e.c.IdxSort(), 64, true, name)
	c := e.c
	if c.IntMod {
		c.vrange[l.Name] = [2]*big.Int{big.NewInt(0), big.NewInt(1 << 48)}
		c.Axioms = append(c.Axioms, c.mkLe(c.Intc(0), l), c.mkLe(l, c.Intc(1<<48)))
	} else {
		c.Axioms = append(c.Axioms, c.BVCmp("bvule", l, c.BVc(1<<48, 64)))
	}
	return l
}
func (e *Eng) freshScalar(s Sort, w int, signed bool, name string) *Term {
	c := e.c
	v := c.Fresh(name, s)
	if s == SInt && w > 0 {
		lo, hi := tyRange(w, signed)
		c.vrange[v.Name] = [2]*big.Int{lo, hi}
		c.Axioms = append(c.Axioms, c.mkLe(c.IntBig(lo), v), c.mkLe(v, c.IntBig(hi)))
	}
	return v
}
func (e *Eng) freshArray(et types.Type, n *Term, name string) *ArrayV {
	c := e.c
	a := &ArrayV{ET: et, N: n}
	if ls, ok := c.leafTypes(et); ok {
		for i, l := range ls {
			nm := name
			if len(ls) > 1 {
				nm = fmt.Sprintf("%s.%d", name, i)
			}
			a.Leaves = append(a.Leaves, c.freshLeaf(nm, l))
		}
		return a
	}
	k, ok := n.ConstI64()
	if !ok {
		unsup("symbolic array of %s", et)
	}
	for i := int64(0); i < k; i++ {
		a.Elems = append(a.Elems, e.fresh(et, fmt.Sprintf("%s.%d", name, i)))
	}
	return a
}

func (c *Ctx) ptrTo(id int, path ...PathElem) *PtrV {
	return &PtrV{Alts: []PtrAlt{{C: c.T, Obj: id, Path: path}}}
}

// flatten / unflatten scalar-only values
func (c *Ctx) flatten(v Val, t types.Type, out []Val) []Val {
	if tm, ok := v.(*Term); ok {
		return append(out, tm)
	}
	if et := c.seqElem(t); et != nil {
		switch x := v.(type) {
		case *StrV:
			return append(out, x.Len, c.shiftArr(x.A, x.Off))
		case *SliceV:
			return append(out, x.Len, c.shiftArr(c.seqRow(x, et), x.Off))
		}
		unsup("flatten %T", v)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sv, ok := v.(*StructV)
		if !ok {
			unsup("flatten %T", v)
		}
		for i := 0; i < u.NumFields(); i++ {
			if c.dropped(t, u, i) {
				out = append(out, c.F)
				continue
			}
			out = c.flatten(sv.F[i], u.Field(i).Type(), out)
		}
		return out
	case *types.Array:
		av := v.(*ArrayV)
		if u.Len() > 64 {
			for _, l := range av.Leaves {
				out = append(out, l)
			}
			return out
		}
		for i := int64(0); i < u.Len(); i++ {
			out = c.flatten(c.elem(av, c.idx(i)), u.Elem(), out)
		}
		return out
	}
	unsup("flatten %s (%T)", t, v)
	return nil
}
func (c *Ctx) unflatten(t types.Type, ts []Val) (Val, []Val) {
	if _, _, _, ok := c.scalar(t); ok {
		return ts[0], ts[1:]
	}
	if et := c.seqElem(t); et != nil {
		n := ts[0].(*Term)
		c.seqLen(n)
		if _, ok := t.Underlying().(*types.Slice); !ok {
			return &StrV{A: ts[1].(*Arr), Off: c.idx(0), Len: n}, ts[2:]
		}
		av := &ArrayV{ET: et, N: n, Leaves: []*Arr{ts[1].(*Arr)}}
		return &SliceV{P: c.ptrTo(c.seqObj(av)), Off: c.idx(0), Len: n, Cap: n}, ts[2:]
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			var v Val
			if c.dropped(t, u, i) {
				s.F = append(s.F, &Poison{"field left out by directive drop: " + u.Field(i).Name()})
				ts = ts[1:]
				continue
			}
			v, ts = c.unflatten(u.Field(i).Type(), ts)
			s.F = append(s.F, v)
		}
		return s, ts
	case *types.Array:
		if u.Len() > 64 {
			ls, _ := c.leafTypes(u.Elem())
			a := &ArrayV{ET: u.Elem(), N: c.idx(u.Len())}
			for i := range ls {
				if r, ok := ts[i].(*Arr); ok {
					a.Leaves = append(a.Leaves, r)
				} else {
					a.Leaves = append(a.Leaves, c.ConstArr(c.F)) // dropped
				}
			}
			return a, ts[len(ls):]
		}
		a := c.zeroArray(u.Elem(), c.idx(u.Len()))
		for i := int64(0); i < u.Len(); i++ {
			var v Val
			v, ts = c.unflatten(u.Elem(), ts)
			a = c.setElem(a, c.idx(i), v)
		}
		return a, ts
	}
	unsup("unflatten %s", t)
	return nil, nil
}

func (c *Ctx) elem(a *ArrayV, i *Term) Val {
	if a.Leaves != nil {
		if len(a.Leaves) == 1 {
			if _, _, _, ok := c.scalar(a.ET); ok {
				return a.Leaves[0].Select(c, i)
			}
		}
		ts := make([]Val, len(a.Leaves))
		for j, l := range a.Leaves {
			ts[j] = l.at(c, i)
		}
		v, _ := c.unflatten(a.ET, ts)
		return v
	}
	if len(a.Elems) == 0 {
		return &Poison{"element of empty array"}
	}
	if k, ok := i.ConstI64(); ok {
		if k < 0 || k >= int64(len(a.Elems)) {
			return &Poison{"index out of range"}
		}
		return a.Elems[k]
	}
	if len(a.Elems) > 600 {
		unsup("symbolic index into %d explicit elements", len(a.Elems))
	}
	r := a.Elems[len(a.Elems)-1]
	for k := len(a.Elems) - 2; k >= 0; k-- {
		r = c.mergeVal(c.Eq(i, c.idx(int64(k))), a.Elems[k], r)
	}
	return r
}
func (c *Ctx) setElem(a *ArrayV, i *Term, v Val) *ArrayV {
	n := *a
	if a.Leaves != nil {
		ts := c.flatten(v, a.ET, nil)
		n.Leaves = append([]*Arr(nil), a.Leaves...)
		for j := range ts {
			if old := a.Leaves[j].at(c, i); old != ts[j] {
				n.Leaves[j] = a.Leaves[j].with(c, i, ts[j])
			}
		}
		return &n
	}
	n.Elems = append([]Val(nil), a.Elems...)
	if k, ok := i.ConstI64(); ok {
		if k >= 0 && k < int64(len(n.Elems)) {
			n.Elems[k] = v
		}
		return &n
	}
	for k := range n.Elems {
		n.Elems[k] = c.mergeVal(c.Eq(i, c.idx(int64(k))), v, n.Elems[k])
	}
	return &n
}

func (c *Ctx) readPath(v Val, path []PathElem) Val {
	for _, p := range path {
		switch x := v.(type) {
		case *StructV:
			v = x.F[p.Field]
		case *ArrayV:
			v = c.elem(x, p.Idx)
		case *Poison:
			return x
		default:
			unsup("path into %T", v)
		}
	}
	return v
}
func (c *Ctx) writePath(v Val, path []PathElem, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	switch x := v.(type) {
	case *StructV:
		s := &StructV{F: append([]Val(nil), x.F...)}
		s.F[p.Field] = c.writePath(x.F[p.Field], path[1:], nv)
		return s
	case *ArrayV:
		if len(path) == 1 {
			return c.setElem(x, p.Idx, nv)
		}
		return c.setElem(x, p.Idx, c.writePath(c.elem(x, p.Idx), path[1:], nv))
	}
	unsup("write path into %T", v)
	return nil
}

func samePath(a, b []PathElem) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Idx != b[i].Idx || a[i].Field != b[i].Field {
			return false
		}
	}
	return true
}

func (c *Ctx) normPtr(p *PtrV) *PtrV {
	var out []PtrAlt
	for _, a := range p.Alts {
		if a.C.IsFalse() {
			continue
		}
		m := false
		for j := range out {
			if out[j].Obj == a.Obj && samePath(out[j].Path, a.Path) {
				out[j].C = c.Or(out[j].C, a.C)
				m = true
				break
			}
		}
		if !m {
			out = append(out, a)
		}
	}
	if len(out) == 1 {
		out[0].C = c.T
	}
	return &PtrV{Alts: out}
}

func (c *Ctx) mergeVal(cond *Term, a, b Val) Val {
	if cond.IsTrue() {
		return a
	}
	if cond.IsFalse() {
		return b
	}
	if a == b {
		return a
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.Sort == y.Sort {
			return c.Ite(cond, x, y)
		}
	case *PtrV:
		if y, ok := b.(*PtrV); ok {
			var alts []PtrAlt
			nc := c.Not(cond)
			for _, p := range x.Alts {
				p.C = c.And(cond, p.C)
				alts = append(alts, p)
			}
			for _, p := range y.Alts {
				p.C = c.And(nc, p.C)
				alts = append(alts, p)
			}
			return c.normPtr(&PtrV{Alts: alts})
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok {
			return &SliceV{P: c.mergeVal(cond, x.P, y.P).(*PtrV), Off: c.Ite(cond, x.Off, y.Off),
				Len: c.Ite(cond, x.Len, y.Len), Cap: c.Ite(cond, x.Cap, y.Cap)}
		}
	case *StrV:
		if y, ok := b.(*StrV); ok {
			if x.Off == y.Off {
				return &StrV{A: c.ArrIte(cond, x.A, y.A), Off: x.Off, Len: c.Ite(cond, x.Len, y.Len)}
			}
			return &StrV{A: c.ArrIte(cond, c.shiftArr(x.A, x.Off), c.shiftArr(y.A, y.Off)), Off: c.idx(0), Len: c.Ite(cond, x.Len, y.Len)}
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.F) == len(y.F) {
			s := &StructV{F: make([]Val, len(x.F))}
			for i := range x.F {
				s.F[i] = c.mergeVal(cond, x.F[i], y.F[i])
			}
			return s
		}
	case *TupleV:
		if y, ok := b.(*TupleV); ok && len(x.F) == len(y.F) {
			s := &TupleV{F: make([]Val, len(x.F))}
			for i := range x.F {
				s.F[i] = c.mergeVal(cond, x.F[i], y.F[i])
			}
			return s
		}
	case *ArrayV:
		if y, ok := b.(*ArrayV); ok {
			if (x.Leaves != nil) == (y.Leaves != nil) && len(x.Leaves) == len(y.Leaves) && len(x.Elems) == len(y.Elems) {
				n := &ArrayV{ET: x.ET, N: c.Ite(cond, x.N, y.N)}
				for i := range x.Leaves {
					n.Leaves = append(n.Leaves, c.ArrIte(cond, x.Leaves[i], y.Leaves[i]))
				}
				for i := range x.Elems {
					n.Elems = append(n.Elems, c.mergeVal(cond, x.Elems[i], y.Elems[i]))
				}
				return n
			}
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			var alts []IfaceAlt
			add := func(al IfaceAlt) {
				if al.C.IsFalse() {
					return
				}
				for j := range alts {
					if alts[j].T == nil && al.T == nil {
						alts[j].C = c.Or(alts[j].C, al.C)
						return
					}
					if alts[j].T != nil && al.T != nil && types.Identical(alts[j].T, al.T) {
						if alts[j].V == al.V {
							alts[j].C = c.Or(alts[j].C, al.C)
							return
						}
						_, o1 := alts[j].V.(*OpaqueV)
						_, o2 := al.V.(*OpaqueV)
						if !o1 && !o2 {
							// al's condition selects its value
							alts[j].V = c.mergeVal(al.C, al.V, alts[j].V)
							alts[j].C = c.Or(alts[j].C, al.C)
							return
						}
					}
				}
				alts = append(alts, al)
			}
			nc := c.Not(cond)
			for _, al := range x.Alts {
				al.C = c.And(cond, al.C)
				add(al)
			}
			for _, al := range y.Alts {
				al.C = c.And(nc, al.C)
				add(al)
			}
			if len(alts) == 1 {
				alts[0].C = c.T
			}
			return &IfaceV{Alts: alts}
		}
	case *FuncV:
		if y, ok := b.(*FuncV); ok {
			var alts []FuncAlt
			nc := c.Not(cond)
			for _, al := range x.Alts {
				al.C = c.And(cond, al.C)
				alts = append(alts, al)
			}
			for _, al := range y.Alts {
				al.C = c.And(nc, al.C)
				alts = append(alts, al)
			}
			if len(alts) == 2 && alts[0].Fn == alts[1].Fn && len(alts[0].Bind) == 0 && len(alts[1].Bind) == 0 {
				alts = alts[:1]
				alts[0].C = c.T
			}
			return &FuncV{Alts: alts}
		}
	case *MapO:
		if y, ok := b.(*MapO); ok {
			return c.mergeMap(cond, x, y)
		}
	case *OpaqueV:
		if y, ok := b.(*OpaqueV); ok && x.ID == y.ID {
			return x
		}
	}
	return &Poison{fmt.Sprintf("merge of %T and %T", a, b)}
}

func (c *Ctx) mergeMap(cond *Term, x, y *MapO) Val {
	i := 0
	for i < len(x.Log) && i < len(y.Log) && x.Log[i].G == y.Log[i].G && x.Log[i].K == y.Log[i].K && x.Log[i].V == y.Log[i].V && x.Log[i].Del == y.Log[i].Del {
		i++
	}
	if len(x.Base) != len(y.Base) || len(x.Base) > 0 && x.Base[0] != y.Base[0] || x.Opaque != y.Opaque {
		lv, ok := c.leafTypes(x.VT)
		n := &MapO{KT: x.KT, VT: x.VT, Len: c.Ite(cond, x.Len, y.Len), Opaque: !ok}
		if et, sl := sliceOfLeaves(c, x.VT); !ok && sl && !x.Opaque && !y.Opaque {
			n.Opaque, n.Rows = false, true
			lv = []types.Type{types.Typ[types.Int]}
			for _, t := range et {
				lv = append(lv, types.NewArray(t, 0))
			}
		}
		bx, by := c.mapBase(x, lv), c.mapBase(y, lv)
		for i := range bx {
			if i > 0 && n.Opaque {
				break
			}
			n.Base = append(n.Base, c.ArrIte(cond, bx[i], by[i]))
		}
		for _, en := range x.Log {
			en.G = c.And(cond, en.G)
			n.Log = append(n.Log, en)
		}
		for _, en := range y.Log {
			en.G = c.And(c.Not(cond), en.G)
			n.Log = append(n.Log, en)
		}
		return n
	}
	n := &MapO{Opaque: x.Opaque, Rows: x.Rows, KT: x.KT, VT: x.VT, Base: x.Base, Len: c.Ite(cond, x.Len, y.Len)}
	n.Log = append(n.Log, x.Log[:i]...)
	for _, en := range x.Log[i:] {
		en.G = c.And(cond, en.G)
		n.Log = append(n.Log, en)
	}
	nc := c.Not(cond)
	for _, en := range y.Log[i:] {
		en.G = c.And(nc, en.G)
		n.Log = append(n.Log, en)
	}
	return n
}

// mapBase is the map's base, that of an empty one written out.
func (c *Ctx) mapBase(x *MapO, lv []types.Type) []*Arr {
	if len(x.Base) > 0 {
		return x.Base
	}
	b := []*Arr{c.ConstArr(c.F)}
	for _, t := range lv {
		b = append(b, c.zeroLeafArr(t))
	}
	return b
}

func (c *Ctx) shiftArr(a *Arr, off *Term) *Arr {
	if k, ok := off.ConstI64(); ok && k == 0 {
		return a
	}
	return newArr(Arr{kind: ALam, elem: a.elem, lam: func(i *Term) *Term { return a.Select(c, c.add(i, off)) }})
}

func (c *Ctx) constStr(s string) *StrV {
	bt := types.Typ[types.Uint8]
	a := c.ConstArr(c.zeroLeaf(bt))
	for i := 0; i < len(s); i++ {
		a = a.Store(c, c.idx(int64(i)), c.constOf(bt, int64(s[i])))
	}
	return &StrV{A: a, Off: c.idx(0), Len: c.idx(int64(len(s)))}
}

func (s *StrV) at(c *Ctx, i *Term) *Term { return s.A.Select(c, c.add(s.Off, i)) }

// ---- state

type State struct {
	heap map[int]Val
	pc   []*Term
	pcs  map[*Term]bool
}

func (s *State) clone() *State {
	n := &State{heap: make(map[int]Val, len(s.heap)), pc: s.pc[:len(s.pc):len(s.pc)], pcs: make(map[*Term]bool, len(s.pcs))}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k := range s.pcs {
		n.pcs[k] = true
	}
	return n
}
func (s *State) assume(t *Term) {
	if t.IsTrue() || s.pcs[t] {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	if t.Op == "not" && t.Args[0].Op == "or" && theCtx != nil {
		for _, a := range t.Args[0].Args {
			s.assume(theCtx.Not(a))
		}
		return
	}
	s.pc = append(s.pc, t)
	s.pcs[t] = true
}
func (e *Eng) dead(s *State) bool {
	for _, t := range s.pc {
		if t.IsFalse() || s.pcs[e.c.Not(t)] {
			return true
		}
	}
	return false
}

// decide tries to resolve a condition syntactically under the path condition.
func (e *Eng) decide(s *State, t *Term) *Term {
	if t.IsConst() {
		return t
	}
	if s.pcs[t] {
		return e.c.T
	}
	if s.pcs[e.c.Not(t)] {
		return e.c.F
	}
	if t.Op == "and" {
		all := true
		for _, a := range t.Args {
			d := e.decide(s, a)
			if d.IsFalse() {
				return e.c.F
			}
			if !d.IsTrue() {
				all = false
			}
		}
		if all {
			return e.c.T
		}
	}
	if t.Op == "or" {
		all := true
		for _, a := range t.Args {
			d := e.decide(s, a)
			if d.IsTrue() {
				return e.c.T
			}
			if !d.IsFalse() {
				all = false
			}
		}
		if all {
			return e.c.F
		}
	}
	return t
}

type envT map[ssa.Value]Val

// mergeStates joins two states; the returned condition selects a.
func (e *Eng) mergeStates(a, b *State) (*State, *Term) {
	c := e.c
	i := 0
	for i < len(a.pc) && i < len(b.pc) && a.pc[i] == b.pc[i] {
		i++
	}
	ra, rb := a.pc[i:], b.pc[i:]
	var sel *Term
	n := &State{heap: map[int]Val{}, pcs: map[*Term]bool{}}
	for _, t := range a.pc[:i] {
		n.assume(t)
	}
	if len(ra) > 0 && len(rb) > 0 && ra[0] == c.Not(rb[0]) {
		sel = ra[0]
		for _, t := range ra[1:] {
			n.assume(c.Implies(sel, t))
		}
		for _, t := range rb[1:] {
			n.assume(c.Implies(c.Not(sel), t))
		}
	} else {
		sel = c.And(ra...)
		n.assume(c.Or(sel, c.And(rb...)))
	}
	keys := map[int]bool{}
	for k := range a.heap {
		keys[k] = true
	}
	for k := range b.heap {
		keys[k] = true
	}
	ks := make([]int, 0, len(keys))
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for _, k := range ks {
		x, ok1 := a.heap[k]
		y, ok2 := b.heap[k]
		switch {
		case ok1 && ok2:
			n.heap[k] = c.mergeVal(sel, x, y)
		case ok1:
			n.heap[k] = x
			if g, isG := e.globInitID[k]; isG {
				n.heap[k] = c.mergeVal(sel, x, g)
			}
		default:
			n.heap[k] = y
			if g, isG := e.globInitID[k]; isG {
				n.heap[k] = c.mergeVal(sel, g, y)
			}
		}
	}
	return n, sel
}

// rowType is the leaf type of a row of n scalars.
func (c *Ctx) rowType(t types.Type, n int64) types.Type {
	k := fmt.Sprintf("%d %s", n, t)
	if c.rowTypes[k] == nil {
		c.rowTypes[k] = types.NewArray(t, n)
	}
	return c.rowTypes[k]
}
