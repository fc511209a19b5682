package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type stdModel func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) (*State, Val)

var stdModels map[string]stdModel

func init() {
	stdModels = map[string]stdModel{}
	for _, n := range []string{"errors.New", "fmt.Errorf"} {
		stdModels[n] = func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) (*State, Val) {
			e := a.e
			e.opq++
			return st, &IfaceV{Alts: []IfaceAlt{{C: e.c.T, T: opaqueErrT, V: &OpaqueV{e.opq}}}}
		}
	}
	for _, n := range []string{"fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln"} {
		stdModels[n] = func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) (*State, Val) {
			return st, a.e.fresh(types.Typ[types.String], "fmt")
		}
	}
	nop := func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) (*State, Val) { return st, nil }
	for _, n := range []string{"fmt.Println", "fmt.Printf", "log.Printf", "log.Println", "log.Print", "time.Sleep", "runtime.Gosched"} {
		stdModels[n] = func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) (*State, Val) {
			if fn.Signature.Results().Len() > 0 {
				return st, a.e.fresh(fn.Signature.Results(), "out")
			}
			return st, nil
		}
	}
	_ = nop
	// sync/atomic: sequential semantics
	type at struct {
		suffix string
		t      types.Type
	}
	for _, x := range []at{{"Int32", types.Typ[types.Int32]}, {"Int64", types.Typ[types.Int64]}, {"Uint32", types.Typ[types.Uint32]}, {"Uint64", types.Typ[types.Uint64]}} {
		t := x.t
		stdModels["sync/atomic.Load"+x.suffix] = func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) (*State, Val) {
			return st, a.load(st, args[0], pos)
		}
		stdModels["sync/atomic.Store"+x.suffix] = func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) (*State, Val) {
			a.store(st, args[0], args[1], pos)
			return st, nil
		}
		stdModels["sync/atomic.Swap"+x.suffix] = func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) (*State, Val) {
			old := a.load(st, args[0], pos)
			a.store(st, args[0], args[1], pos)
			return st, old
		}
		stdModels["sync/atomic.Add"+x.suffix] = func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) (*State, Val) {
			old := a.load(st, args[0], pos).(*Term)
			n := a.arith(st, token.ADD, old, args[1].(*Term), t, t, pos)
			a.store(st, args[0], n, pos)
			return st, n
		}
		stdModels["sync/atomic.CompareAndSwap"+x.suffix] = func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) (*State, Val) {
			old := a.load(st, args[0], pos).(*Term)
			eq := a.e.c.Eq(old, args[1].(*Term))
			a.store(st, args[0], a.e.c.Ite(eq, args[2].(*Term), old), pos)
			return st, eq
		}
	}
	// math
	rnd := func(mode string) stdModel {
		return func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) (*State, Val) {
			x := args[0].(*Term)
			return st, a.e.c.mk(&Term{Op: "fpround", Sort: SF64, Args: []*Term{x}, Name: mode})
		}
	}
	stdModels["math.Floor"] = rnd("RTN")
	stdModels["math.Ceil"] = rnd("RTP")
	// encoding/binary in integer mode (bit-vector mode inlines the real bodies)
	for _, be := range []bool{false, true} {
		be := be
		pre := "(encoding/binary.littleEndian)."
		if be {
			pre = "(encoding/binary.bigEndian)."
		}
		for _, w := range []int{2, 4, 8} {
			w := w
			nm := map[int]string{2: "16", 4: "32", 8: "64"}[w]
			at := func(i int) int {
				if be {
					return w - 1 - i
				}
				return i
			}
			get := func(a *act, st *State, s *SliceV) *Term {
				c := a.e.c
				arr := a.e.sliceLeaves(st, s, types.Typ[types.Uint8])[0]
				if c.IntMod {
					r := c.Intc(0)
					for i := w - 1; i >= 0; i-- {
						r = c.IAdd(c.IMul(r, c.Intc(256)), arr.Select(c, c.add(s.Off, c.idx(int64(at(i))))))
					}
					return r
				}
				var r *Term
				for i := 0; i < w; i++ {
					b := arr.Select(c, c.add(s.Off, c.idx(int64(at(i)))))
					if r == nil {
						r = b
					} else {
						r = c.Concat(b, r)
					}
				}
				return r
			}
			byteOf := func(c *Ctx, v *Term, i int) *Term {
				if c.IntMod {
					return c.IMod(c.IDiv(v, c.IntBig(pow2(8*i))), c.Intc(256))
				}
				return c.Extract(v, 8*i+7, 8*i)
			}
			stdModels[pre+"Uint"+nm] = func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) (*State, Val) {
				s := args[1].(*SliceV)
				a.safety(st, "index in range", a.leU(a.e.c.idx(int64(w)), s.Len), pos)
				return st, get(a, st, s)
			}
			stdModels[pre+"PutUint"+nm] = func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) (*State, Val) {
				s := args[1].(*SliceV)
				c := a.e.c
				a.safety(st, "index in range", a.leU(c.idx(int64(w)), s.Len), pos)
				v := args[2].(*Term)
				arr := c.ConstArr(c.zeroLeaf(types.Typ[types.Uint8]))
				for i := 0; i < w; i++ {
					arr = arr.Store(c, c.idx(int64(at(i))), byteOf(c, v, i))
				}
				a.blit(st, s, c.idx(0), c.idx(int64(w)), []*Arr{arr}, c.idx(0), nil)
				return st, nil
			}
			stdModels[pre+"AppendUint"+nm] = func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) (*State, Val) {
				c := a.e.c
				arr := c.ConstArr(c.zeroLeaf(types.Typ[types.Uint8]))
				for i := 0; i < w; i++ {
					arr = arr.Store(c, c.idx(int64(at(i))), byteOf(c, args[2].(*Term), i))
				}
				return st, a.appendB(st, args[1], &StrV{A: arr, Off: c.idx(0), Len: c.idx(int64(w))}, types.Typ[types.Uint8])
			}
		}
	}
	// time.Now without a monotonic reading: wall = nsec, ext = seconds since year 1
	stdModels["time.Now"] = func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) (*State, Val) {
		e := a.e
		c := e.c
		sec := e.fresh(types.Typ[types.Int64], "now").(*Term)
		// Unix time between 2001 and 2286 (fits every use of the clock here)
		lo, hi := int64(62135596800)+1000000000, int64(62135596800)+10000000000
		s64 := func(v int64) *Term { return c.constOf(types.Typ[types.Int64], v) }
		st.assume(c.And(a.arith(st, token.GEQ, sec, s64(lo), types.Typ[types.Int64], types.Typ[types.Int64], pos),
			a.arith(st, token.LEQ, sec, s64(hi), types.Typ[types.Int64], types.Typ[types.Int64], pos)))
		e.assumes["the clock reads between 2001 and 2286, with whole seconds"] = true
		z := c.zero(fn.Signature.Results().At(0).Type()).(*StructV)
		n := &StructV{F: append([]Val(nil), z.F...)}
		n.F[1] = sec
		return st, n
	}
	stdModels["crypto/rand.Read"] = func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) (*State, Val) {
		s := args[0].(*SliceV)
		a.havocTyped(st, s, types.NewSlice(types.Typ[types.Uint8]), "rand", false)
		return st, &TupleV{F: []Val{s.Len, &IfaceV{Alts: []IfaceAlt{{C: a.e.c.T}}}}}
	}
	// bytes.Buffer: writing appends to the bytes held (where they are held is
	// not observable through the buffer's methods)
	for _, n := range []string{"Write", "WriteString"} {
		stdModels["(*bytes.Buffer)."+n] = func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) (*State, Val) {
			c := a.e.c
			bp := args[0].(*PtrV)
			a.nonNil(st, bp, pos)
			p := c.extPath(bp, PathElem{Field: 0})
			s := a.load(st, p, pos).(*SliceV)
			a.store(st, p, a.appendB(st, &SliceV{P: s.P, Off: s.Off, Len: s.Len, Cap: s.Len}, args[1], types.Typ[types.Uint8]), pos)
			var n *Term
			switch x := args[1].(type) {
			case *StrV:
				n = x.Len
			case *SliceV:
				n = x.Len
			}
			return st, &TupleV{F: []Val{n, &IfaceV{Alts: []IfaceAlt{{C: c.T}}}}}
		}
	}
	stdModels["bytes.Equal"] = func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) (*State, Val) {
		x, y := args[0].(*SliceV), args[1].(*SliceV)
		bt := types.Typ[types.Uint8]
		e := a.e
		return st, e.eqSeq(e.sliceLeaves(st, x, bt)[0], x.Off, x.Len, e.sliceLeaves(st, y, bt)[0], y.Off, y.Len)
	}
}
