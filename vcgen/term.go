package main

// Hash-consed SMT terms with simplification, in two arithmetic modes:
// bit-vectors (exact machine integers) and mathematical integers with exact
// wrap-around written as mod.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

type Sort uint16

const (
	SBool Sort = 0
	SInt  Sort = 1
	SF64  Sort = 2
	SF32  Sort = 3
	sBV   Sort = 16
)

func BV(w int) Sort       { return sBV + Sort(w) }
func (s Sort) IsBV() bool { return s > sBV }
func (s Sort) W() int     { return int(s - sBV) }
func (s Sort) SMT() string {
	switch s {
	case SBool:
		return "Bool"
	case SInt:
		return "Int"
	case SF64:
		return "(_ FloatingPoint 11 53)"
	case SF32:
		return "(_ FloatingPoint 8 24)"
	}
	return fmt.Sprintf("(_ BitVec %d)", s.W())
}

type Term struct {
	Op    string // "const","var","app", or an SMT operator
	Sort  Sort
	Args  []*Term
	U     uint64   // BV const / bool const (0,1)
	I     *big.Int // Int const
	Name  string   // var / app name, or indexed operator text
	ID    int
	Bound bool // contains a bound variable
	lo    *big.Int
	hi    *big.Int
	rdone bool
}

type Ctx struct {
	tab      map[string]*Term
	n        int
	fresh    int
	Decl     []string // SMT declarations in order
	decld    map[string]bool
	hypSyms  map[int]map[string]bool
	Axioms   []*Term // global side conditions on fresh symbols
	IntMod   bool
	T, F     *Term
	vrange   map[string][2]*big.Int
	selMemo  map[selKey]*Term
	sel2Memo map[sel2Key]*Term
	rowMemo  map[selKey]*Arr
	rowTypes map[string]types.Type
	seqs     bool // arrays hold strings and slices of scalars
	seqRow   func(s *SliceV, et types.Type) *Arr
	seqObj   func(a *ArrayV) int
	seqLen   func(n *Term)
	drop     map[string]bool // fields left out of arrays
	inQuant  int
	UFs      map[string]bool
	defArr   map[string]*Arr
	axSyms   map[int]map[string]bool
}

func NewCtx(intMode bool) *Ctx {
	c := &Ctx{tab: map[string]*Term{}, decld: map[string]bool{}, IntMod: intMode,
		vrange: map[string][2]*big.Int{}, selMemo: map[selKey]*Term{}, sel2Memo: map[sel2Key]*Term{}, rowMemo: map[selKey]*Arr{}, rowTypes: map[string]types.Type{}, drop: map[string]bool{}, UFs: map[string]bool{}}
	c.T = c.mk(&Term{Op: "const", Sort: SBool, U: 1})
	c.F = c.mk(&Term{Op: "const", Sort: SBool, U: 0})
	return c
}

func (c *Ctx) mk(t *Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s|%d|%s|%d", t.Op, t.Sort, t.Name, t.U)
	if t.I != nil {
		sb.WriteString("|" + t.I.String())
	}
	for _, a := range t.Args {
		fmt.Fprintf(&sb, ",%d", a.ID)
		if a.Bound {
			t.Bound = true
		}
	}
	k := sb.String()
	if o, ok := c.tab[k]; ok {
		return o
	}
	c.n++
	t.ID = c.n
	c.tab[k] = t
	return t
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}
func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}
func (c *Ctx) BVc(u uint64, w int) *Term {
	if w > 64 {
		panic("wide const")
	}
	return c.mk(&Term{Op: "const", Sort: BV(w), U: u & mask(w)})
}
func (c *Ctx) Intc(i int64) *Term      { return c.IntBig(big.NewInt(i)) }
func (c *Ctx) IntBig(i *big.Int) *Term { return c.mk(&Term{Op: "const", Sort: SInt, I: i}) }

func (c *Ctx) Var(name string, s Sort) *Term {
	if !c.decld[name] {
		c.decld[name] = true
		c.Decl = append(c.Decl, fmt.Sprintf("(declare-fun %s () %s)", q(name), s.SMT()))
	}
	return c.mk(&Term{Op: "var", Sort: s, Name: name})
}
func (c *Ctx) Fresh(name string, s Sort) *Term {
	c.fresh++
	return c.Var(fmt.Sprintf("%s!%d", name, c.fresh), s)
}
func (c *Ctx) BoundVar(s Sort) *Term {
	c.fresh++
	return c.mk(&Term{Op: "var", Sort: s, Name: fmt.Sprintf("bound.q!%d", c.fresh), Bound: true})
}
func (c *Ctx) DeclFun(name string, args []Sort, res Sort) {
	if c.decld[name] {
		return
	}
	c.decld[name] = true
	var ss []string
	for _, a := range args {
		ss = append(ss, a.SMT())
	}
	c.Decl = append(c.Decl, fmt.Sprintf("(declare-fun %s (%s) %s)", q(name), strings.Join(ss, " "), res.SMT()))
}
func (c *Ctx) App(name string, res Sort, args ...*Term) *Term {
	var ss []Sort
	for _, a := range args {
		ss = append(ss, a.Sort)
	}
	c.DeclFun(name, ss, res)
	return c.mk(&Term{Op: "app", Sort: res, Name: name, Args: args})
}
func q(s string) string { return "|" + s + "|" }

func (t *Term) IsConst() bool { return t.Op == "const" }
func (t *Term) IsTrue() bool  { return t.Op == "const" && t.Sort == SBool && t.U == 1 }
func (t *Term) IsFalse() bool { return t.Op == "const" && t.Sort == SBool && t.U == 0 }

// ConstI64 returns the (signed) value of an integer constant.
func (t *Term) ConstI64() (int64, bool) {
	if t.Op != "const" {
		return 0, false
	}
	if t.Sort == SInt {
		if t.I.IsInt64() {
			return t.I.Int64(), true
		}
		return 0, false
	}
	if t.Sort.IsBV() {
		w := t.Sort.W()
		u := t.U
		if w < 64 && u>>(uint(w)-1)&1 == 1 {
			u |= ^mask(w)
		}
		return int64(u), true
	}
	return 0, false
}

func (c *Ctx) Not(a *Term) *Term {
	if a.IsTrue() {
		return c.F
	}
	if a.IsFalse() {
		return c.T
	}
	if a.Op == "not" {
		return a.Args[0]
	}
	return c.mk(&Term{Op: "not", Sort: SBool, Args: []*Term{a}})
}

func (c *Ctx) nary(op string, unit, zero *Term, as []*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(as []*Term) bool
	add = func(as []*Term) bool {
		for _, a := range as {
			if a == zero {
				return false
			}
			if a == unit || seen[a.ID] {
				continue
			}
			if a.Op == op {
				if !add(a.Args) {
					return false
				}
				continue
			}
			if n := c.Not(a); seen[n.ID] {
				return false
			}
			seen[a.ID] = true
			out = append(out, a)
		}
		return true
	}
	if !add(as) {
		return zero
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	// absorption: x or (not x and y) = x or y, and dually
	dual := "and"
	if op == "and" {
		dual = "or"
	}
	if len(out) <= 64 {
		for i, a := range out {
			neg := a.Op == "not" && a.Args[0].Op == op // not (x op y), an (not x dual not y)
			if a.Op != dual && !neg || len(a.Args) > 64 {
				continue
			}
			var parts []*Term
			if neg {
				for _, x := range a.Args[0].Args {
					parts = append(parts, c.Not(x))
				}
			} else {
				parts = a.Args
			}
			var kept []*Term
			for _, x := range parts {
				if !seen[c.Not(x).ID] {
					kept = append(kept, x)
				}
			}
			if len(kept) < len(parts) {
				rest := append(append([]*Term{}, out[:i]...), out[i+1:]...)
				if dual == "and" {
					return c.Or(append(rest, c.And(kept...))...)
				}
				return c.And(append(rest, c.Or(kept...))...)
			}
		}
	}
	return c.mk(&Term{Op: op, Sort: SBool, Args: out})
}

// conjuncts splits a formula.
func (c *Ctx) conjuncts(t *Term) []*Term {
	if t.Op == "and" {
		var r []*Term
		for _, a := range t.Args {
			r = append(r, c.conjuncts(a)...)
		}
		return r
	}
	if t.Op == "not" && t.Args[0].Op == "or" {
		var r []*Term
		for _, a := range t.Args[0].Args {
			r = append(r, c.conjuncts(c.Not(a))...)
		}
		return r
	}
	return []*Term{t}
}
func (c *Ctx) And(as ...*Term) *Term { return c.nary("and", c.T, c.F, as) }
func (c *Ctx) Or(as ...*Term) *Term  { return c.nary("or", c.F, c.T, as) }
func (c *Ctx) Implies(a, b *Term) *Term {
	return c.Or(c.Not(a), b)
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.IsTrue() || a == b {
		return a
	}
	if cond.IsFalse() {
		return b
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite sorts %v %v", a.Sort.SMT(), b.Sort.SMT()))
	}
	if a.Sort == SBool {
		if a.IsTrue() {
			return c.Or(cond, b)
		}
		if a.IsFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.IsTrue() {
			return c.Or(c.Not(cond), a)
		}
		if b.IsFalse() {
			return c.And(cond, a)
		}
	}
	if cond.Op == "not" {
		return c.Ite(cond.Args[0], b, a)
	}
	if a.Op == "ite" && a.Args[0] == cond {
		a = a.Args[1]
	}
	if b.Op == "ite" && b.Args[0] == cond {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	return c.mk(&Term{Op: "ite", Sort: a.Sort, Args: []*Term{cond, a, b}})
}

// linear split: t = base + const (BV or Int)
func (c *Ctx) split(t *Term) (*Term, *Term) {
	if t.IsConst() {
		return nil, t
	}
	if (t.Op == "bvadd" || t.Op == "+") && t.Args[1].IsConst() {
		return t.Args[0], t.Args[1]
	}
	return t, nil
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq sorts %s %s: %s %s", a.Sort.SMT(), b.Sort.SMT(), a.Op, b.Op))
	}
	if a.Sort == SBool {
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsTrue() {
			return a
		}
		if b.IsFalse() {
			return c.Not(a)
		}
	}
	if a.IsConst() && b.IsConst() && a.Sort != SF64 && a.Sort != SF32 {
		return c.F
	}
	if a.Sort.IsBV() || a.Sort == SInt {
		ba, _ := c.split(a)
		bb, _ := c.split(b)
		if ba != nil && ba == bb {
			return c.F // differ by distinct constants
		}
		if a.IsConst() {
			a, b = b, a
		}
		// ite(c, k1, k2) == k
		if b.IsConst() && a.Op == "ite" && (a.Args[1].IsConst() || a.Args[2].IsConst()) {
			return c.Ite(a.Args[0], c.Eq(a.Args[1], b), c.Eq(a.Args[2], b))
		}
		if b.IsConst() && a.Op == "zext" {
			w := a.Args[0].Sort.W()
			if b.U&^mask(w) != 0 {
				return c.F
			}
			return c.Eq(a.Args[0], c.BVc(b.U, w))
		}
		if a.Op == "zext" && b.Op == "zext" && a.Args[0].Sort == b.Args[0].Sort {
			return c.Eq(a.Args[0], b.Args[0])
		}
		if a.Sort == SInt && b.IsConst() {
			lo, hi := c.rng(a)
			if lo != nil && b.I.Cmp(lo) < 0 || hi != nil && b.I.Cmp(hi) > 0 {
				return c.F
			}
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(&Term{Op: "=", Sort: SBool, Args: []*Term{a, b}})
}

// ---- Int-mode range analysis
func pow2(w int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(w)) }

func tyRange(w int, signed bool) (lo, hi *big.Int) {
	if signed {
		hi = pow2(w - 1)
		lo = new(big.Int).Neg(hi)
		hi = new(big.Int).Sub(hi, big.NewInt(1))
		return
	}
	return big.NewInt(0), new(big.Int).Sub(pow2(w), big.NewInt(1))
}

func (c *Ctx) rng(t *Term) (lo, hi *big.Int) {
	if t.rdone {
		return t.lo, t.hi
	}
	t.rdone = true
	switch t.Op {
	case "const":
		lo, hi = t.I, t.I
	case "var", "app":
		if r, ok := c.vrange[t.Name]; ok {
			lo, hi = r[0], r[1]
		}
	case "ite":
		a, b := c.rngp(t.Args[1])
		d, e := c.rngp(t.Args[2])
		if a != nil && d != nil {
			lo = a
			if d.Cmp(a) < 0 {
				lo = d
			}
		}
		if b != nil && e != nil {
			hi = b
			if e.Cmp(b) > 0 {
				hi = e
			}
		}
	case "+":
		a, b := c.rngp(t.Args[0])
		d, e := c.rngp(t.Args[1])
		if a != nil && d != nil {
			lo = new(big.Int).Add(a, d)
		}
		if b != nil && e != nil {
			hi = new(big.Int).Add(b, e)
		}
	case "-":
		a, b := c.rngp(t.Args[0])
		d, e := c.rngp(t.Args[1])
		if a != nil && e != nil {
			lo = new(big.Int).Sub(a, e)
		}
		if b != nil && d != nil {
			hi = new(big.Int).Sub(b, d)
		}
	case "*":
		a, b := c.rngp(t.Args[0])
		d, e := c.rngp(t.Args[1])
		if a != nil && b != nil && d != nil && e != nil {
			for _, x := range []*big.Int{a, b} {
				for _, y := range []*big.Int{d, e} {
					p := new(big.Int).Mul(x, y)
					if lo == nil || p.Cmp(lo) < 0 {
						lo = p
					}
					if hi == nil || p.Cmp(hi) > 0 {
						hi = p
					}
				}
			}
		}
	case "mod":
		if t.Args[1].IsConst() && t.Args[1].I.Sign() > 0 {
			lo, hi = big.NewInt(0), new(big.Int).Sub(t.Args[1].I, big.NewInt(1))
			_, ah := c.rngp(t.Args[0])
			al, _ := c.rngp(t.Args[0])
			if ah != nil && al != nil && al.Sign() >= 0 && ah.Cmp(hi) < 0 {
				hi = ah
			}
		}
	case "div":
		a, b := c.rngp(t.Args[0])
		if t.Args[1].IsConst() && t.Args[1].I.Sign() > 0 {
			if a != nil {
				lo, _ = new(big.Int).DivMod(a, t.Args[1].I, new(big.Int))
			}
			if b != nil {
				hi, _ = new(big.Int).DivMod(b, t.Args[1].I, new(big.Int))
			}
		} else if d, e := c.rngp(t.Args[1]); a != nil && a.Sign() >= 0 && d != nil && d.Sign() > 0 {
			_ = e
			lo = big.NewInt(0)
			hi = b
		}
	case "bv2nat":
		lo, hi = tyRange(t.Args[0].Sort.W(), false)
	}
	t.lo, t.hi = lo, hi
	return
}
func (c *Ctx) rngp(t *Term) (lo, hi *big.Int) { return c.rng(t) }

// ---- Int arithmetic constructors
func (c *Ctx) IAdd(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.IntBig(new(big.Int).Add(a.I, b.I))
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.I.Sign() == 0 {
			return a
		}
		if a.Op == "+" && a.Args[1].IsConst() {
			return c.IAdd(a.Args[0], c.IntBig(new(big.Int).Add(a.Args[1].I, b.I)))
		}
		return c.mk(&Term{Op: "+", Sort: SInt, Args: []*Term{a, b}})
	}
	if a.Op == "+" && a.Args[1].IsConst() {
		return c.IAdd(c.IAdd(a.Args[0], b), a.Args[1])
	}
	if b.Op == "+" && b.Args[1].IsConst() {
		return c.IAdd(c.IAdd(a, b.Args[0]), b.Args[1])
	}
	if a.Op == "-" && a.Args[1] == b {
		return a.Args[0]
	}
	if b.Op == "-" && b.Args[1] == a {
		return b.Args[0]
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(&Term{Op: "+", Sort: SInt, Args: []*Term{a, b}})
}
func (c *Ctx) ISub(a, b *Term) *Term {
	if a == b {
		return c.Intc(0)
	}
	if b.IsConst() {
		return c.IAdd(a, c.IntBig(new(big.Int).Neg(b.I)))
	}
	ba, ka := c.split(a)
	bb, kb := c.split(b)
	if ka != nil || kb != nil {
		k := new(big.Int)
		if ka != nil {
			k.Add(k, ka.I)
		}
		if kb != nil {
			k.Sub(k, kb.I)
		}
		if ba == nil {
			ba = c.Intc(0)
		}
		if bb == nil {
			bb = c.Intc(0)
		}
		if bb.IsConst() {
			return c.IAdd(ba, c.IntBig(k))
		}
		if !ba.IsConst() || ka == nil || k.Cmp(ka.I) != 0 {
			if ba == a && bb == b {
			} else {
				return c.IAdd(c.ISub(ba, bb), c.IntBig(k))
			}
		}
	}
	if a.Op == "+" {
		if a.Args[0] == b {
			return a.Args[1]
		}
		if a.Args[1] == b {
			return a.Args[0]
		}
	}
	return c.mk(&Term{Op: "-", Sort: SInt, Args: []*Term{a, b}})
}
func (c *Ctx) IMul(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.IntBig(new(big.Int).Mul(a.I, b.I))
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.I.Sign() == 0 {
			return b
		}
		if b.I.Cmp(big.NewInt(1)) == 0 {
			return a
		}
	}
	return c.mk(&Term{Op: "*", Sort: SInt, Args: []*Term{a, b}})
}

// floor div / mod by positive constant or general
func (c *Ctx) IDiv(a, b *Term) *Term {
	if b.IsConst() && b.I.Sign() > 0 {
		if b.I.Cmp(big.NewInt(1)) == 0 {
			return a
		}
		if a.IsConst() {
			d, _ := new(big.Int).DivMod(a.I, b.I, new(big.Int))
			return c.IntBig(d)
		}
		lo, hi := c.rng(a)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.I) < 0 {
			return c.Intc(0)
		}
		// (x*k + y) div k  with k | ..
		if a.Op == "*" && a.Args[1].IsConst() {
			m := new(big.Int)
			d, _ := new(big.Int).DivMod(a.Args[1].I, b.I, m)
			if m.Sign() == 0 {
				return c.IMul(a.Args[0], c.IntBig(d))
			}
		}
		if a.Op == "div" && a.Args[1].IsConst() && a.Args[1].I.Sign() > 0 {
			return c.IDiv(a.Args[0], c.IntBig(new(big.Int).Mul(a.Args[1].I, b.I)))
		}
	}
	return c.mk(&Term{Op: "div", Sort: SInt, Args: []*Term{a, b}})
}
func (c *Ctx) IMod(a, b *Term) *Term {
	if b.IsConst() && b.I.Sign() > 0 {
		if a.IsConst() {
			m := new(big.Int)
			new(big.Int).DivMod(a.I, b.I, m)
			return c.IntBig(m)
		}
		lo, hi := c.rng(a)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.I) < 0 {
			return a
		}
		if a.Op == "mod" && a.Args[1].IsConst() {
			m := new(big.Int)
			new(big.Int).DivMod(a.Args[1].I, b.I, m)
			if m.Sign() == 0 {
				return c.IMod(a.Args[0], b)
			}
		}
		// push mod inside + / - when an operand is a mod by a multiple
		if a.Op == "+" || a.Op == "-" {
			strip := func(x *Term) *Term {
				if x.Op == "mod" && x.Args[1].IsConst() {
					m := new(big.Int)
					new(big.Int).DivMod(x.Args[1].I, b.I, m)
					if m.Sign() == 0 {
						return x.Args[0]
					}
				}
				return x
			}
			x, y := strip(a.Args[0]), strip(a.Args[1])
			if x != a.Args[0] || y != a.Args[1] {
				if a.Op == "+" {
					return c.IMod(c.IAdd(x, y), b)
				}
				return c.IMod(c.ISub(x, y), b)
			}
		}
	}
	return c.mk(&Term{Op: "mod", Sort: SInt, Args: []*Term{a, b}})
}
func (c *Ctx) ILe(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.I.Cmp(b.I) <= 0)
	}
	al, ah := c.rng(a)
	bl, bh := c.rng(b)
	if ah != nil && bl != nil && ah.Cmp(bl) <= 0 {
		return c.T
	}
	if al != nil && bh != nil && al.Cmp(bh) > 0 {
		return c.F
	}
	ba, ka := c.split(a)
	bb, kb := c.split(b)
	if ba != nil && ba == bb {
		x, y := new(big.Int), new(big.Int)
		if ka != nil {
			x = ka.I
		}
		if kb != nil {
			y = kb.I
		}
		return c.Bool(x.Cmp(y) <= 0)
	}
	if a.Op == "+" && a.Args[1].IsConst() && b.IsConst() {
		return c.ILe(a.Args[0], c.IntBig(new(big.Int).Sub(b.I, a.Args[1].I)))
	}
	if b.Op == "+" && b.Args[1].IsConst() && a.IsConst() {
		return c.ILe(c.IntBig(new(big.Int).Sub(a.I, b.Args[1].I)), b.Args[0])
	}
	return c.mk(&Term{Op: "<=", Sort: SBool, Args: []*Term{a, b}})
}
func (c *Ctx) ILt(a, b *Term) *Term { return c.Not(c.ILe(b, a)) }

func (c *Ctx) wrap(t *Term, w int, signed bool) *Term {
	lo, hi := c.rng(t)
	tl, th := tyRange(w, signed)
	if lo != nil && hi != nil && lo.Cmp(tl) >= 0 && hi.Cmp(th) <= 0 {
		return t
	}
	m := c.IntBig(pow2(w))
	if !signed {
		return c.IMod(t, m)
	}
	half := c.IntBig(pow2(w - 1))
	if t.IsConst() {
		return c.ISub(c.IMod(c.IAdd(t, half), m), half)
	}
	// keep the common case readable for the solver
	return c.Ite(c.And(c.ILe(c.IntBig(tl), t), c.ILe(t, c.IntBig(th))), t, c.ISub(c.IMod(c.IAdd(t, half), m), half))
}

// ---- BV constructors
func (c *Ctx) bv(op string, w int, args ...*Term) *Term {
	return c.mk(&Term{Op: op, Sort: BV(w), Args: args})
}
func sx(u uint64, w int) int64 {
	if w < 64 && u>>(uint(w)-1)&1 == 1 {
		u |= ^mask(w)
	}
	return int64(u)
}

func (c *Ctx) BVBin(op string, a, b *Term) *Term {
	w := a.Sort.W()
	if a.IsConst() && b.IsConst() {
		x, y := a.U, b.U
		switch op {
		case "bvadd":
			return c.BVc(x+y, w)
		case "bvsub":
			return c.BVc(x-y, w)
		case "bvmul":
			return c.BVc(x*y, w)
		case "bvand":
			return c.BVc(x&y, w)
		case "bvor":
			return c.BVc(x|y, w)
		case "bvxor":
			return c.BVc(x^y, w)
		case "bvudiv":
			if y != 0 {
				return c.BVc(x/y, w)
			}
		case "bvurem":
			if y != 0 {
				return c.BVc(x%y, w)
			}
		case "bvsdiv":
			if y != 0 && !(sx(y, w) == -1) {
				return c.BVc(uint64(sx(x, w)/sx(y, w)), w)
			}
		case "bvsrem":
			if y != 0 && !(sx(y, w) == -1) {
				return c.BVc(uint64(sx(x, w)%sx(y, w)), w)
			}
		case "bvshl":
			if y >= uint64(w) {
				return c.BVc(0, w)
			}
			return c.BVc(x<<y, w)
		case "bvlshr":
			if y >= uint64(w) {
				return c.BVc(0, w)
			}
			return c.BVc(x>>y, w)
		case "bvashr":
			if y >= uint64(w) {
				y = uint64(w) - 1
			}
			return c.BVc(uint64(sx(x, w)>>y), w)
		}
	}
	zero := c.BVc(0, w)
	ones := c.BVc(^uint64(0), w)
	comm := op == "bvadd" || op == "bvmul" || op == "bvand" || op == "bvor" || op == "bvxor"
	if comm && a.IsConst() {
		a, b = b, a
	}
	switch op {
	case "bvadd":
		if b == zero {
			return a
		}
		if b.IsConst() {
			if a.Op == "bvadd" && a.Args[1].IsConst() {
				return c.BVBin("bvadd", a.Args[0], c.BVc(a.Args[1].U+b.U, w))
			}
			return c.bv(op, w, a, b)
		}
		if a.Op == "bvadd" && a.Args[1].IsConst() {
			return c.BVBin("bvadd", c.BVBin("bvadd", a.Args[0], b), a.Args[1])
		}
		if b.Op == "bvadd" && b.Args[1].IsConst() {
			return c.BVBin("bvadd", c.BVBin("bvadd", a, b.Args[0]), b.Args[1])
		}
		if a.Op == "bvsub" && a.Args[1] == b {
			return a.Args[0]
		}
		if b.Op == "bvsub" && b.Args[1] == a {
			return b.Args[0]
		}
	case "bvsub":
		if a == b {
			return zero
		}
		if b.IsConst() {
			return c.BVBin("bvadd", a, c.BVc(-b.U, w))
		}
		ba, ka := c.split(a)
		bb, kb := c.split(b)
		if kb != nil && bb != nil {
			k := -kb.U
			if ka != nil {
				k += ka.U
			}
			if ba == nil {
				ba = zero
				return c.BVBin("bvsub", c.BVc(k, w), bb)
			}
			return c.BVBin("bvadd", c.BVBin("bvsub", ba, bb), c.BVc(k, w))
		}
		if ka != nil && ba != nil {
			return c.BVBin("bvadd", c.BVBin("bvsub", ba, b), ka)
		}
		if a.Op == "bvadd" {
			if a.Args[0] == b {
				return a.Args[1]
			}
			if a.Args[1] == b {
				return a.Args[0]
			}
		}
	case "bvmul":
		if b == zero {
			return zero
		}
		if b.IsConst() && b.U == 1 {
			return a
		}
	case "bvand":
		if b == zero {
			return zero
		}
		if b == ones || a == b {
			return a
		}
		if b.IsConst() && a.Op == "zext" {
			iw := a.Args[0].Sort.W()
			if b.U&mask(iw) == mask(iw) {
				return a
			}
		}
		if b.IsConst() && a.Op == "bvand" && a.Args[1].IsConst() {
			return c.BVBin("bvand", a.Args[0], c.BVc(a.Args[1].U&b.U, w))
		}
		if b.IsConst() && b.U&(b.U+1) == 0 { // low mask
			n := 0
			for b.U>>uint(n)&1 == 1 {
				n++
			}
			return c.ZExt(c.Extract(a, n-1, 0), w)
		}
	case "bvor":
		if b == zero || a == b {
			return a
		}
		if b == ones {
			return b
		}
		if a.ID > b.ID {
			a, b = b, a
		}
		if r := c.orConcat(a, b, w); r != nil {
			return r
		}
	case "bvxor":
		if b == zero {
			return a
		}
		if a == b {
			return zero
		}
		if a.Op == "bvxor" {
			if a.Args[0] == b {
				return a.Args[1]
			}
			if a.Args[1] == b {
				return a.Args[0]
			}
		}
		if b.Op == "bvxor" {
			if b.Args[0] == a {
				return b.Args[1]
			}
			if b.Args[1] == a {
				return b.Args[0]
			}
		}
	case "bvshl":
		if b.IsConst() {
			if b.U == 0 {
				return a
			}
			if b.U >= uint64(w) {
				return zero
			}
			k := int(b.U)
			return c.Concat(c.Extract(a, w-1-k, 0), c.BVc0(k))
		}
	case "bvlshr":
		if b.IsConst() {
			if b.U == 0 {
				return a
			}
			if b.U >= uint64(w) {
				return zero
			}
			k := int(b.U)
			return c.ZExt(c.Extract(a, w-1, k), w)
		}
	}
	if comm && a.ID > b.ID && !b.IsConst() {
		a, b = b, a
	}
	return c.bv(op, w, a, b)
}

func (c *Ctx) BVc0(w int) *Term { return c.BVc(0, w) }

// pieces views a BV as a list of (term|nil for zeros, width), most significant first.
type piece struct {
	t *Term // nil = zeros
	w int
}

func (c *Ctx) pieces(t *Term) []piece {
	switch t.Op {
	case "concat":
		var out []piece
		for _, a := range t.Args {
			out = append(out, c.pieces(a)...)
		}
		return out
	case "zext":
		return append([]piece{{nil, t.Sort.W() - t.Args[0].Sort.W()}}, c.pieces(t.Args[0])...)
	case "const":
		if t.U == 0 {
			return []piece{{nil, t.Sort.W()}}
		}
	}
	return []piece{{t, t.Sort.W()}}
}

// orConcat combines two values with disjoint non-zero pieces into one concat.
func (c *Ctx) orConcat(a, b *Term, w int) *Term {
	pa, pb := c.pieces(a), c.pieces(b)
	if len(pa) == 1 || len(pb) == 1 {
		return nil
	}
	// refine to common boundaries
	var out []piece
	i, j := 0, 0
	ca, cb := pa[0], pb[0]
	take := func(p *piece, n int) piece { // take top n bits
		if p.t == nil {
			p.w -= n
			return piece{nil, n}
		}
		r := piece{c.Extract(p.t, p.w-1, p.w-n), n}
		if p.w > n {
			p.t = c.Extract(p.t, p.w-n-1, 0)
		}
		p.w -= n
		return r
	}
	for {
		n := ca.w
		if cb.w < n {
			n = cb.w
		}
		x, y := take(&ca, n), take(&cb, n)
		if x.t != nil && y.t != nil {
			return nil
		}
		if x.t == nil {
			x = y
		}
		out = append(out, x)
		if ca.w == 0 {
			i++
			if i < len(pa) {
				ca = pa[i]
			}
		}
		if cb.w == 0 {
			j++
			if j < len(pb) {
				cb = pb[j]
			}
		}
		if i >= len(pa) || j >= len(pb) {
			break
		}
	}
	return c.fromPieces(out)
}

func (c *Ctx) fromPieces(ps []piece) *Term {
	var r *Term
	for _, p := range ps {
		t := p.t
		if t == nil {
			t = c.bigZero(p.w)
		}
		if r == nil {
			r = t
		} else {
			r = c.Concat(r, t)
		}
	}
	return r
}
func (c *Ctx) bigZero(w int) *Term {
	if w <= 64 {
		return c.BVc(0, w)
	}
	return c.Concat(c.BVc(0, w-64), c.BVc(0, 64))
}

func (c *Ctx) Concat(a, b *Term) *Term {
	wa, wb := a.Sort.W(), b.Sort.W()
	if a.IsConst() && b.IsConst() && wa+wb <= 64 {
		return c.BVc(a.U<<uint(wb)|b.U, wa+wb)
	}
	if a.IsConst() && a.U == 0 {
		return c.ZExt(b, wa+wb)
	}
	// merge adjacent extracts of the same term
	la := a
	if a.Op == "concat" {
		la = a.Args[1]
	}
	fb := b
	if b.Op == "concat" {
		fb = b.Args[0]
	}
	if la.Op == "extract" && fb.Op == "extract" && la.Args[0] == fb.Args[0] {
		ah, al := exB(la)
		bh, bl := exB(fb)
		_ = ah
		if al == bh+1 {
			m := c.Extract(la.Args[0], ah, bl)
			if a.Op == "concat" {
				m = c.Concat(a.Args[0], m)
			}
			if b.Op == "concat" {
				return c.Concat(m, b.Args[1])
			}
			return m
		}
	}
	// left-assoc normal form: (concat (concat a b) c)
	if b.Op == "concat" {
		return c.Concat(c.Concat(a, b.Args[0]), b.Args[1])
	}
	if a.Op == "zext" {
		return c.ZExt(c.Concat(a.Args[0], b), wa+wb)
	}
	return c.mk(&Term{Op: "concat", Sort: BV(wa + wb), Args: []*Term{a, b}})
}

func exB(t *Term) (hi, lo int) { return int(t.U >> 16), int(t.U & 0xffff) }

func (c *Ctx) Extract(a *Term, hi, lo int) *Term {
	w := a.Sort.W()
	if lo == 0 && hi == w-1 {
		return a
	}
	n := hi - lo + 1
	if a.IsConst() {
		return c.BVc(a.U>>uint(lo), n)
	}
	switch a.Op {
	case "extract":
		_, l := exB(a)
		return c.Extract(a.Args[0], l+hi, l+lo)
	case "zext":
		iw := a.Args[0].Sort.W()
		if lo >= iw {
			return c.bigZero(n)
		}
		if hi < iw {
			return c.Extract(a.Args[0], hi, lo)
		}
		return c.ZExt(c.Extract(a.Args[0], iw-1, lo), n)
	case "sext":
		iw := a.Args[0].Sort.W()
		if hi < iw {
			return c.Extract(a.Args[0], hi, lo)
		}
	case "concat":
		wb := a.Args[1].Sort.W()
		if hi < wb {
			return c.Extract(a.Args[1], hi, lo)
		}
		if lo >= wb {
			return c.Extract(a.Args[0], hi-wb, lo-wb)
		}
		return c.Concat(c.Extract(a.Args[0], hi-wb, 0), c.Extract(a.Args[1], wb-1, lo))
	case "bvand", "bvor", "bvxor":
		return c.BVBin(a.Op, c.Extract(a.Args[0], hi, lo), c.Extract(a.Args[1], hi, lo))
	case "bvadd", "bvsub", "bvmul":
		if lo == 0 {
			return c.BVBin(a.Op, c.Extract(a.Args[0], hi, 0), c.Extract(a.Args[1], hi, 0))
		}
	case "ite":
		return c.Ite(a.Args[0], c.Extract(a.Args[1], hi, lo), c.Extract(a.Args[2], hi, lo))
	}
	return c.mk(&Term{Op: "extract", Sort: BV(n), Args: []*Term{a}, U: uint64(hi)<<16 | uint64(lo)})
}
func (c *Ctx) ZExt(a *Term, w int) *Term {
	if a.Sort.W() == w {
		return a
	}
	if a.Sort.W() > w {
		return c.Extract(a, w-1, 0)
	}
	if a.IsConst() && w <= 64 {
		return c.BVc(a.U, w)
	}
	if a.Op == "zext" {
		return c.ZExt(a.Args[0], w)
	}
	return c.mk(&Term{Op: "zext", Sort: BV(w), Args: []*Term{a}})
}
func (c *Ctx) SExt(a *Term, w int) *Term {
	if a.Sort.W() == w {
		return a
	}
	if a.Sort.W() > w {
		return c.Extract(a, w-1, 0)
	}
	if a.IsConst() {
		return c.BVc(uint64(sx(a.U, a.Sort.W())), w)
	}
	if a.Op == "zext" {
		return c.ZExt(a.Args[0], w)
	}
	return c.mk(&Term{Op: "sext", Sort: BV(w), Args: []*Term{a}})
}
func (c *Ctx) BVCmp(op string, a, b *Term) *Term { // bvult bvule bvslt bvsle
	w := a.Sort.W()
	if a.IsConst() && b.IsConst() {
		x, y := a.U, b.U
		switch op {
		case "bvult":
			return c.Bool(x < y)
		case "bvule":
			return c.Bool(x <= y)
		case "bvslt":
			return c.Bool(sx(x, w) < sx(y, w))
		case "bvsle":
			return c.Bool(sx(x, w) <= sx(y, w))
		}
	}
	if a == b {
		return c.Bool(op == "bvule" || op == "bvsle")
	}
	switch op {
	case "bvult":
		return c.Not(c.BVCmp("bvule", b, a))
	case "bvslt":
		return c.Not(c.BVCmp("bvsle", b, a))
	case "bvule":
		if a.IsConst() && a.U == 0 || b.IsConst() && b.U == mask(w) {
			return c.T
		}
		if b.IsConst() && a.Op == "zext" && b.U >= mask(a.Args[0].Sort.W()) {
			return c.T
		}
		if a.IsConst() && b.Op == "zext" && a.U > mask(b.Args[0].Sort.W()) {
			return c.F
		}
	case "bvsle":
		// zext (strictly widening) is non-negative: compare unsigned
		nn := func(t *Term) bool {
			return t.Op == "zext" || t.IsConst() && sx(t.U, w) >= 0
		}
		if nn(a) && nn(b) {
			return c.BVCmp("bvule", a, b)
		}
	}
	return c.mk(&Term{Op: op, Sort: SBool, Args: []*Term{a, b}})
}

// Forall builds a quantified formula over one bound variable.
func (c *Ctx) Forall(v *Term, body *Term) *Term {
	if body.IsTrue() {
		return body
	}
	if !mentions(body, v, map[int]bool{}) {
		return body
	}
	t := &Term{Op: "forall", Sort: SBool, Args: []*Term{v, body}}
	t = c.mk(t)
	// recompute Bound: only if other bound vars occur free
	t.Bound = false
	if freeBound(body, map[string]bool{v.Name: true}) {
		t.Bound = true
	}
	return t
}
func mentions(t, v *Term, seen map[int]bool) bool {
	if t == v {
		return true
	}
	if !t.Bound || seen[t.ID] {
		return false
	}
	seen[t.ID] = true
	for _, a := range t.Args {
		if mentions(a, v, seen) {
			return true
		}
	}
	return false
}
func freeBound(t *Term, bound map[string]bool) bool {
	if !t.Bound {
		return false
	}
	if t.Op == "var" {
		return !bound[t.Name]
	}
	if t.Op == "forall" {
		nb := map[string]bool{t.Args[0].Name: true}
		for k := range bound {
			nb[k] = true
		}
		return freeBound(t.Args[1], nb)
	}
	for _, a := range t.Args {
		if freeBound(a, bound) {
			return true
		}
	}
	return false
}

// under simplifies t given that the facts hold.
func (c *Ctx) under(t *Term, facts []*Term) *Term {
	m := map[*Term]*Term{}
	for _, f := range facts {
		for _, g := range c.conjuncts(f) {
			m[g] = c.T
			m[c.Not(g)] = c.F
		}
		m[f] = c.T
	}
	return c.rewrite(t, m)
}

func (c *Ctx) rewrite(t *Term, m map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	as := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		as[i] = c.rewrite(a, m)
		if as[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		switch t.Op {
		case "not":
			r = c.Not(as[0])
		case "and":
			r = c.And(as...)
		case "or":
			r = c.Or(as...)
		case "ite":
			r = c.Ite(as[0], as[1], as[2])
		case "=":
			r = c.Eq(as[0], as[1])
		case "forall":
			r = c.Forall(as[0], as[1])
		default:
			n := *t
			n.Args = as
			n.lo, n.hi, n.rdone = nil, nil, false
			r = c.mk(&n)
		}
	}
	m[t] = r
	return r
}
