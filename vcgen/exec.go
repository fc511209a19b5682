package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var errT *types.Interface
var opaqueErrT types.Type

// Obligation is one proof obligation: under Hyp (path condition, axioms up to
// AxN), Goal must hold.
type Obligation struct {
	Name string
	Kind string // assert, safety, requires, ensures, inv-init, inv-step, frame, cover
	Hyp  []*Term
	Goal *Term
	Pos  string
	Fn   string
}

type Draw struct {
	Name  string
	Pc    []*Term
	T     *Term // scalar
	A     *Arr  // array draw
	N     *Term // its length
	Bits  int
	Sign  bool
	Multi []*Arr // element-major draws of N elements
	MBits []int
	MSign []bool
}

type Eng struct {
	c            *Ctx
	prog         *ssa.Program
	nobj         int
	opq          int
	opqLoop      int // opaque errors made before the loop being cut
	sentinels    map[int]bool
	widened      map[any]string
	hv           string
	hvs          int
	obls         []*Obligation
	draws        []Draw
	muted        int // >0: no obligations, no draws recorded
	specMode     int // >0: evaluating a specification expression (no safety obligations)
	globals      map[*ssa.Global]int
	funcs        map[string]bool // repository functions whose bodies were executed
	models       map[string]bool
	keyed        map[*Term]bool
	acts         []*act
	iters        map[int]*mapIterV // the last range over each map
	cells        map[int]bool      // channels by which models answer
	assumes      map[string]bool
	maxUnroll    int
	invs         map[string][]*ssa.Function // function name -> invariants by ordinal
	loopCnt      map[string]int
	use          map[string]*ssa.Function // target -> contract function (caller mode)
	ctTarget     *ssa.Function            // contract call being executed in caller mode
	inCaller     []*callerMode
	modelFns     map[string]*ssa.Function
	modelRec     map[string]bool // only of the calls a function makes of itself
	depth        int
	steps        int
	maxSteps     int
	oldHeap      []map[int]Val
	capture      []*captureRec
	solver       *IncSolver
	repoPfx      string
	anchors      map[string]bool
	initPkgs     map[*ssa.Package]bool
	feasAll      bool
	noteLoops    []string
	sealLog      map[string]int
	opaqueFn     map[string]bool
	fnStack      []*ssa.Function
	curState     *State
	havocPend    map[int]bool
	callerResult Val
	frames       []frameRec
	evPkg        *ssa.Package
	globInitID   map[int]Val
	globalInit   map[*ssa.Global]Val
	globAssigned map[*ssa.Package]map[*ssa.Global]bool
	runInits     bool
	lenientLoops bool
	loopInv      map[*ssa.BasicBlock]*invUse
	summary      map[int]bool
	sums         *loopSums
	panicBlks    map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

type captureRec struct{ cond []*Term }
type callerMode struct {
	target   *ssa.Function
	modifies []Val
	called   bool
}

type ret struct {
	st  *State
	val Val
}
type pend struct {
	st   *State
	env  envT
	pred *ssa.BasicBlock
}
type deferEnt struct {
	g    *Term
	call *ssa.CallCommon
	fn   Val
	args []Val
}
type act struct {
	e       *Eng
	fn      *ssa.Function
	free    []Val
	rets    []ret
	loops   map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	rpo     []*ssa.BasicBlock
	args    []Val
	defers  []deferEnt
	names   map[ssa.Value]string
	namePos map[ssa.Value]token.Pos
	refPos  map[ssa.Value]token.Pos
	cur     envT                     // the environment of the block being executed
	constIf map[*ssa.BasicBlock]bool // the block's last branch was decided without a choice
}

func (e *Eng) newObj(v Val) int {
	e.nobj++
	e.curState.heap[e.nobj] = v
	return e.nobj
}

func fnName(f *ssa.Function) string { return f.String() }

// ---- CFG helpers

func rpoOf(f *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

func loopsOf(f *ssa.Function, rpo []*ssa.BasicBlock) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	ls := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range rpo {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				body := ls[h]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{h: true}
					ls[h] = body
				}
				var st []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					for _, p := range x.Preds {
						if !body[p] {
							body[p] = true
							st = append(st, p)
						}
					}
				}
			}
		}
	}
	return ls
}

// ---- function execution

func (e *Eng) call(fn *ssa.Function, args []Val, free []Val, st *State) (*State, Val) {
	if fn.Blocks == nil {
		unsup("external function %s has no body", fn)
	}
	if e.depth > 60 {
		unsup("recursion too deep at %s", fn)
	}
	for _, f := range e.fnStack {
		if f == fn {
			n := 0
			for _, g := range e.fnStack {
				if g == fn {
					n++
				}
			}
			if n > 20 {
				unsup("recursive function %s", fn)
			}
		}
	}
	e.fnStack = append(e.fnStack, fn)
	e.depth++
	defer func() { e.depth--; e.fnStack = e.fnStack[:len(e.fnStack)-1] }()
	if e.isRepo(fn) {
		e.funcs[fnName(fn)] = true
	} else if !e.isSpecFn(fn) {
		e.models["body of "+fnName(fn)+" (inlined from its source)"] = true
	}
	a := &act{e: e, fn: fn, free: free, args: args}
	e.acts = append(e.acts, a)
	defer func() { e.acts = e.acts[:len(e.acts)-1] }()
	a.rpo = rpoOf(fn)
	a.loops = loopsOf(fn, a.rpo)
	env := envT{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		env[f] = free[i]
	}
	region := map[*ssa.BasicBlock]bool{}
	for _, b := range a.rpo {
		region[b] = true
	}
	a.run(region, nil, map[*ssa.BasicBlock][]pend{fn.Blocks[0]: {{st, env, nil}}}, nil, nil)
	if len(a.rets) == 0 {
		dead := &State{heap: st.heap, pc: []*Term{e.c.F}, pcs: map[*Term]bool{e.c.F: true}}
		var v Val = &Poison{"no return"}
		if fn.Signature.Results().Len() > 0 {
			v = e.deadVal(fn.Signature.Results())
		}
		return dead, v
	}
	r := a.rets[0]
	for _, o := range a.rets[1:] {
		if e.dead(o.st) {
			continue
		}
		if e.dead(r.st) {
			r = o
			continue
		}
		n, sel := e.mergeStates(r.st, o.st)
		var v Val
		if r.val != nil {
			v = e.c.mergeVal(sel, r.val, o.val)
		}
		r = ret{n, v}
	}
	return r.st, r.val
}
func (e *Eng) deadVal(t *types.Tuple) (v Val) {
	defer func() {
		if r := recover(); r != nil {
			v = &Poison{"no return"}
		}
	}()
	if t.Len() == 1 {
		return e.c.zero(t.At(0).Type())
	}
	return e.c.zero(t)
}

func (e *Eng) isRepo(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), e.repoPfx) {
		return false
	}
	p := e.prog.Fset.Position(fn.Pos())
	return !strings.Contains(p.Filename, "zz_verif")
}
func (e *Eng) isSpecFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	p := e.prog.Fset.Position(fn.Pos())
	return strings.Contains(p.Filename, "zz_verif")
}

const chanAssume = "channel operations complete: a receive yields any value, a select any of its cases"

func (a *act) mergePend(b *ssa.BasicBlock, ins []pend) (*State, envT, bool) {
	e := a.e
	var live []pend
	for _, p := range ins {
		if !e.dead(p.st) {
			live = append(live, p)
		}
	}
	if len(live) == 0 {
		return nil, nil, false
	}
	// phis first, per incoming edge
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	edge := func(p pend) []Val {
		out := make([]Val, len(phis))
		if len(phis) == 0 {
			return out
		}
		k := -1
		for i, pr := range b.Preds {
			if pr == p.pred {
				k = i
				break
			}
		}
		for i, ph := range phis {
			out[i] = a.get(p.env, ph.Edges[k])
		}
		return out
	}
	if len(live) == 1 {
		st, env := live[0].st, live[0].env
		if len(phis) > 0 {
			v := edge(live[0])
			ne := make(envT, len(env)+len(v))
			for k, x := range env {
				ne[k] = x
			}
			env = ne
			for i, ph := range phis {
				env[ph] = v[i]
			}
		}
		return st, env, true
	}
	st, env, pv := live[0].st, live[0].env, edge(live[0])
	// env copy
	ne := make(envT, len(env))
	for k, v := range env {
		ne[k] = v
	}
	env = ne
	for _, o := range live[1:] {
		ov := edge(o)
		n, sel := e.mergeStates(st, o.st)
		for i := range pv {
			pv[i] = e.c.mergeVal(sel, pv[i], ov[i])
		}
		for k, v := range env {
			w, ok := o.env[k]
			if !ok {
				continue // defined only on the other side: dominance says unused
			}
			if v != w {
				env[k] = e.c.mergeVal(sel, v, w)
			}
		}
		for k, w := range o.env {
			if _, ok := env[k]; !ok {
				env[k] = w
			}
		}
		st = n
	}
	for i, ph := range phis {
		env[ph] = pv[i]
	}
	return st, env, true
}

// run processes a region (function body or loop body) in reverse postorder.
// Edges to header (when set) are collected in back, edges leaving in exits.
func (a *act) run(region map[*ssa.BasicBlock]bool, header *ssa.BasicBlock, pending map[*ssa.BasicBlock][]pend, back *[]pend, exits map[*ssa.BasicBlock][]pend) {
	route := func(t *ssa.BasicBlock, p pend) {
		if header != nil && t == header {
			*back = append(*back, p)
		} else if region[t] {
			pending[t] = append(pending[t], p)
		} else {
			exits[t] = append(exits[t], p)
		}
	}
	for _, b := range a.rpo {
		if !region[b] {
			continue
		}
		ins := pending[b]
		if len(ins) == 0 {
			continue
		}
		delete(pending, b)
		if body, ok := a.loops[b]; ok && b != header {
			ex := map[*ssa.BasicBlock][]pend{}
			a.loop(b, body, ins, ex)
			for _, bb := range a.rpo {
				for _, p := range ex[bb] {
					route(bb, p)
				}
			}
			continue
		}
		st, env, ok := a.mergePend(b, ins)
		if !ok {
			continue
		}
		if len(ins) == 1 {
			// env may be shared with a sibling branch
			ne := make(envT, len(env)+8)
			for k, v := range env {
				ne[k] = v
			}
			env = ne
		}
		a.block(b, st, env, route)
	}
}

func (a *act) loop(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, ins []pend, exits map[*ssa.BasicBlock][]pend) {
	e := a.e
	live := 0
	for _, p := range ins {
		if !e.dead(p.st) {
			live++
		}
	}
	if live == 0 {
		return
	}
	inv := a.invFor(h)
	if inv != nil {
		a.cutLoop(h, body, ins, exits, inv)
		return
	}
	cur := ins
	for iter := 0; ; iter++ {
		if iter > e.maxUnroll {
			unsup("loop in %s not unrolled after %d iterations and no invariant accepted", a.fn, iter)
		}
		var back []pend
		a.run(body, h, map[*ssa.BasicBlock][]pend{h: cur}, &back, exits)
		var nb []pend
		for _, p := range back {
			if !e.dead(p.st) {
				nb = append(nb, p)
			}
		}
		// A loop that may run further: ask the solver whether it can.
		if len(nb) > 0 && iter >= 1 && !a.constIf[h] {
			var keep []pend
			for _, p := range nb {
				if len(p.st.pc) == 0 || e.feasible(p.st) {
					keep = append(keep, p)
				}
			}
			nb = keep
		}
		if len(nb) == 0 {
			return
		}
		cur = nb
	}
}

func (e *Eng) feasible(st *State) bool {
	// constant-only path growth: nothing new to ask
	return e.solver.Feasible(e.c, st.pc)
}

func (a *act) get(env envT, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return a.e.constVal(x)
	case *ssa.Global:
		return a.e.globalPtr(x)
	case *ssa.Function:
		return &FuncV{Alts: []FuncAlt{{C: a.e.c.T, Fn: x}}}
	case *ssa.Builtin:
		return &FuncV{Alts: []FuncAlt{{C: a.e.c.T, Bltn: x}}}
	}
	r, ok := env[v]
	if !ok {
		return &Poison{"undefined " + v.Name()}
	}
	return r
}

func (e *Eng) constVal(k *ssa.Const) Val {
	c := e.c
	t := k.Type()
	if k.Value == nil {
		return c.zero(t)
	}
	s, w, _, ok := c.scalar(t)
	if !ok {
		if b, isB := t.Underlying().(*types.Basic); isB && b.Info()&types.IsString != 0 {
			if k.Value.Kind() == constant.String {
				return c.constStr(constant.StringVal(k.Value))
			}
		}
		if _, isI := t.Underlying().(*types.Interface); isI {
			unsup("const of interface type")
		}
		unsup("const of type %s", t)
	}
	switch {
	case s == SBool:
		return c.Bool(constant.BoolVal(k.Value))
	case s == SInt:
		iv := constant.ToInt(k.Value)
		bi, ok := newBig(iv)
		if !ok {
			unsup("const %v", k)
		}
		return c.IntBig(bi)
	case s.IsBV():
		iv := constant.ToInt(k.Value)
		if u, ok := constant.Uint64Val(iv); ok {
			return c.BVc(u, w)
		}
		i, ok := constant.Int64Val(iv)
		if !ok {
			unsup("const %v", k)
		}
		return c.BVc(uint64(i), w)
	}
	f, _ := constant.Float64Val(k.Value)
	return c.fpConst(s, f)
}

func (e *Eng) pos(p token.Pos) string {
	q := e.prog.Fset.Position(p)
	f := q.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// oblige records a proof obligation and then assumes the goal.
func (e *Eng) oblige(st *State, kind, name string, goal *Term, pos token.Pos, fn *ssa.Function) {
	g := e.decide(st, goal)
	if len(e.capture) > 0 && kind == "safety" {
		cr := e.capture[len(e.capture)-1]
		if !g.IsTrue() {
			cr.cond = append(cr.cond, e.c.And(append(append([]*Term{}, st.pc...), e.c.Not(g))...))
			st.assume(g)
		}
		return
	}
	if e.specMode > 0 && kind == "safety" {
		return
	}
	if g.IsTrue() {
		if e.muted == 0 && kind != "safety" {
			e.obls = append(e.obls, &Obligation{Name: name, Kind: kind, Goal: g, Pos: e.pos(pos), Fn: fnName(fn)})
		} else if e.muted == 0 {
			e.obls = append(e.obls, &Obligation{Name: name, Kind: kind, Goal: g, Pos: e.pos(pos), Fn: fnName(fn)})
		}
		return
	}
	if e.muted == 0 {
		e.obls = append(e.obls, &Obligation{Name: name, Kind: kind, Hyp: append([]*Term(nil), st.pc...), Goal: g, Pos: e.pos(pos), Fn: fnName(fn)})
	}
	st.assume(g)
}

func (a *act) safety(st *State, what string, goal *Term, pos token.Pos) {
	a.e.oblige(st, "safety", what+" in "+shortFn(a.fn), goal, pos, a.fn)
}
func shortFn(f *ssa.Function) string {
	s := f.String()
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	return s
}

// ---- blocks and instructions

func (a *act) block(b *ssa.BasicBlock, st *State, env envT, route func(*ssa.BasicBlock, pend)) {
	e := a.e
	e.curState = st
	a.cur = env
	for _, in := range b.Instrs {
		e.steps++
		if e.steps > e.maxSteps {
			unsup("execution budget exceeded in %s", a.fn)
		}
		if e.steps&1023 == 0 && !symDeadline.IsZero() && time.Now().After(symDeadline) {
			unsup("time budget exceeded in %s", a.fn)
		}
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			route(b.Succs[0], pend{st, env, b})
			return
		case *ssa.If:
			cv := a.get(env, x.Cond)
			cond, ok := cv.(*Term)
			if !ok {
				unsup("branch on %T (%v) in %s", cv, cv, a.fn)
			}
			cond = e.decide(st, cond)
			if a.constIf == nil {
				a.constIf = map[*ssa.BasicBlock]bool{}
			}
			a.constIf[b] = cond.IsConst()
			if cond.IsTrue() {
				route(b.Succs[0], pend{st, env, b})
			} else if cond.IsFalse() {
				route(b.Succs[1], pend{st, env, b})
			} else {
				s2 := st.clone()
				st.assume(cond)
				s2.assume(e.c.Not(cond))
				if e.feasAll && e.specMode == 0 {
					if !e.feasible(st) {
						route(b.Succs[1], pend{s2, env, b})
						return
					}
					if !e.feasible(s2) {
						route(b.Succs[0], pend{st, env, b})
						return
					}
				}
				route(b.Succs[0], pend{st, env, b})
				ne := make(envT, len(env))
				for k, v := range env {
					ne[k] = v
				}
				route(b.Succs[1], pend{s2, ne, b})
			}
			return
		case *ssa.Return:
			var v Val
			switch len(x.Results) {
			case 0:
			case 1:
				v = a.get(env, x.Results[0])
			default:
				t := &TupleV{}
				for _, r := range x.Results {
					t.F = append(t.F, a.get(env, r))
				}
				v = t
			}
			a.rets = append(a.rets, ret{st, v})
			return
		case *ssa.Panic:
			a.safety(st, "panic unreachable", e.c.F, x.Pos())
			return
		default:
			st = a.instr(in, st, env)
			e.curState = st
			if e.dead(st) {
				return
			}
		}
	}
}

func (a *act) instr(in ssa.Instruction, st *State, env envT) *State {
	e := a.e
	c := e.c
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		env[x] = c.ptrTo(e.newObj(c.zero(t)))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			env[x] = a.load(st, a.get(env, x.X), x.Pos())
		case token.NOT:
			env[x] = c.Not(a.term(env, x.X))
		case token.SUB:
			env[x] = e.neg(a.term(env, x.X), x.Type())
		case token.XOR:
			env[x] = e.bitnot(a.term(env, x.X), x.Type())
		case token.ARROW:
			if p, ok := a.get(env, x.X).(*PtrV); ok && !x.CommaOk && e.isCell(st, p) {
				// a model's answer
				env[x] = e.loadPtr(st, p)
				break
			}
			e.assumes[chanAssume] = true
			env[x] = e.fresh(x.Type(), "recv")
			if x.CommaOk {
				tt := x.Type().(*types.Tuple)
				env[x] = &TupleV{F: []Val{e.fresh(tt.At(0).Type(), "recv"), e.fresh(types.Typ[types.Bool], "recvok")}}
			}
		default:
			unsup("unary %s in %s", x.Op, a.fn)
		}
	case *ssa.BinOp:
		env[x] = a.binop(st, x, env)
	case *ssa.Store:
		a.store(st, a.get(env, x.Addr), a.get(env, x.Val), x.Pos())
	case *ssa.FieldAddr:
		p, ok := a.get(env, x.X).(*PtrV)
		if !ok {
			unsup("field address of %v in %s", a.get(env, x.X), a.fn)
		}
		a.nonNil(st, p, x.Pos())
		env[x] = c.extPath(p, PathElem{Field: x.Field})
	case *ssa.IndexAddr:
		i := a.index(env, x.Index)
		switch u := x.X.Type().Underlying().(type) {
		case *types.Pointer:
			p, ok := a.get(env, x.X).(*PtrV)
			if !ok {
				unsup("index address of %v", a.get(env, x.X))
			}
			a.nonNil(st, p, x.Pos())
			n := u.Elem().Underlying().(*types.Array).Len()
			a.safety(st, "index in range", a.inRange(i, c.idx(n)), x.Pos())
			env[x] = c.extPath(p, PathElem{Idx: i})
		case *types.Slice:
			s, ok := a.get(env, x.X).(*SliceV)
			if !ok {
				unsup("index of %v in %s", a.get(env, x.X), a.fn)
			}
			a.safety(st, "index in range", a.inRange(i, s.Len), x.Pos())
			env[x] = c.extPath(s.P, PathElem{Idx: c.add(s.Off, i)})
		default:
			unsup("IndexAddr %s", x.X.Type())
		}
	case *ssa.Field:
		v := a.get(env, x.X)
		s, ok := v.(*StructV)
		if !ok {
			unsup("field of %v in %s", v, a.fn)
		}
		env[x] = s.F[x.Field]
	case *ssa.Index:
		i := a.index(env, x.Index)
		switch v := a.get(env, x.X).(type) {
		case *ArrayV:
			a.safety(st, "index in range", a.inRange(i, v.N), x.Pos())
			env[x] = c.elem(v, i)
		case *StrV:
			a.safety(st, "index in range", a.inRange(i, v.Len), x.Pos())
			env[x] = v.at(c, i)
		default:
			unsup("index of %T", v)
		}
	case *ssa.Lookup:
		switch v := a.get(env, x.X).(type) {
		case *StrV:
			i := a.index(env, x.Index)
			a.safety(st, "index in range", a.inRange(i, v.Len), x.Pos())
			env[x] = v.at(c, i)
		case *PtrV:
			mt := x.X.Type().Underlying().(*types.Map)
			val, ok := e.mapGet(st, v, a.get(env, x.Index), mt)
			if x.CommaOk {
				env[x] = &TupleV{F: []Val{val, ok}}
			} else {
				env[x] = val
			}
		default:
			unsup("lookup in %v", v)
		}
	case *ssa.MapUpdate:
		m, ok := a.get(env, x.Map).(*PtrV)
		if !ok {
			unsup("map update of %v", a.get(env, x.Map))
		}
		a.nonNil(st, m, x.Pos())
		e.mapSet(st, m, a.get(env, x.Key), a.get(env, x.Value), false)
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		env[x] = c.ptrTo(e.newObj(&MapO{KT: mt.Key(), VT: mt.Elem(), Len: c.idx(0)}))
	case *ssa.MakeSlice:
		n := a.index(env, x.Len)
		cp := a.index(env, x.Cap)
		a.safety(st, "make length", c.And(c.le(c.idx(0), n), c.le(n, cp)), x.Pos())
		et := x.Type().Underlying().(*types.Slice).Elem()
		id := e.newObj(c.zeroArray(et, cp))
		env[x] = &SliceV{P: c.ptrTo(id), Off: c.idx(0), Len: n, Cap: cp}
	case *ssa.MakeChan:
		if e.isSpecFn(a.fn) {
			id := e.newObj(e.fresh(x.Type().Underlying().(*types.Chan).Elem(), "answer"))
			e.cells[id] = true
			env[x] = c.ptrTo(id)
			break
		}
		id := e.newObj(&StructV{})
		env[x] = c.ptrTo(id)
	case *ssa.MakeInterface:
		t := x.X.Type()
		env[x] = &IfaceV{Alts: []IfaceAlt{{C: c.T, T: t, V: a.get(env, x.X)}}}
	case *ssa.MakeClosure:
		f := FuncAlt{C: c.T, Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Bind = append(f.Bind, a.get(env, b))
		}
		env[x] = &FuncV{Alts: []FuncAlt{f}}
	case *ssa.ChangeType:
		env[x] = a.get(env, x.X)
	case *ssa.ChangeInterface:
		env[x] = a.get(env, x.X)
	case *ssa.Convert:
		env[x] = e.convert(st, a.get(env, x.X), x.X.Type(), x.Type())
	case *ssa.Extract:
		v := a.get(env, x.Tuple)
		t, ok := v.(*TupleV)
		if !ok {
			unsup("extract from %v in %s", v, a.fn)
		}
		env[x] = t.F[x.Index]
	case *ssa.Slice:
		env[x] = a.slice(st, x, env)
	case *ssa.SliceToArrayPointer:
		s := a.get(env, x.X).(*SliceV)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		a.safety(st, "slice to array length", c.le(c.idx(n), s.Len), x.Pos())
		if k, ok := s.Off.ConstI64(); !ok || k != 0 {
			unsup("slice to array pointer with offset")
		}
		env[x] = s.P
	case *ssa.TypeAssert:
		env[x] = a.typeAssert(st, x, env)
	case *ssa.Call:
		var v Val
		st, v = a.doCall(st, env, &x.Call, x)
		env[x] = v
	case *ssa.Defer:
		d := deferEnt{g: c.And(st.pc...), call: &x.Call}
		if x.Call.IsInvoke() {
			d.fn = a.get(env, x.Call.Value)
		} else {
			d.fn = a.get(env, x.Call.Value)
		}
		for _, ar := range x.Call.Args {
			d.args = append(d.args, a.get(env, ar))
		}
		a.defers = append(a.defers, d)
	case *ssa.RunDefers:
		for i := len(a.defers) - 1; i >= 0; i-- {
			d := a.defers[i]
			g := e.decide(st, d.g)
			if g.IsFalse() {
				continue
			}
			if g.IsTrue() || e.deferAlways(st, d.g) {
				st, _ = a.callVal(st, d.call, d.fn, d.args, x.Pos())
				continue
			}
			yes, no := st, st.clone()
			yes.assume(d.g)
			no.assume(c.Not(d.g))
			e.curState = yes
			yes, _ = a.callVal(yes, d.call, d.fn, d.args, x.Pos())
			if e.dead(no) {
				st = yes
			} else {
				st, _ = e.mergeStates(yes, no)
			}
			e.curState = st
		}
	case *ssa.Range:
		switch v := a.get(env, x.X).(type) {
		case *StrV:
			id := e.newObj(c.idx(0))
			env[x] = &IterV{S: v, Pos: id}
		case *PtrV:
			env[x] = e.mapIter(st, v, x.X.Type().Underlying().(*types.Map))
		default:
			unsup("range over %T", v)
		}
	case *ssa.Next:
		env[x] = e.next(st, a.get(env, x.Iter), x)
	case *ssa.Send:
		if p, ok := a.get(env, x.Chan).(*PtrV); ok && e.isSpecFn(a.fn) && e.isCell(st, p) {
			e.storePtr(st, p, a.get(env, x.X))
			break
		}
		e.assumes[chanAssume] = true
	case *ssa.Select:
		e.assumes[chanAssume] = true
		lo := int64(0)
		if !x.Blocking {
			lo = -1
		}
		it := types.Typ[types.Int]
		n := e.fresh(it, "select").(*Term)
		st.assume(c.And(a.arith(st, token.GEQ, n, c.constOf(it, lo), it, it, x.Pos()), a.arith(st, token.LSS, n, c.constOf(it, int64(len(x.States))), it, it, x.Pos())))
		tv := &TupleV{F: []Val{n, e.fresh(types.Typ[types.Bool], "recvok")}}
		tt := x.Type().(*types.Tuple)
		for i := 2; i < tt.Len(); i++ {
			tv.F = append(tv.F, e.fresh(tt.At(i).Type(), "recv"))
		}
		env[x] = tv
	case *ssa.Go:
		unsup("concurrency (%T) in %s", in, a.fn)
	default:
		unsup("instruction %T in %s", in, a.fn)
	}
	return e.curState
}

func (e *Eng) deferAlways(st *State, g *Term) bool {
	// every conjunct of g is in the current path condition
	if g.Op == "and" {
		for _, t := range g.Args {
			if !st.pcs[t] {
				return false
			}
		}
		return true
	}
	return st.pcs[g]
}

func (a *act) term(env envT, v ssa.Value) *Term {
	x := a.get(env, v)
	t, ok := x.(*Term)
	if !ok {
		unsup("expected scalar, got %T (%v) for %s in %s", x, x, v, a.fn)
	}
	return t
}

// index reads an integer used as index/length, as IdxSort.
func (a *act) index(env envT, v ssa.Value) *Term {
	if v == nil {
		return nil
	}
	return a.e.toIdx(a.term(env, v), v.Type())
}
func (e *Eng) toIdx(t *Term, ty types.Type) *Term {
	_, w, sg, _ := e.c.scalar(ty)
	if e.c.IntMod {
		return t
	}
	if w == 64 {
		return t
	}
	if sg {
		return e.c.SExt(t, 64)
	}
	return e.c.ZExt(t, 64)
}

func (a *act) inRange(i, n *Term) *Term {
	c := a.e.c
	if c.IntMod {
		return c.And(c.ILe(c.Intc(0), i), c.ILt(i, n))
	}
	return c.BVCmp("bvult", i, n)
}

func (c *Ctx) extPath(p *PtrV, pe PathElem) *PtrV {
	n := &PtrV{}
	for _, al := range p.Alts {
		if al.Obj != 0 {
			al.Path = append(al.Path[:len(al.Path):len(al.Path)], pe)
		}
		n.Alts = append(n.Alts, al)
	}
	return n
}

func (c *Ctx) isNilPtr(p *PtrV) *Term {
	r := c.F
	for _, al := range p.Alts {
		if al.Obj == 0 {
			r = c.Or(r, al.C)
		}
	}
	return r
}
func (a *act) nonNil(st *State, p *PtrV, pos token.Pos) {
	a.safety(st, "nil dereference", a.e.c.Not(a.e.c.isNilPtr(p)), pos)
}

func (a *act) load(st *State, pv Val, pos token.Pos) Val {
	p, ok := pv.(*PtrV)
	if !ok {
		unsup("load through %v in %s", pv, a.fn)
	}
	a.nonNil(st, p, pos)
	return a.e.loadPtr(st, p)
}
func (e *Eng) loadPtr(st *State, p *PtrV) Val {
	var r Val
	first := true
	for _, al := range p.Alts {
		if al.Obj == 0 {
			continue
		}
		if d := e.decide(st, al.C); d.IsFalse() {
			continue
		}
		o, ok := st.heap[al.Obj]
		if !ok {
			unsup("dangling object")
		}
		v := e.c.readPath(o, al.Path)
		if first {
			r, first = v, false
		} else {
			r = e.c.mergeVal(al.C, v, r)
		}
	}
	if first {
		return &Poison{"load of nil"}
	}
	return r
}
func (a *act) store(st *State, pv Val, v Val, pos token.Pos) {
	p, ok := pv.(*PtrV)
	if !ok {
		unsup("store through %v in %s", pv, a.fn)
	}
	a.nonNil(st, p, pos)
	a.e.storePtr(st, p, v)
}

// isCell: the channel is one by which a model answers, of one value.
func (e *Eng) isCell(st *State, p *PtrV) bool {
	for _, al := range p.Alts {
		if al.Obj != 0 && !e.cells[al.Obj] && !e.decide(st, al.C).IsFalse() {
			return false
		}
	}
	return len(p.Alts) > 0
}
func (e *Eng) storePtr(st *State, p *PtrV, v Val) {
	var alts []PtrAlt
	for _, al := range p.Alts {
		if al.Obj == 0 || e.decide(st, al.C).IsFalse() {
			continue
		}
		alts = append(alts, al)
	}
	for _, al := range alts {
		o := st.heap[al.Obj]
		if len(alts) == 1 {
			st.heap[al.Obj] = e.c.writePath(o, al.Path, v)
			return
		}
		old := e.c.readPath(o, al.Path)
		st.heap[al.Obj] = e.c.writePath(o, al.Path, e.c.mergeVal(al.C, v, old))
	}
}

func (a *act) typeAssert(st *State, x *ssa.TypeAssert, env envT) Val {
	e := a.e
	c := e.c
	iv, ok := a.get(env, x.X).(*IfaceV)
	if !ok {
		unsup("type assert on %v", a.get(env, x.X))
	}
	okT := c.F
	var val Val
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	var ifAlts []IfaceAlt
	for _, al := range iv.Alts {
		if al.T == nil {
			continue
		}
		if toIface {
			if al.T == opaqueErrT || types.Implements(al.T, x.AssertedType.Underlying().(*types.Interface)) {
				okT = c.Or(okT, al.C)
				ifAlts = append(ifAlts, al)
			}
		} else if types.Identical(al.T, x.AssertedType) {
			okT = c.Or(okT, al.C)
			if val == nil {
				val = al.V
			} else {
				val = c.mergeVal(al.C, al.V, val)
			}
		}
	}
	if toIface {
		ifAlts = append(ifAlts, IfaceAlt{C: c.Not(okT)})
		val = &IfaceV{Alts: ifAlts}
	} else {
		z := c.zero(x.AssertedType)
		if val == nil {
			val = z
		} else {
			val = c.mergeVal(okT, val, z)
		}
	}
	if x.CommaOk {
		return &TupleV{F: []Val{val, okT}}
	}
	a.safety(st, "type assertion", okT, x.Pos())
	return val
}

func (a *act) slice(st *State, x *ssa.Slice, env envT) Val {
	e := a.e
	c := e.c
	lo := c.idx(0)
	if x.Low != nil {
		lo = a.index(env, x.Low)
	}
	v := a.get(env, x.X)
	switch s := v.(type) {
	case *StrV:
		hi := s.Len
		if x.High != nil {
			hi = a.index(env, x.High)
		}
		a.safety(st, "slice bounds", c.And(a.leU(lo, hi), a.leU(hi, s.Len)), x.Pos())
		return &StrV{A: s.A, Off: c.add(s.Off, lo), Len: c.sub(hi, lo)}
	case *SliceV:
		hi := s.Len
		if x.High != nil {
			hi = a.index(env, x.High)
		}
		mx := s.Cap
		if x.Max != nil {
			mx = a.index(env, x.Max)
		}
		g := c.And(a.leU(lo, hi), a.leU(hi, mx))
		if x.Max != nil {
			g = c.And(g, a.leU(mx, s.Cap))
		}
		a.safety(st, "slice bounds", g, x.Pos())
		return &SliceV{P: s.P, Off: c.add(s.Off, lo), Len: c.sub(hi, lo), Cap: c.sub(mx, lo)}
	case *PtrV: // pointer to array
		n := c.idx(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		a.nonNil(st, s, x.Pos())
		hi := n
		if x.High != nil {
			hi = a.index(env, x.High)
		}
		mx := n
		if x.Max != nil {
			mx = a.index(env, x.Max)
		}
		a.safety(st, "slice bounds", c.And(a.leU(lo, hi), a.leU(hi, mx), a.leU(mx, n)), x.Pos())
		return &SliceV{P: s, Off: lo, Len: c.sub(hi, lo), Cap: c.sub(mx, lo)}
	}
	unsup("slice of %v in %s", v, a.fn)
	return nil
}

// leU: 0 <= a <= b for lengths
func (a *act) leU(x, y *Term) *Term {
	c := a.e.c
	if c.IntMod {
		return c.And(c.ILe(c.Intc(0), x), c.ILe(x, y))
	}
	return c.BVCmp("bvule", x, y)
}

var debug = os.Getenv("VCDEBUG") != ""

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
