package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// globalPtr returns the address of a package variable, initialising its object
// on first use from the package initialiser. A variable assigned anywhere else
// in its package gets unconstrained contents.
func (e *Eng) globalPtr(g *ssa.Global) Val {
	if id, ok := e.globals[g]; ok {
		if _, have := e.curState.heap[id]; have {
			return e.c.ptrTo(id)
		}
		e.materialize(e.curState)
		return e.c.ptrTo(id)
	}
	first := e.nobj + 1
	t := g.Type().Underlying().(*types.Pointer).Elem()
	var v Val
	if strings.HasPrefix(g.Name(), "vc") && strings.Contains(e.prog.Fset.Position(g.Pos()).Filename, "zz_verif") {
		v = e.c.zero(t)
	} else if strings.Contains(t.String(), "github.com/rs/zerolog.") {
		v = &Poison{"logger"}
	} else if t.String() == "error" {
		e.opq++
		e.sentinels[e.opq] = true
		v = &IfaceV{Alts: []IfaceAlt{{C: e.c.T, T: opaqueErrT, V: &OpaqueV{e.opq}}}}
		e.assumes["package-level error variables are non-nil, distinct and never reassigned"] = true
	} else if e.assignedOutsideInit(g) {
		v = e.fresh(t, g.Name())
	} else {
		v = e.evalGlobal(g, t)
	}
	e.nobj++
	id := e.nobj
	e.globals[g] = id
	e.globalInit[g] = v
	e.curState.heap[id] = v
	for i := first; i <= id; i++ {
		if o, ok := e.curState.heap[i]; ok {
			e.globInitID[i] = o
		}
	}
	return e.c.ptrTo(id)
}

// materialize gives the state the initial contents of the package variables
// first used on another path.
func (e *Eng) materialize(st *State) (added bool) {
	for id, v := range e.globInitID {
		if _, ok := st.heap[id]; !ok {
			st.heap[id] = v
			added = true
		}
	}
	return
}

func (e *Eng) assignedOutsideInit(g *ssa.Global) bool {
	if g.Pkg == nil {
		return true
	}
	if e.globAssigned == nil {
		e.globAssigned = map[*ssa.Package]map[*ssa.Global]bool{}
	}
	m, ok := e.globAssigned[g.Pkg]
	if !ok {
		m = map[*ssa.Global]bool{}
		e.globAssigned[g.Pkg] = m
		var visit func(f *ssa.Function)
		visit = func(f *ssa.Function) {
			isInit := f.Name() == "init" && f.Synthetic != "" || e.runInits && strings.HasPrefix(f.Name(), "init#")
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok && !isInit {
						if gg := rootGlobal(s.Addr); gg != nil {
							m[gg] = true
						}
					}
				}
			}
			for _, an := range f.AnonFuncs {
				visit(an)
			}
		}
		for _, mem := range g.Pkg.Members {
			switch x := mem.(type) {
			case *ssa.Function:
				visit(x)
			case *ssa.Type:
				for _, tt := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := e.prog.MethodSets.MethodSet(tt)
					for i := 0; i < ms.Len(); i++ {
						if f := e.prog.MethodValue(ms.At(i)); f != nil {
							visit(f)
						}
					}
				}
			}
		}
	}
	return m[g]
}
func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

// evalGlobal evaluates the initialiser by demand.
func (e *Eng) evalGlobal(g *ssa.Global, t types.Type) Val {
	init := g.Pkg.Func("init")
	if init == nil || init.Blocks == nil {
		return e.fresh(t, g.Name())
	}
	// relevant instructions: backwards slice from stores rooted at g
	need := map[ssa.Instruction]bool{}
	needV := map[ssa.Value]bool{}
	var addV func(v ssa.Value)
	addI := func(in ssa.Instruction) {
		if need[in] {
			return
		}
		need[in] = true
		for _, op := range in.Operands(nil) {
			if *op != nil {
				addV(*op)
			}
		}
	}
	addV = func(v ssa.Value) {
		if needV[v] {
			return
		}
		needV[v] = true
		if in, ok := v.(ssa.Instruction); ok {
			addI(in)
			// stores and map updates through this value
			if refs := v.Referrers(); refs != nil {
				for _, r := range *refs {
					switch x := r.(type) {
					case *ssa.Store:
						if x.Addr == v {
							addI(x)
						}
					case *ssa.MapUpdate:
						if x.Map == v {
							addI(x)
						}
					case *ssa.FieldAddr:
						addV(x)
					case *ssa.IndexAddr:
						if x.X == v {
							addV(x)
						}
					}
				}
			}
		}
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && rootGlobal(s.Addr) == g {
				addI(s)
				if s.Addr != g {
					addV(s.Addr)
				}
			}
		}
	}
	keep := e.curState
	a := &act{e: e, fn: init}
	st := keep
	env := envT{}
	e.nobj++
	id := e.nobj
	e.globals[g] = id
	st.heap[id] = e.c.zero(t)
	e.specMode++
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if need[in] {
				switch in.(type) {
				case *ssa.Jump, *ssa.If, *ssa.Phi:
					unsup("control flow in initialiser of %s", g.Name())
				}
				e.curState = st
				st = a.instr(in, st, env)
			}
		}
	}
	e.specMode--
	if st != keep {
		// calls in initialisers return the same state object or a merged one
		keep.heap = st.heap
	}
	e.curState = keep
	v := keep.heap[id]
	delete(e.globals, g)
	return v
}

var _ = token.NoPos
