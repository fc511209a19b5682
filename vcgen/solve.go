package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

// ---- SMT-LIB printing

type printer struct {
	c      *Ctx
	sb     *strings.Builder
	named  map[int]string
	refs   map[int]int
	syms   map[string]bool
	abs    bool // print hard arithmetic as uninterpreted functions with bounds
	absf   map[string]bool
	fpOnly bool // abs, but only of conversions from floating point
}

// hardArith says whether t is a division or remainder by something other than a power of two.
func hardArith(t *Term) bool {
	switch t.Op {
	case "bvurem", "bvudiv", "bvsrem", "bvsdiv":
	case "fp2bv":
		return !t.Bound
	default:
		return false
	}
	if t.Bound || t.Sort.W() < 24 {
		return false
	}
	d := t.Args[1]
	if d.IsConst() && d.U != 0 && d.U&(d.U-1) == 0 && (t.Op == "bvurem" || t.Op == "bvudiv") {
		return false
	}
	return true
}

func hasHard(t *Term, seen map[int]bool) bool {
	if seen[t.ID] {
		return false
	}
	seen[t.ID] = true
	if hardArith(t) {
		return true
	}
	for _, a := range t.Args {
		if hasHard(a, seen) {
			return true
		}
	}
	return false
}

func hasFP(t *Term, seen map[int]bool) bool {
	if seen[t.ID] {
		return false
	}
	seen[t.ID] = true
	if t.Op == "fp2bv" {
		return true
	}
	for _, a := range t.Args {
		if hasFP(a, seen) {
			return true
		}
	}
	return false
}

// absAxiom states bounds that hold of the exact operator.
func absAxiom(t *Term, r, a, b string) string {
	w := t.Sort.W()
	z := bvConst(0, w)
	if t.Op != "bvsdiv" && t.Op != "bvsrem" {
	} else if d := t.Args[1]; d.IsConst() && w <= 64 && sx(d.U, w) > 1 {
		// of any dividend, by a positive constant
		if t.Op == "bvsrem" {
			return fmt.Sprintf("(and (bvslt (bvneg %s) %s) (bvslt %s %s) (=> (bvsle %s %s) (and (bvsle %s %s) (bvsle %s %s))) (=> (bvsle %s %s) (and (bvsle %s %s) (bvsle %s %s))))",
				b, r, r, b, z, a, z, r, r, a, a, z, r, z, a, r)
		}
		m := bvConst(uint64(1)<<(w-1)/d.U, w)
		return fmt.Sprintf("(and (bvsle (bvneg %s) %s) (bvsle %s %s) (=> (bvsle %s %s) (and (bvsle %s %s) (bvsle %s %s))) (=> (bvsle %s %s) (and (bvsle %s %s) (bvsle %s %s))))",
			m, r, r, m, z, a, z, r, r, a, a, z, r, z, a, r)
	}
	switch t.Op {
	case "bvurem":
		return fmt.Sprintf("(and (bvule %s %s) (=> (not (= %s %s)) (bvult %s %s)) (=> (bvult %s %s) (= %s %s)))", r, a, b, z, r, b, a, b, r, a)
	case "bvudiv":
		return fmt.Sprintf("(and (=> (not (= %s %s)) (bvule %s %s)) (=> (bvult %s %s) (= %s %s)))", b, z, r, a, a, b, r, z)
	case "bvsrem":
		return fmt.Sprintf("(=> (and (bvsle %s %s) (bvslt %s %s)) (and (bvsle %s %s) (bvsle %s %s) (bvslt %s %s) (=> (bvslt %s %s) (= %s %s))))", z, a, z, b, z, r, r, a, r, b, a, b, r, a)
	}
	return fmt.Sprintf("(=> (and (bvsle %s %s) (bvslt %s %s)) (and (bvsle %s %s) (bvsle %s %s) (=> (bvslt %s %s) (= %s %s))))", z, a, z, b, z, r, r, a, a, b, r, z)
}

func (c *Ctx) symsOf(t *Term, out map[string]bool, seen map[int]bool) {
	if seen[t.ID] {
		return
	}
	seen[t.ID] = true
	if t.Op == "var" && !t.Bound || t.Op == "app" {
		out[t.Name] = true
	}
	for _, a := range t.Args {
		c.symsOf(a, out, seen)
	}
}

// query renders hyps as assertions, with the axioms in their cone of influence.
func (c *Ctx) query(as []*Term) string { return c.queryAbs(as, false) }

// queryAbs with abs set weakens the query: divisions and remainders become
// uninterpreted functions about which only bounds are known. Unsat of the
// weakened query implies unsat of the exact one. It returns "" if nothing was hard.
func (c *Ctx) queryAbs(as []*Term, abs bool) string {
	syms := map[string]bool{}
	seen := map[int]bool{}
	for _, a := range as {
		c.symsOf(a, syms, seen)
	}
	used := make([]bool, len(c.Axioms))
	if c.axSyms == nil {
		c.axSyms = map[int]map[string]bool{}
	}
	var ax []*Term
	for changed := true; changed; {
		changed = false
		for i, x := range c.Axioms {
			if used[i] {
				continue
			}
			s := c.axSyms[x.ID]
			if s == nil {
				s = map[string]bool{}
				c.symsOf(x, s, map[int]bool{})
				c.axSyms[x.ID] = s
			}
			hit := len(s) == 0
			for k := range s {
				if syms[k] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				ax = append(ax, x)
				c.symsOf(x, syms, seen)
			}
		}
	}
	p := &printer{c: c, sb: &strings.Builder{}, named: map[int]string{}, refs: map[int]int{}, syms: syms, abs: abs}
	all := append(append([]*Term{}, ax...), as...)
	if abs {
		p.absf = map[string]bool{}
		any := false
		seen := map[int]bool{}
		for _, a := range all {
			if hasHard(a, seen) {
				any = true
				break
			}
		}
		if !any {
			return ""
		}
		fseen := map[int]bool{}
		for _, a := range all {
			p.fpOnly = p.fpOnly || hasFP(a, fseen)
		}
	}
	for _, a := range all {
		p.count(a)
	}
	fmt.Fprintln(p.sb, "(set-logic ALL)")
	for _, d := range c.Decl {
		n := d[strings.Index(d, "|")+1:]
		n = n[:strings.Index(n, "|")]
		if syms[n] {
			fmt.Fprintln(p.sb, d)
		}
	}
	for _, a := range all {
		s := p.term(a)
		fmt.Fprintf(p.sb, "(assert %s)\n", s)
	}
	return p.sb.String()
}

func (p *printer) count(t *Term) {
	p.refs[t.ID]++
	if p.refs[t.ID] > 1 {
		return
	}
	for _, a := range t.Args {
		p.count(a)
	}
}

func bvConst(u uint64, w int) string { return fmt.Sprintf("(_ bv%d %d)", u, w) }

func (p *printer) term(t *Term) string {
	if n, ok := p.named[t.ID]; ok {
		return n
	}
	switch t.Op {
	case "const":
		switch {
		case t.Sort == SBool:
			if t.U == 1 {
				return "true"
			}
			return "false"
		case t.Sort == SInt:
			if t.I.Sign() < 0 {
				return "(- " + new(big.Int).Neg(t.I).String() + ")"
			}
			return t.I.String()
		case t.Sort == SF64:
			return fmt.Sprintf("((_ to_fp 11 53) %s)", bvConst(t.U, 64))
		case t.Sort == SF32:
			return fmt.Sprintf("((_ to_fp 8 24) %s)", bvConst(t.U, 32))
		}
		return bvConst(t.U, t.Sort.W())
	case "var":
		return q(t.Name)
	}
	var s string
	switch t.Op {
	case "forall":
		// prenex: forall x (G or forall y B) as forall x y (G or B)
		vars := fmt.Sprintf("(%s %s)", q(t.Args[0].Name), t.Args[0].Sort.SMT())
		body := t.Args[1]
		for {
			if body.Op == "forall" {
				vars += fmt.Sprintf(" (%s %s)", q(body.Args[0].Name), body.Args[0].Sort.SMT())
				body = body.Args[1]
				continue
			}
			k := -1
			if body.Op == "or" {
				for i, a := range body.Args {
					if a.Op == "forall" {
						k = i
					}
				}
			}
			if k < 0 {
				break
			}
			f := body.Args[k]
			rest := append(append([]*Term{}, body.Args[:k]...), body.Args[k+1:]...)
			vars += fmt.Sprintf(" (%s %s)", q(f.Args[0].Name), f.Args[0].Sort.SMT())
			body = p.c.Or(append(rest, f.Args[1])...)
		}
		s = fmt.Sprintf("(forall (%s) %s)", vars, p.term(body))
	default:
		if p.abs && t.Op == "fp2bv" && hardArith(t) {
			n := fmt.Sprintf("d!%d", t.ID)
			fmt.Fprintf(p.sb, "(declare-fun %s () %s)\n", n, t.Sort.SMT())
			p.named[t.ID] = n
			return n
		}
		as := make([]string, len(t.Args))
		for i, a := range t.Args {
			as[i] = p.term(a)
		}
		j := strings.Join(as, " ")
		if p.abs && !p.fpOnly && hardArith(t) {
			f := fmt.Sprintf("abs!%s%d", t.Op, t.Sort.W())
			if !p.absf[f] {
				p.absf[f] = true
				w := t.Sort.SMT()
				fmt.Fprintf(p.sb, "(declare-fun %s (%s %s) %s)\n", f, w, w, w)
			}
			n := fmt.Sprintf("d!%d", t.ID)
			fmt.Fprintf(p.sb, "(define-fun %s () %s (%s %s))\n(assert %s)\n", n, t.Sort.SMT(), f, j, absAxiom(t, n, as[0], as[1]))
			p.named[t.ID] = n
			return n
		}
		switch t.Op {
		case "app":
			s = "(" + q(t.Name) + " " + j + ")"
		case "extract":
			h, l := exB(t)
			s = fmt.Sprintf("((_ extract %d %d) %s)", h, l, j)
		case "zext":
			s = fmt.Sprintf("((_ zero_extend %d) %s)", t.Sort.W()-t.Args[0].Sort.W(), j)
		case "sext":
			s = fmt.Sprintf("((_ sign_extend %d) %s)", t.Sort.W()-t.Args[0].Sort.W(), j)
		case "int2bv":
			s = fmt.Sprintf("((_ int2bv %d) %s)", t.U, j)
		case "fp.add", "fp.sub", "fp.mul", "fp.div":
			s = "(" + t.Op + " RNE " + j + ")"
		case "fpround":
			s = "(fp.roundToIntegral " + t.Name + " " + j + ")"
		case "fpconv":
			if t.Sort == SF64 {
				s = "((_ to_fp 11 53) RNE " + j + ")"
			} else {
				s = "((_ to_fp 8 24) RNE " + j + ")"
			}
		case "bv2fp":
			f := "to_fp_unsigned"
			if t.U == 1 {
				f = "to_fp"
			}
			d := "11 53"
			if t.Sort == SF32 {
				d = "8 24"
			}
			s = fmt.Sprintf("((_ %s %s) RNE %s)", f, d, j)
		case "fp2bv":
			f := "fp.to_ubv"
			if t.U == 1 {
				f = "fp.to_sbv"
			}
			s = fmt.Sprintf("((_ %s %d) RTZ %s)", f, t.Sort.W(), j)
		default:
			s = "(" + t.Op + " " + j + ")"
		}
	}
	if !t.Bound && p.refs[t.ID] > 1 && len(s) > 24 {
		n := fmt.Sprintf("d!%d", t.ID)
		fmt.Fprintf(p.sb, "(define-fun %s () %s %s)\n", n, t.Sort.SMT(), s)
		p.named[t.ID] = n
		return n
	}
	return s
}

// ---- running solvers

type solverSpec struct {
	name string
	args func(ms int) []string
}

var solvers = []solverSpec{
	{"z3-new", func(ms int) []string { return []string{"-in", fmt.Sprintf("-t:%d", ms), "memory_max_size=3000"} }},
	{"cvc5", func(ms int) []string {
		return []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "-q"}
	}},
	{"z3", func(ms int) []string { return []string{"-in", fmt.Sprintf("-t:%d", ms), "memory_max_size=3000"} }},
}

func runSolver(ctx context.Context, s solverSpec, query string, ms int) string {
	cctx, cancel := context.WithTimeout(ctx, time.Duration(ms+2000)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(cctx, s.name, s.args(ms)...)
	cmd.Stdin = strings.NewReader(query + "(check-sat)\n")
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	for _, l := range strings.Split(out.String(), "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
			return l
		}
		if strings.Contains(l, "error") {
			if debug {
				fmt.Fprintln(os.Stderr, s.name, l)
			}
			return "error: " + l
		}
	}
	return "timeout"
}

// slice is the query for o with only the hypotheses that share a symbol with
// the goal, or "" when that leaves out few. Unsat of it implies unsat of the query.
func (c *Ctx) slice(o *Obligation) string {
	if o.Kind == "cover" || len(o.Hyp) < 20 {
		return ""
	}
	g := map[string]bool{}
	c.symsOf(o.Goal, g, map[int]bool{})
	var hs []*Term
	for _, h := range o.Hyp {
		s := c.hypSyms[h.ID]
		if s == nil {
			s = map[string]bool{}
			c.symsOf(h, s, map[int]bool{})
			if c.hypSyms == nil {
				c.hypSyms = map[int]map[string]bool{}
			}
			c.hypSyms[h.ID] = s
		}
		for k := range s {
			if g[k] {
				hs = append(hs, h)
				break
			}
		}
	}
	if 2*len(hs) > len(o.Hyp) {
		return ""
	}
	return c.query(append(hs, c.Not(o.Goal)))
}

type Result struct {
	Status string // unsat (proved), sat, unknown
	Solver string
	Secs   float64
	Query  string
}

var procStart = time.Now()

// solveBudget bounds a whole run: a check has 900 s.
var solveBudget = 500 * time.Second

// solve decides a query with a portfolio.
func solve(query, weak, slice string, quickMs, fullMs int) Result {
	t0 := time.Now()
	if t0.Sub(procStart) > solveBudget {
		return Result{"unknown", "", 0, query}
	}
	if slice != "" {
		if runSolver(context.Background(), solvers[0], slice, quickMs/4) == "unsat" {
			return Result{"unsat", solvers[0].name, time.Since(t0).Seconds(), slice}
		}
	}
	if weak != "" {
		if runSolver(context.Background(), solvers[0], weak, quickMs) == "unsat" {
			return Result{"unsat", solvers[0].name, time.Since(t0).Seconds(), weak}
		}
	}
	if d := os.Getenv("VCDUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/%d.weak.smt2", d, time.Now().UnixNano()), []byte(weak), 0644)
		os.WriteFile(fmt.Sprintf("%s/%d.smt2", d, time.Now().UnixNano()), []byte(query), 0644)
	}
	r := runSolver(context.Background(), solvers[0], query, quickMs)
	if r == "sat" || r == "unsat" {
		return Result{r, solvers[0].name, time.Since(t0).Seconds(), query}
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type ans struct{ s, r, q string }
	n := len(solvers)
	if weak != "" {
		n *= 2
	}
	ch := make(chan ans, n)
	for _, s := range solvers {
		s := s
		go func() { ch <- ans{s.name, runSolver(ctx, s, query, fullMs), query} }()
		if weak != "" {
			go func() {
				// a weaker set of hypotheses proves only
				r := runSolver(ctx, s, weak, fullMs)
				if r == "sat" {
					r = "unknown"
				}
				ch <- ans{s.name, r, weak}
			}()
		}
	}
	last := "unknown"
	for i := 0; i < n; i++ {
		a := <-ch
		if a.r == "sat" || a.r == "unsat" {
			return Result{a.r, a.s, time.Since(t0).Seconds(), a.q}
		}
		if strings.HasPrefix(a.r, "error") {
			last = a.r
		}
	}
	return Result{last, "", time.Since(t0).Seconds(), query}
}

type IncSolver struct {
	mu    sync.Mutex
	memo  map[string]bool
	calls int
	secs  float64
}

func (s *IncSolver) Feasible(c *Ctx, pc []*Term) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	qs := c.query(pc)
	if v, ok := s.memo[qs]; ok {
		return v
	}
	if s.secs > 150 {
		unsup("path feasibility took too long")
	}
	t0 := time.Now()
	r := ""
	if qa := c.queryAbs(pc, true); qa != "" {
		r = runSolver(context.Background(), solvers[0], qa, 2000)
	}
	if r == "" {
		r = runSolver(context.Background(), solvers[0], qs, 3000)
	}
	s.calls++
	s.secs += time.Since(t0).Seconds()
	v := r != "unsat"
	s.memo[qs] = v
	return v
}

// ---- models

type modelSession struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func (m *modelSession) value(name string) (string, error) {
	fmt.Fprintf(m.in, "(get-value (%s))\n", name)
	depth := 0
	var sb strings.Builder
	for {
		b, err := m.out.ReadByte()
		if err != nil {
			return "", err
		}
		if b == '(' {
			depth++
		}
		if b == ')' {
			depth--
		}
		sb.WriteByte(b)
		if depth == 0 && strings.TrimSpace(sb.String()) != "" && b == ')' {
			break
		}
	}
	return sb.String(), nil
}

func parseVal(s string) (uint64, bool) {
	// ((name VALUE))
	s = strings.TrimSpace(s)
	s = strings.TrimSuffix(strings.TrimPrefix(s, "(("), "))")
	i := strings.Index(s, " ")
	if strings.HasPrefix(s, "(") { // complex term printed back
		d := 0
		for j, ch := range s {
			if ch == '(' {
				d++
			}
			if ch == ')' {
				d--
				if d == 0 {
					i = j + 1
					break
				}
			}
		}
	}
	if strings.HasPrefix(s, "|") {
		i = 1 + strings.Index(s[1:], "|") + 1
	}
	if i < 0 || i >= len(s) {
		return 0, false
	}
	v := strings.TrimSpace(s[i:])
	switch {
	case v == "true":
		return 1, true
	case v == "false":
		return 0, true
	case strings.HasPrefix(v, "#x"):
		b, ok := new(big.Int).SetString(v[2:], 16)
		if !ok {
			return 0, false
		}
		return b.Uint64(), true
	case strings.HasPrefix(v, "#b"):
		b, ok := new(big.Int).SetString(v[2:], 2)
		if !ok {
			return 0, false
		}
		return b.Uint64(), true
	case strings.HasPrefix(v, "(- "):
		b, ok := new(big.Int).SetString(strings.TrimSuffix(v[3:], ")"), 10)
		if !ok {
			return 0, false
		}
		return uint64(-b.Int64()), true
	}
	b, ok := new(big.Int).SetString(v, 10)
	if !ok {
		return 0, false
	}
	if b.IsUint64() {
		return b.Uint64(), true
	}
	return uint64(b.Int64()), true
}

// tape extracts the harness's input draws from a counterexample.
func (e *Eng) tape(o *Obligation, ms int) ([]uint64, string, bool) {
	c := e.c
	as := append(append([]*Term{}, o.Hyp...), c.Not(o.Goal))
	// mention the scalar draws so that they are declared
	var extra []*Term
	for _, d := range e.draws {
		if d.T != nil {
			extra = append(extra, c.mk(&Term{Op: "=", Sort: SBool, Args: []*Term{d.T, d.T}}))
		}
		if d.N != nil {
			extra = append(extra, c.mk(&Term{Op: "=", Sort: SBool, Args: []*Term{d.N, d.N}}))
			for _, m := range d.Multi {
				x := m.Select(c, c.idx(0))
				extra = append(extra, c.mk(&Term{Op: "=", Sort: SBool, Args: []*Term{x, x}}))
			}
		}
		for _, p := range d.Pc {
			extra = append(extra, c.mk(&Term{Op: "=", Sort: SBool, Args: []*Term{p, p}}))
		}
	}
	// prefer small inputs: try with a bound on lengths first
	try := func(bound int64) ([]uint64, string, bool) {
		xs := append(append([]*Term{}, as...), extra...)
		if bound > 0 {
			for _, d := range e.draws {
				if d.N != nil {
					xs = append(xs, c.le(d.N, c.idx(bound)))
				}
			}
		}
		return e.tapeFrom(c.query(xs), ms)
	}
	for _, b := range []int64{16, 300, 6000} {
		if t, s, ok := try(b); ok {
			return t, s, true
		}
	}
	return try(0)
}

func (e *Eng) tapeFrom(query string, ms int) ([]uint64, string, bool) {
	c := e.c
	cmd := exec.Command("timeout", fmt.Sprint(ms/1000+20), "z3-new", "-in", fmt.Sprintf("-t:%d", ms), "model.completion=true")
	in, _ := cmd.StdinPipe()
	outp, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		return nil, "", false
	}
	defer func() { in.Close(); cmd.Process.Kill(); cmd.Wait() }()
	m := &modelSession{cmd, in, bufio.NewReader(outp)}
	go func() {}()
	fmt.Fprintf(in, "(set-option :produce-models true)\n%s(check-sat)\n", query)
	line, err := m.out.ReadString('\n')
	line = strings.TrimSpace(line)
	if err != nil || line == "unsat" || strings.HasPrefix(line, "(error") || line == "timeout" {
		return nil, line, false
	}
	// evaluating a composite term needs it printed in full
	val := func(t *Term) (uint64, bool) {
		if t.IsConst() {
			if t.Sort == SInt {
				if t.I.IsUint64() {
					return t.I.Uint64(), true
				}
				return uint64(t.I.Int64()), true
			}
			return t.U, true
		}
		p := &printer{c: c, sb: &strings.Builder{}, named: map[int]string{}, refs: map[int]int{}}
		s, err := m.value(p.term(t))
		if err != nil {
			return 0, false
		}
		if strings.HasPrefix(strings.TrimSpace(s), "(error") {
			return 0, true // symbol not constrained by the query
		}
		return parseVal(s)
	}
	var tape []uint64
	var desc strings.Builder
	for _, d := range e.draws {
		live := true
		for _, p := range d.Pc {
			v, ok := val(p)
			if !ok || v == 0 {
				live = false
				break
			}
		}
		if !live {
			continue
		}
		if d.T != nil {
			v, ok := val(d.T)
			if !ok {
				return nil, line, false
			}
			tape = append(tape, v)
			fmt.Fprintf(&desc, "%s=%d ", d.Name, v)
			continue
		}
		n, ok := val(d.N)
		if !ok || n > 20000 {
			return nil, line, false
		}
		fmt.Fprintf(&desc, "%s[%d] ", d.Name, n)
		for i := uint64(0); i < n; i++ {
			for _, l := range d.Multi {
				v, ok := val(l.Select(c, c.idx(int64(i))))
				if !ok {
					return nil, line, false
				}
				tape = append(tape, v)
			}
		}
	}
	return tape, desc.String(), true
}
