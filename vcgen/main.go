package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	rdebug "runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	home = envOr("VC_HOME", "/verif")
	repo = envOr("VC_REPO", "/repo")
)

const modPath = "github.com/unit-io/unitdb"

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// pkgUnit is one package with contracts for a property.
// symDeadline ends symbolic execution and solving; what is open then is unknown.
var symDeadline time.Time

type pkgUnit struct {
	dir     string // contracts subdirectory, "root" for the module root
	rel     string // path relative to the repository
	path    string // import path
	pkgName string
	files   []string // contract files (symbolic and concrete)
	bt      []string // bounded stand-in files (concrete only)
	harness []string
	bounded []string
	bin     string
	where   map[string]string // function -> contract file
	dropped map[string]string // contract files that do not type-check, with the reason
	broken  map[string]string // files left out of the binary, with the reason
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func units(prop string) []*pkgUnit {
	var out []*pkgUnit
	base := filepath.Join(home, "contracts")
	filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		b := filepath.Base(p)
		if !strings.HasPrefix(b, prop+"_") && !strings.HasPrefix(b, "common") {
			return nil
		}
		dir, _ := filepath.Rel(base, filepath.Dir(p))
		var u *pkgUnit
		for _, x := range out {
			if x.dir == dir {
				u = x
			}
		}
		if u == nil {
			u = &pkgUnit{dir: dir, rel: dir}
			if dir == "root" {
				u.rel = "."
			}
			u.path = strings.TrimSuffix(modPath+"/"+u.rel, "/.")
			out = append(out, u)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, p, nil, parser.ParseComments)
		if err != nil {
			die("parse %s: %v", p, err)
		}
		u.pkgName = af.Name.Name
		isBT := strings.HasSuffix(b, "_bt.go")
		if isBT {
			u.bt = append(u.bt, p)
		} else {
			u.files = append(u.files, p)
		}
		for _, d := range af.Decls {
			if f, ok := d.(*ast.FuncDecl); ok && f.Recv == nil {
				if u.where == nil {
					u.where = map[string]string{}
				}
				u.where[f.Name.Name] = p
				if strings.HasPrefix(f.Name.Name, "VC_"+prop+"_") {
					u.harness = append(u.harness, f.Name.Name)
				}
				if strings.HasPrefix(f.Name.Name, "BT_"+prop+"_") {
					u.bounded = append(u.bounded, f.Name.Name)
				}
			}
		}
		return nil
	})
	var r []*pkgUnit
	for _, u := range out {
		if len(u.harness)+len(u.bounded) > 0 {
			r = append(r, u)
		}
	}
	return r
}

func rtFile(name, pkg string) []byte {
	b, err := os.ReadFile(filepath.Join(home, "vcgen", "rt", name))
	if err != nil {
		die("%v", err)
	}
	return []byte(strings.Replace(string(b), "package PKG", "package "+pkg, 1))
}

// ---- symbolic side

type loaded struct {
	prog *ssa.Program
	pkgs map[string]*ssa.Package
	docs map[string][]string // function -> directives
}

// load type-checks the contracts against the current source. A contract file
// that does not type-check is dropped (and reported by the caller); the rest is kept.
func load(us []*pkgUnit) (*loaded, error) {
	for try := 0; ; try++ {
		l, err := load1(us)
		if err == nil || try > 12 {
			return l, err
		}
		hit := false
		for _, u := range us {
			for _, f := range u.files {
				if strings.Contains(err.Error(), "/"+strings.TrimPrefix(u.rel+"/", "./")+"zz_verif_"+filepath.Base(f)+":") {
					if u.dropped == nil {
						u.dropped = map[string]string{}
					}
					u.dropped[f] = err.Error()
					hit = true
					var keep []string
					for _, x := range u.files {
						if x != f {
							keep = append(keep, x)
						}
					}
					u.files = keep
					src, _ := os.ReadFile(f)
					var hs []string
					for _, h := range u.harness {
						if !strings.Contains(string(src), "func "+h+"()") {
							hs = append(hs, h)
						}
					}
					u.harness = hs
					break
				}
			}
		}
		if !hit {
			return nil, err
		}
	}
}

func load1(us []*pkgUnit) (*loaded, error) {
	ov := map[string][]byte{}
	var pats []string
	for _, u := range us {
		if len(u.harness) == 0 {
			continue
		}
		d := filepath.Join(repo, u.rel)
		ov[filepath.Join(d, "zz_verif_rt.go")] = rtFile("vcrt.go.txt", u.pkgName)
		for _, f := range u.files {
			b, _ := os.ReadFile(f)
			ov[filepath.Join(d, "zz_verif_"+filepath.Base(f))] = b
		}
		pats = append(pats, u.path)
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: ov, Env: goEnv()}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%v", e)
		}
	}
	for _, p := range ps {
		for _, imp := range p.Imports {
			for _, e := range imp.Errors {
				return nil, fmt.Errorf("%v", e)
			}
		}
	}
	prog, sp := ssautil.AllPackages(ps, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	l := &loaded{prog: prog, pkgs: map[string]*ssa.Package{}, docs: map[string][]string{}}
	for i, p := range ps {
		l.pkgs[p.PkgPath] = sp[i]
		for _, f := range p.Syntax {
			if !strings.Contains(prog.Fset.Position(f.Pos()).Filename, "zz_verif") {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if strings.HasPrefix(c.Text, "//verif:") {
						l.docs[p.PkgPath+"."+fd.Name.Name] = append(l.docs[p.PkgPath+"."+fd.Name.Name], strings.TrimPrefix(c.Text, "//verif:"))
					}
				}
			}
		}
	}
	return l, nil
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED="+envOr("CGO_ENABLED", "1"))
}

// qualify turns "(*T).m" / "f" / "hash.f" into the ssa name.
func qualify(pkg, s string) string {
	if strings.Contains(s, "/") || strings.HasPrefix(s, "=") {
		return strings.TrimPrefix(s, "=")
	}
	switch {
	case strings.HasPrefix(s, "(*"):
		return "(*" + pkg + "." + s[2:]
	case strings.HasPrefix(s, "("):
		return "(" + pkg + "." + s[1:]
	}
	return pkg + "." + s
}

type harnessResult struct {
	name      string
	unit      *pkgUnit
	eng       *Eng
	obls      []*Obligation
	res       []Result
	unsup     string
	mode      string
	secs      float64
	feasCalls int
	timeoutMs int
}

func (l *loaded) runHarness(u *pkgUnit, name string) (hr *harnessResult) {
	strict := l.runHarness1(u, name, false)
	if strict.unsup != "" {
		if h := l.runHarness1(u, name, true); h.unsup == "" {
			return h
		}
	}
	return strict
}

func (l *loaded) runHarness1(u *pkgUnit, name string, lenient bool) (hr *harnessResult) {
	t0 := time.Now()
	pkg := l.pkgs[u.path]
	fn := pkg.Func(name)
	hr = &harnessResult{name: name, unit: u}
	intMode := false
	maxUnroll := 600
	maxSteps := 6000000
	feasAll := false
	uses := []string{}
	told := []string{}
	seqs := false
	drops := []string{}
	runInits := []string{}
	hr.timeoutMs = 30000
	for _, d := range l.docs[u.path+"."+name] {
		f := strings.Fields(d)
		switch f[0] {
		case "int":
			intMode = true
		case "unroll":
			maxUnroll, _ = strconv.Atoi(f[1])
		case "feas":
			feasAll = true
		case "init":
			runInits = append(runInits, u.path)
			if len(f) > 1 {
				runInits = f[1:]
			}
		case "use":
			uses = append(uses, f[1:]...)
		case "assumes":
			told = append(told, strings.TrimSpace(strings.TrimPrefix(d, "assumes")))
		case "seqs":
			seqs = true
		case "drop":
			drops = append(drops, f[1:]...)
		case "timeout":
			s, _ := strconv.Atoi(f[1])
			hr.timeoutMs = s * 1000
		}
	}
	c := NewCtx(intMode)
	hr.mode = "bit-vectors"
	if intMode {
		hr.mode = "integers with exact wrap-around"
	}
	for _, d := range drops {
		c.drop[d] = true
	}
	c.seqs = seqs
	theCtx = c
	e := &Eng{c: c, prog: l.prog, globals: map[*ssa.Global]int{}, sentinels: map[int]bool{}, widened: map[any]string{}, funcs: map[string]bool{}, models: map[string]bool{}, keyed: map[*Term]bool{}, iters: map[int]*mapIterV{}, cells: map[int]bool{},
		assumes: map[string]bool{}, maxUnroll: maxUnroll, invs: map[string][]*ssa.Function{}, loopCnt: map[string]int{},
		use: map[string]*ssa.Function{}, modelFns: map[string]*ssa.Function{}, modelRec: map[string]bool{}, maxSteps: maxSteps, solver: &IncSolver{memo: map[string]bool{}},
		repoPfx: modPath, globalInit: map[*ssa.Global]Val{}, globInitID: map[int]Val{}, loopInv: map[*ssa.BasicBlock]*invUse{}, summary: map[int]bool{}, feasAll: feasAll, lenientLoops: lenient}
	for _, t := range told {
		e.assumes[t] = true
	}
	hr.eng = e
	e.evPkg = pkg
	c.seqRow = func(s *SliceV, et types.Type) *Arr { return e.sliceLeaves(e.curState, s, et)[0] }
	c.seqObj = func(av *ArrayV) int {
		e.assumes["slices held in arrays of any length are not written in place and not compared with nil"] = true
		return e.newObj(av)
	}
	c.seqLen = func(n *Term) {
		if n.IsConst() || n.Bound || e.keyed[n] {
			return
		}
		e.keyed[n] = true
		c.Axioms = append(c.Axioms, c.le(c.idx(0), n), c.le(n, c.idx(1<<48)))
	}
	defer func() {
		hr.obls = e.obls
		hr.secs = time.Since(t0).Seconds()
		hr.feasCalls = e.solver.calls
		if r := recover(); r != nil {
			if us, ok := r.(Unsupported); ok {
				if os.Getenv("VCPANIC") == "2" {
					rdebug.PrintStack()
				}
				hr.unsup = us.Msg
				return
			}
			if os.Getenv("VCPANIC") != "" {
				panic(r)
			}
			hr.unsup = fmt.Sprintf("internal: %v", r)
		}
	}()
	// directives on every specification function in the loaded packages
	modelRank := map[string]int{}
	var docKeys []string
	for key := range l.docs {
		docKeys = append(docKeys, key)
	}
	sort.Strings(docKeys)
	for _, key := range docKeys {
		ds := l.docs[key]
		i := strings.LastIndex(key, ".")
		pp, fnm := key[:i], key[i+1:]
		sp := l.pkgs[pp]
		if sp == nil {
			continue
		}
		f := sp.Func(fnm)
		for _, d := range ds {
			w := strings.Fields(d)
			switch w[0] {
			case "model":
				// model TARGET [rec] [only HARNESS-SUBSTRING...]
				// rec: of the calls the function makes of itself
				rec := len(w) > 2 && w[2] == "rec"
				if rec {
					w = append(w[:2:2], w[3:]...)
				}
				if len(w) > 3 && w[2] == "only" {
					hit := false
					for _, x := range w[3:] {
						hit = hit || strings.Contains(name, x)
					}
					if !hit {
						continue
					}
				}
				// a model for this harness only goes first, then one of its package
				rank := 1
				if len(w) > 3 {
					rank += 2
				}
				if pp == u.path {
					rank++
				}
				if rank < modelRank[qualify(pp, w[1])] {
					continue
				}
				modelRank[qualify(pp, w[1])] = rank
				e.modelFns[qualify(pp, w[1])] = f
				e.modelRec[qualify(pp, w[1])] = rec
			case "loop":
				// loop TARGET ORDINAL [only HARNESS-SUBSTRING]
				if len(w) > 4 && w[3] == "only" && !strings.Contains(name, w[4]) {
					continue
				}
				k, _ := strconv.Atoi(w[2])
				t := qualify(pp, w[1])
				for len(e.invs[t]) <= k {
					e.invs[t] = append(e.invs[t], nil)
				}
				e.invs[t][k] = f
			case "contract":
				for _, un := range uses {
					if un == fnm {
						e.use[qualify(pp, w[1])] = f
					}
				}
			}
		}
	}
	if fn == nil {
		unsup("no harness %s", name)
	}
	st := &State{heap: map[int]Val{}, pcs: map[*Term]bool{}}
	e.curState = st
	for _, pp := range runInits {
		// the package's init functions, in order
		e.runInits = true
		for _, ip := range l.prog.AllPackages() {
			if ip.Pkg.Path() != pp {
				continue
			}
			for i := 1; ; i++ {
				f := ip.Func(fmt.Sprintf("init#%d", i))
				if f == nil {
					break
				}
				st, _ = e.call(f, nil, nil, st)
				e.curState = st
			}
		}
	}
	out, _ := e.call(fn, nil, nil, st)
	e.obls = append(e.obls, &Obligation{Name: "end of " + name + " reachable", Kind: "cover", Hyp: append([]*Term(nil), out.pc...), Goal: c.F, Fn: name})
	return
}

// ---- concrete side

// buildBin compiles the contracts and bounded stand-ins of a package as a test
// binary. A file that does not compile against the current source is left out
// and named in u.broken, with its functions, so that the others still run.
func buildBin(u *pkgUnit, dir string) error {
	files := append(append([]string{}, u.files...), u.bt...)
	u.broken = map[string]string{}
	var err error
	for try := 0; try < 12 && len(files) > 0; try++ {
		in := map[string]bool{}
		for _, f := range files {
			in[f] = true
		}
		var hs, bs []string
		for _, n := range u.harness {
			if in[u.where[n]] {
				hs = append(hs, n)
			}
		}
		for _, n := range u.bounded {
			if in[u.where[n]] {
				bs = append(bs, n)
			}
		}
		u.bin, err = buildOne(u, dir, "all", files, hs, bs)
		if err == nil {
			return nil
		}
		var keep []string
		for _, f := range files {
			if strings.Contains(err.Error(), "c_"+strings.TrimSuffix(filepath.Base(f), ".go")+"_test.go:") ||
				strings.Contains(err.Error(), "_c_"+filepath.Base(f)+":") {
				u.broken[f] = err.Error()
				continue
			}
			keep = append(keep, f)
		}
		if len(keep) == len(files) {
			break
		}
		files = keep
	}
	if err != nil {
		for _, f := range files {
			u.broken[f] = err.Error()
		}
	}
	return err
}

func buildOne(u *pkgUnit, dir, kind string, files, harness, bounded []string) (string, error) {
	ov := map[string]string{}
	d := filepath.Join(repo, u.rel)
	put := func(name string, b []byte) {
		p := filepath.Join(dir, kind+"_"+strings.ReplaceAll(u.dir, "/", "_")+"_"+name)
		os.WriteFile(p, b, 0644)
		ov[filepath.Join(d, "zz_verif_"+strings.TrimSuffix(name, ".go")+"_test.go")] = p
	}
	put("rt.go", rtFile("vcrt.go.txt", u.pkgName))
	put("main.go", rtFile("vcmain.go.txt", u.pkgName))
	hook := false
	for _, f := range files {
		b, _ := os.ReadFile(f)
		put("c_"+filepath.Base(f), b)
		hook = hook || bytes.Contains(b, []byte("os.VcHook"))
	}
	if hook {
		if err := hookOS(dir, ov); err != nil {
			return "", err
		}
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nvar vcRegistry = map[string]func(){\n", u.pkgName)
	for _, h := range harness {
		fmt.Fprintf(&sb, "\t%q: %s,\n", h, h)
	}
	fmt.Fprintf(&sb, "}\nvar vcBounded = map[string]func(*vcT){\n")
	for _, h := range bounded {
		fmt.Fprintf(&sb, "\t%q: %s,\n", h, h)
	}
	fmt.Fprintln(&sb, "}")
	put("reg.go", []byte(sb.String()))
	j, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	oj := filepath.Join(dir, kind+"_"+strings.ReplaceAll(u.dir, "/", "_")+"_overlay.json")
	os.WriteFile(oj, j, 0644)
	bin := filepath.Join(dir, kind+"_"+strings.ReplaceAll(u.dir, "/", "_")+".test")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", oj, "-o", bin, u.path)
	cmd.Dir = repo
	cmd.Env = goEnv()
	b, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, b)
	}
	return bin, nil
}

// hookOS overlays package os so that os.VcHook is called before every change of
// a file or directory: stand-ins over crashes copy the database's files there.
func hookOS(dir string, ov map[string]string) error {
	cmd := exec.Command("go", "env", "GOROOT")
	cmd.Env = goEnv()
	b, err := cmd.Output()
	if err != nil {
		return err
	}
	root := filepath.Join(strings.TrimSpace(string(b)), "src", "os")
	file := "if VcHook != nil && f != nil && f.file != nil {\n\t\tVcHook(%q, f.name)\n\t}"
	path := "if VcHook != nil {\n\t\tVcHook(%q, %s)\n\t}"
	for _, h := range []struct{ file, head, op, arg string }{
		{"file.go", "func (f *File) Write(b []byte) (n int, err error) {", "write", ""},
		{"file.go", "func (f *File) WriteAt(b []byte, off int64) (n int, err error) {", "write", ""},
		{"file.go", "func (f *File) ReadFrom(r io.Reader) (n int64, err error) {", "write", ""},
		{"file_posix.go", "func (f *File) Truncate(size int64) error {", "truncate", ""},
		{"file.go", "func OpenFile(name string, flag int, perm FileMode) (*File, error) {", "open", "name"},
		{"file.go", "func Rename(oldpath, newpath string) error {", "rename", "oldpath"},
		{"file.go", "func Mkdir(name string, perm FileMode) error {", "mkdir", "name"},
		{"file_unix.go", "func Remove(name string) error {", "remove", "name"},
		{"file_unix.go", "func Truncate(name string, size int64) error {", "truncate", "name"},
	} {
		src := filepath.Join(root, h.file)
		from := src
		if ov[src] != "" {
			from = ov[src]
		}
		b, err := os.ReadFile(from)
		if err != nil {
			return err
		}
		call := fmt.Sprintf(file, h.op)
		if h.arg != "" {
			call = fmt.Sprintf(path, h.op, h.arg)
		}
		if h.op == "open" {
			call = "if flag&(O_CREATE|O_TRUNC) != 0 {\n\t" + call + "\n\t}"
		}
		t := strings.Replace(string(b), h.head+"\n", h.head+"\n\t"+call+"\n", 1)
		if t == string(b) {
			return fmt.Errorf("package os has no %s", h.head)
		}
		p := filepath.Join(dir, "os_"+h.file)
		if err := os.WriteFile(p, []byte(t), 0644); err != nil {
			return err
		}
		ov[src] = p
	}
	p := filepath.Join(dir, "os_vc_hook.go")
	ov[filepath.Join(root, "vc_hook.go")] = p
	return os.WriteFile(p, []byte("package os\n\nvar VcHook func(op, name string)\n"), 0644)
}

type runOut struct {
	Outcome  string
	Tape     []uint64
	Names    []string
	Tried    int
	Nontriv  int
	Asserts  int
	Fails    []string
	Evals    int
	Distinct int
	Samples  []string
	Known    []string
}

func runBin(u *pkgUnit, dir, test, harness string, tape []uint64, ms int, env ...string) (runOut, error) {
	var o runOut
	bin := u.bin
	wd, _ := os.MkdirTemp(dir, "run")
	defer os.RemoveAll(wd)
	of := filepath.Join(wd, "out.json")
	tf := filepath.Join(wd, "tape.json")
	tb, _ := json.Marshal(tape)
	os.WriteFile(tf, tb, 0644)
	scratch := filepath.Join(wd, "scratch")
	os.MkdirAll(scratch, 0755)
	cmd := exec.Command("timeout", "-k", "5", fmt.Sprint(ms*2/1000+120), bin, "-test.run", "^"+test+"$", "-test.timeout", "0")
	cmd.Dir = scratch
	cmd.Env = append(os.Environ(), "VC_HARNESS="+harness, "VC_OUT="+of, "VC_TAPE="+tf, "VC_DIR="+scratch, fmt.Sprintf("VC_MS=%d", ms))
	cmd.Env = append(cmd.Env, env...)
	lf, _ := os.Create(filepath.Join(wd, "log"))
	cmd.Stdout, cmd.Stderr = lf, lf
	err := cmd.Run()
	lf.Close()
	log, _ := os.ReadFile(filepath.Join(wd, "log"))
	b, rerr := os.ReadFile(of)
	if rerr != nil {
		// the process died: a crash of the code under test
		s := string(log)
		if i := strings.Index(s, "panic:"); i >= 0 {
			s = s[i:]
		} else if i := strings.Index(s, "fatal error:"); i >= 0 {
			s = s[i:]
		}
		if len(s) > 1500 {
			s = s[:1500]
		}
		return o, fmt.Errorf("run of %s died: %v: %s", harness, err, s)
	}
	json.Unmarshal(b, &o)
	return o, nil
}

// ---- the check

type violation struct {
	Property   string
	Harness    string
	Package    string
	Obligation string
	Kind       string
	Detail     string
	Tape       []uint64 `json:",omitempty"`
	Inputs     []string `json:",omitempty"`
	Concrete   bool
	Solver     string
	Rerun      string
}

func main() {
	if len(os.Args) < 2 {
		die("usage: vcgen check|sym|replay ...")
	}
	errT = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	opaqueErrT = types.NewNamed(types.NewTypeName(token.NoPos, nil, "opaqueError", nil), types.NewStruct(nil, nil), nil)
	switch os.Args[1] {
	case "check":
		check(os.Args[2:])
	case "sym":
		sym(os.Args[2:])
	case "bt":
		btOnly(os.Args[2:])
	case "replay":
		replay(os.Args[2:])
	case "list":
		for _, u := range units(os.Args[2]) {
			fmt.Println(u.path, u.harness, u.bounded)
		}
	default:
		die("unknown command")
	}
}

func solveAll(hrs []*harnessResult) {
	type job struct {
		hr *harnessResult
		i  int
		q  string
		w  string
		sl string
	}
	var jobs []job
	for _, hr := range hrs {
		hr.res = make([]Result, len(hr.obls))
		for i, o := range hr.obls {
			if o.Goal.IsTrue() {
				hr.res[i] = Result{Status: "unsat", Solver: "simplifier"}
				continue
			}
			as := append([]*Term{}, o.Hyp...)
			if o.Kind != "cover" {
				as = append(as, hr.eng.c.Not(o.Goal))
			}
			weak := ""
			if o.Kind != "cover" {
				weak = hr.eng.c.queryAbs(as, true)
			}
			jobs = append(jobs, job{hr, i, hr.eng.c.query(as), weak, hr.eng.c.slice(o)})
		}
	}
	ch := make(chan job)
	var wg sync.WaitGroup
	for w := 0; w < 5; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				if !symDeadline.IsZero() && time.Now().After(symDeadline) {
					j.hr.res[j.i] = Result{Status: "unknown (deadline)", Query: j.q}
					continue
				}
				full := j.hr.timeoutMs
				if j.hr.obls[j.i].Kind == "cover" {
					full = 5000
				}
				j.hr.res[j.i] = solve(j.q, j.w, j.sl, 4000, full)
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
}

func ok(o *Obligation, r Result) bool {
	if o.Kind == "cover" {
		return r.Status != "unsat"
	}
	return r.Status == "unsat"
}

func sym(args []string) {
	fs := flag.NewFlagSet("sym", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	h := fs.String("h", "", "substring of harness")
	dump := fs.String("dump", "", "directory for failing queries")
	conc := fs.Bool("c", false, "replay failures")
	verbose := fs.Bool("v", false, "")
	fs.Parse(args)
	us := units(*prop)
	l, err := load(us)
	if err != nil {
		die("load: %v", err)
	}
	tmp, _ := os.MkdirTemp("", "vcgen")
	defer os.RemoveAll(tmp)
	for _, u := range us {
		for f, why := range u.dropped {
			fmt.Println("dropped", f, why)
		}
		for _, n := range u.harness {
			if !strings.Contains(n, *h) {
				continue
			}
			hr := l.runHarness(u, n)
			if hr.unsup != "" {
				fmt.Printf("== %s UNSUPPORTED: %s\n", n, hr.unsup)
				continue
			}
			t0 := time.Now()
			solveAll([]*harnessResult{hr})
			bad := 0
			for i, o := range hr.obls {
				r := hr.res[i]
				if ok(o, r) && !*verbose {
					continue
				}
				if !ok(o, r) {
					bad++
				}
				fmt.Printf("   [%s] %s: %s (%s) %s %s %.1fs\n", r.Status, o.Kind, o.Name, o.Fn, o.Pos, r.Solver, r.Secs)
				if !ok(o, r) {
					if *dump != "" {
						os.WriteFile(filepath.Join(*dump, fmt.Sprintf("%s_%d.smt2", n, i)), []byte(r.Query+"(check-sat)\n"), 0644)
					}
					if o.Kind != "cover" {
						tape, d, okk := hr.eng.tape(o, 10000)
						if len(d) > 700 {
							d = d[:700]
						}
						fmt.Println("      model:", d, okk)
						if okk && *conc {
							if u.bin == "" {
								if err := buildBin(u, tmp); err != nil {
									fmt.Println(err)
									continue
								}
							}
							ro, err := runBin(u, tmp, "TestVCReplay", n, tape, 20000)
							fmt.Println("      replay:", ro.Outcome, err)
						}
					}
				}
			}
			fmt.Printf("== %s: %d obligations, %d bad; sym %.1fs (feas %d, %.1fs), solve %.1fs, axioms %d steps %d\n", n, len(hr.obls), bad, hr.secs, hr.feasCalls, hr.eng.solver.secs, time.Since(t0).Seconds(), len(hr.eng.c.Axioms), hr.eng.steps)
			if *verbose {
				fmt.Println("   functions:", sortedKeys(hr.eng.funcs))
				fmt.Println("   models:", sortedKeys(hr.eng.models), sortedKeys(hr.eng.assumes))
			}
		}
	}
}

func knownFindings(prop string) (known map[string]string) {
	known = map[string]string{}
	b, err := os.ReadFile(filepath.Join(home, "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C01 id=<id> <text>
		if !strings.HasPrefix(l, "known: property="+prop+" ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: property="+prop+" "), " ", 2)
		if strings.HasPrefix(f[0], "id=") && len(f) == 2 {
			known[f[0][3:]] = f[1]
		}
	}
	return
}

func check(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	fs.Parse(args)
	t0 := time.Now()
	tier := envOr("VERIF_TIER", "quick")
	seed, _ := strconv.Atoi(envOr("VERIF_SEED", "1"))
	us := units(*prop)
	if len(us) == 0 {
		die("no contracts for %s", *prop)
	}
	tmp, err := os.MkdirTemp("", "vcgen-"+*prop)
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(tmp)
	os.Chmod(tmp, 0755)
	var vs []violation
	add := func(v violation) {
		v.Property = *prop
		for i := range vs {
			if vs[i].Harness == v.Harness && vs[i].Concrete && v.Concrete {
				return // one concrete witness per harness is enough
			}
		}
		vs = append(vs, v)
	}
	known := knownFindings(*prop)
	knownHit := map[string]string{}

	// concrete binaries build in parallel with the symbolic side
	var bw sync.WaitGroup
	var bm sync.Mutex
	for _, u := range us {
		u := u
		ub := new(pkgUnit)
		*ub = *u
		bw.Add(1)
		go func() {
			defer bw.Done()
			buildBin(ub, tmp)
			bm.Lock()
			u.bin, u.broken = ub.bin, ub.broken
			bm.Unlock()
		}()
	}

	var hrs []*harnessResult
	hasSym := false
	for _, u := range us {
		if len(u.harness) > 0 {
			hasSym = true
		}
	}
	if hasSym {
		l, err := load(us)
		if err != nil {
			add(violation{Harness: "load", Kind: "load", Obligation: "contracts type-check against the current source", Detail: err.Error()})
		} else {
			symDeadline = t0.Add(430 * time.Second)
			for _, u := range us {
				for _, n := range u.harness {
					hrs = append(hrs, l.runHarness(u, n))
				}
			}
			solveAll(hrs)
			for _, u := range us {
				for f, why := range u.dropped {
					add(violation{Harness: filepath.Base(f), Package: u.path, Kind: "load", Obligation: "contracts in " + filepath.Base(f) + " type-check against the current source", Detail: why})
				}
			}
		}
	}
	bw.Wait()

	type obRec struct {
		Harness, Kind, Obligation, Status, Solver string
		Secs                                      float64
		Count                                     int
	}
	var recs []obRec
	recAt := map[string]int{}
	obl, dis, covers := 0, 0, 0
	byKind := map[string]int{}
	bySolver := map[string]int{}
	funcs := map[string]bool{}
	models := map[string]bool{}
	assumes := map[string]bool{}
	var solverSecs float64
	lateSearch := false // too late to look for failing inputs
	for _, hr := range hrs {
		for f := range hr.eng.funcs {
			funcs[f] = true
		}
		for m := range hr.eng.models {
			models[m] = true
		}
		for m := range hr.eng.assumes {
			assumes[m] = true
		}
		u := hr.unit
		nOK := 0
		var bad []int
		if hr.unsup == "" {
			for i, o := range hr.obls {
				r := hr.res[i]
				solverSecs += r.Secs
				rk := hr.name + "|" + o.Kind + "|" + o.Name + "|" + r.Status + "|" + r.Solver
				if j, ok := recAt[rk]; ok {
					recs[j].Count++
					recs[j].Secs += r.Secs
				} else {
					recAt[rk] = len(recs)
					recs = append(recs, obRec{hr.name, o.Kind, o.Name, r.Status, r.Solver, r.Secs, 1})
				}
				if o.Kind == "cover" {
					covers++
					if !ok(o, r) {
						bad = append(bad, i)
					}
					continue
				}
				obl++
				byKind[o.Kind]++
				if ok(o, r) {
					dis++
					nOK++
					bySolver[r.Solver]++
				} else {
					bad = append(bad, i)
				}
			}
			if len(hr.obls) < 2 {
				add(violation{Harness: hr.name, Package: u.path, Kind: "vacuous", Obligation: "at least one obligation is generated", Detail: "harness generated no obligations"})
			}
		} else {
			obl++
			byKind["subset"]++
		}
		if hr.unsup == "" && len(bad) == 0 {
			continue
		}
		// something is undischarged: look for a failing input on the real code
		if b := u.broken[u.where[hr.name]]; b != "" {
			add(violation{Harness: hr.name, Package: u.path, Kind: "build", Obligation: "contracts compile against the current source", Detail: b})
			continue
		}
		if time.Since(t0) > 500*time.Second {
			lateSearch = true
		}
		found := false
		tries := 0
		if hr.unsup == "" && !lateSearch {
			for _, i := range bad {
				o := hr.obls[i]
				if o.Kind == "cover" || tries > 6 {
					continue
				}
				tries++
				tape, desc, okk := hr.eng.tape(o, 15000)
				if !okk {
					continue
				}
				ro, err := runBin(u, tmp, "TestVCReplay", hr.name, tape, 20000)
				if err != nil || strings.HasPrefix(ro.Outcome, "fail") {
					det := ro.Outcome
					if err != nil {
						det = err.Error()
					}
					add(violation{Harness: hr.name, Package: u.path, Kind: o.Kind, Obligation: o.Name + " [" + o.Fn + "]", Detail: det + " | model: " + trunc(desc, 2000), Tape: tape, Inputs: ro.Names, Concrete: true, Solver: hr.res[i].Solver})
					found = true
					break
				}
			}
		}
		if !found && !lateSearch {
			ro, err := runBin(u, tmp, "TestVCSearch", hr.name, nil, 15000)
			if err == nil && strings.HasPrefix(ro.Outcome, "fail") {
				on := "subset: " + hr.unsup
				if len(bad) > 0 {
					on = hr.obls[bad[0]].Name + " [" + hr.obls[bad[0]].Fn + "]"
				}
				add(violation{Harness: hr.name, Package: u.path, Kind: "search", Obligation: on, Detail: ro.Outcome, Tape: ro.Tape, Inputs: ro.Names, Concrete: true})
				found = true
			} else if err != nil {
				add(violation{Harness: hr.name, Package: u.path, Kind: "search", Obligation: "contract executed on the real code", Detail: err.Error(), Concrete: true})
				found = true
			}
		}
		if !found {
			if hr.unsup != "" {
				add(violation{Harness: hr.name, Package: u.path, Kind: "subset", Obligation: "function stays within the verified subset", Detail: hr.unsup})
			}
			for _, i := range bad {
				o := hr.obls[i]
				add(violation{Harness: hr.name, Package: u.path, Kind: o.Kind, Obligation: o.Name + " [" + o.Fn + "]", Detail: "solver answer: " + hr.res[i].Status + "\n" + trunc(hr.res[i].Query, 20000)})
			}
		}
	}

	// bounded stand-ins for what is outside the verified subset
	type btRec struct {
		Name            string
		Evals, Distinct int
		Samples         []string
	}
	var bts []btRec
	ms := 20000
	if tier == "thorough" {
		ms = 90000
	}
	if time.Since(t0) > 600*time.Second {
		ms = 5000
	}
	var btJobs []struct {
		u *pkgUnit
		n string
	}
	for _, u := range us {
		for _, n := range u.bounded {
			if b := u.broken[u.where[n]]; b != "" {
				add(violation{Harness: n, Package: u.path, Kind: "build", Obligation: "bounded stand-in compiles against the current source", Detail: b})
				continue
			}
			btJobs = append(btJobs, struct {
				u *pkgUnit
				n string
			}{u, n})
		}
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 4)
	for _, j := range btJobs {
		j := j
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			ro, err := runBin(j.u, tmp, "TestVCBounded", j.n, nil, ms)
			<-sem
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				add(violation{Harness: j.n, Package: j.u.path, Kind: "bounded", Obligation: "bounded stand-in " + j.n, Detail: err.Error(), Concrete: true})
				return
			}
			for _, k := range ro.Known {
				f := strings.SplitN(k, " ", 2)
				if _, isK := known[f[0]]; isK {
					knownHit[f[0]] = k
				} else {
					add(violation{Harness: j.n, Package: j.u.path, Kind: "bounded", Obligation: "bounded stand-in " + j.n, Detail: k, Concrete: true})
				}
			}
			bts = append(bts, btRec{j.n, ro.Evals, ro.Distinct, ro.Samples})
			if len(ro.Fails) > 0 {
				add(violation{Harness: j.n, Package: j.u.path, Kind: "bounded", Obligation: "bounded stand-in " + j.n, Detail: strings.Join(ro.Fails, "; "), Concrete: true})
			}
		}()
	}
	wg.Wait()
	sort.Slice(bts, func(i, j int) bool { return bts[i].Name < bts[j].Name })

	// evidence
	evals, distinct := 0, 0
	for _, b := range bts {
		evals += b.Evals
		distinct += b.Distinct
	}
	var tb []string
	for _, m := range sortedKeys(models) {
		tb = append(tb, m)
	}
	tb = append(tb, "vcgen itself (VC generation over golang.org/x/tools/go/ssa v0.52.0) and the solvers z3-new, z3, cvc5")
	var as []string
	for _, m := range sortedKeys(assumes) {
		as = append(as, m)
	}
	as = append(as, "verified functions run without concurrent interference (locks are no-ops)", "slice and string lengths below 2^48; allocation never fails")
	level := manifestLevel(*prop)
	cov := map[string]interface{}{
		"obligations": obl, "discharged": dis, "obligations_by_kind": byKind, "discharged_by_back_end": bySolver,
		"covers_checked": covers, "harnesses": len(hrs), "functions_under_contract": sortedKeys(funcs),
		"solver_seconds": solverSecs, "checker_cmd": "vcgen check -prop " + *prop,
		"trusted_base": tb, "obligation_list": recs,
	}
	if len(bts) > 0 {
		cov["bounded_standins"] = bts
		cov["evaluations"] = evals
		cov["distinct_nontrivial"] = distinct
		cov["rule"] = "bounded stand-ins (never counted as proved): randomised executions of the real code, seeded by VERIF_SEED; a case is distinct by the key recorded for it"
		var ss []interface{}
		for _, b := range bts {
			for _, s := range b.Samples {
				ss = append(ss, b.Name+": "+trunc(s, 300))
			}
		}
		cov["samples"] = ss
	}
	cov["explanation"] = fmt.Sprintf("%d proof obligations generated from the current source, %d discharged; %d bounded stand-in executions", obl, dis, evals)
	ev := map[string]interface{}{"property": *prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": as, "wall_s": time.Since(t0).Seconds(), "violations": len(vs)}
	os.MkdirAll(filepath.Join(home, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(home, "evidence", *prop+".json"), b, 0644); err != nil {
		die("%v", err)
	}
	for k, text := range knownHit {
		_ = text
		fmt.Printf("KNOWN-FINDING: property=%s id=%s %s\n", *prop, k, known[k])
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d covers, %d bounded executions, %.1fs\n", *prop, obl, dis, covers, evals, time.Since(t0).Seconds())
	if len(vs) == 0 {
		os.RemoveAll(tmp)
		os.Exit(0)
	}
	// concrete ones first
	sort.SliceStable(vs, func(i, j int) bool { return vs[i].Concrete && !vs[j].Concrete })
	rd := filepath.Join(home, "evidence", "replays")
	os.MkdirAll(rd, 0755)
	for i, v := range vs {
		if i >= 8 {
			break
		}
		if !v.Concrete && vs[0].Concrete {
			// keep non-concrete companions in the replay directory only
		}
		p := filepath.Join(rd, fmt.Sprintf("%s-%d.json", *prop, i))
		v.Rerun = fmt.Sprintf("cd %s && VERIF_SEED=%d VERIF_TIER=%s ./bin/vcgen replay %s", home, seed, tier, p)
		jb, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(p, jb, 0644)
		fmt.Printf("  failed: %s / %s: %s\n", v.Harness, v.Obligation, trunc(strings.ReplaceAll(v.Detail, "\n", " "), 400))
		suffix := ""
		if !v.Concrete {
			if vs[0].Concrete {
				continue
			}
			suffix = " no-failing-input-found"
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", *prop, p, suffix)
	}
	os.RemoveAll(tmp)
	os.Exit(1)
}

func manifestLevel(prop string) string {
	b, err := os.ReadFile(filepath.Join(home, "MANIFEST.json"))
	if err == nil {
		var m struct {
			Checks []struct{ Property, Level string }
		}
		json.Unmarshal(b, &m)
		for _, c := range m.Checks {
			if c.Property == prop {
				return c.Level
			}
		}
	}
	return "proof"
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// btOnly runs the bounded stand-ins of a property.
func btOnly(args []string) {
	fs := flag.NewFlagSet("bt", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	h := fs.String("h", "", "substring of stand-in")
	ms := fs.Int("ms", 12000, "")
	fs.Parse(args)
	tmp, _ := os.MkdirTemp("", "vcgen")
	defer os.RemoveAll(tmp)
	for _, u := range units(*prop) {
		if len(u.bounded) == 0 {
			continue
		}
		var err error
		var com []string
		for _, f := range u.files {
			if strings.HasPrefix(filepath.Base(f), "common") {
				com = append(com, f)
			}
		}
		if u.bin, err = buildOne(u, tmp, "bt", append(com, u.bt...), nil, u.bounded); err != nil {
			die("%v", err)
		}
		for _, n := range u.bounded {
			if !strings.Contains(n, *h) {
				continue
			}
			t0 := time.Now()
			o, err := runBin(u, tmp, "TestVCBounded", n, nil, *ms)
			fmt.Printf("%s: evals %d distinct %d known %v fails %v err %v %.1fs\n", n, o.Evals, o.Distinct, o.Known, o.Fails, err, time.Since(t0).Seconds())
		}
	}
}

func replay(args []string) {
	b, err := os.ReadFile(args[0])
	if err != nil {
		die("%v", err)
	}
	var v violation
	json.Unmarshal(b, &v)
	tmp, _ := os.MkdirTemp("", "vcgen-replay")
	defer os.RemoveAll(tmp)
	for _, u := range units(v.Property) {
		if u.path != v.Package {
			continue
		}
		err1 := buildBin(u, tmp)
		test := "TestVCReplay"
		if v.Kind == "bounded" {
			test = "TestVCBounded"
		}
		if err1 != nil {
			die("%v", err1)
		}
		o, err := runBin(u, tmp, test, v.Harness, v.Tape, 20000)
		fmt.Println("outcome:", o.Outcome, o.Fails, err)
	}
}
