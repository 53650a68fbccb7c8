package main

import (
	"bufio"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/ioutil"
	"math"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var (
	fVerbose = flag.Bool("v", false, "verbose")
	fOnly    = flag.String("only", "", "run only harnesses whose name contains this")
	fRepo    = flag.String("repo", "/repo", "repository")
	fHome    = flag.String("home", "/verif", "framework directory")
	fTier    = flag.String("tier", "", "quick or thorough")
	fDump    = flag.String("dump", "", "directory for undecided queries")
	fProf    = flag.String("prof", "", "CPU profile")
	fMax     = flag.Int("max", 780, "overall time limit in seconds")
)

type HFile struct {
	path, dir, base string
	hs              []*Harness
	src             []byte
}

func parseDirectives(doc string, o *Opts, h *Harness, tier string) {
	for _, line := range strings.Split(doc, "\n") {
		line = strings.TrimSpace(line)
		if !strings.HasPrefix(line, "//vx:") && !strings.HasPrefix(line, "vx:") {
			continue
		}
		line = line[strings.Index(line, "vx:")+3:]
		for _, f := range strings.Fields(line) {
			k, v := f, ""
			if i := strings.IndexByte(f, '='); i >= 0 {
				k, v = f[:i], f[i+1:]
			}
			n, _ := strconv.Atoi(v)
			switch k {
			case "mode":
				o.FP = v == "fp"
			case "clock":
				o.Clock = v == "fixed"
			case "split":
				o.Split = true
			case "forkidx":
				o.ForkIdx = true
			case "noprune":
				o.Prune = false
			case "unwind":
				o.Unwind = n
			case "div":
				o.Div = v
			case "solve":
				o.SolveT = n
			case "timeout":
				o.Timeout = n
			case "cpu":
				o.NumCPU = n
			case "sched":
				o.Sched = v
			case "feas":
				o.FeasMs = n
			case "maxpath":
				o.MaxPath = n
			case "solvers":
				o.Solvers = strings.Split(v, ",")
			case "exits":
				o.AssumeExits = v == "assume"
			case "nowit":
				o.NoWit = true
			case "race":
				o.Race = true
			case "nonative":
				o.NoNative = true
			case "tier":
				if v == "thorough" && tier != "thorough" {
					h.Skip = true
				}
				if v == "quick" && tier == "thorough" {
					h.Skip = true
				}
			default:
				fmt.Printf("unknown directive %s in %s\n", k, h.Name)
			}
		}
	}
	o.Tier = tier
	if tier == "thorough" {
		o.SolveT *= 4
		o.Timeout *= 3
	}
}

func loadHarnesses(dir, tier string) ([]*HFile, error) {
	fs, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return nil, err
	}
	var out []*HFile
	for _, f := range fs {
		b, err := ioutil.ReadFile(f)
		if err != nil {
			return nil, err
		}
		hf := &HFile{path: f, base: strings.TrimSuffix(filepath.Base(f), ".go"), src: b}
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "//vx:pkg ") {
				hf.dir = strings.TrimSpace(l[9:])
				break
			}
		}
		if hf.dir == "" {
			continue
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, b, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "VX_") {
				continue
			}
			h := &Harness{Name: fd.Name.Name, Dir: hf.dir, Pkg: modPath, File: f, Opt: defaultOpts()}
			if hf.dir != "." {
				h.Pkg = modPath + "/" + hf.dir
			}
			if fd.Doc != nil {
				var ls []string
				for _, c := range fd.Doc.List {
					ls = append(ls, c.Text)
					if !strings.HasPrefix(c.Text, "//vx:") {
						h.Doc += strings.TrimSpace(strings.TrimPrefix(c.Text, "//")) + " "
					}
				}
				parseDirectives(strings.Join(ls, "\n"), &h.Opt, h, tier)
			} else {
				h.Opt.Tier = tier
			}
			hf.hs = append(hf.hs, h)
		}
		out = append(out, hf)
	}
	return out, nil
}

func (hf *HFile) target(repo, id string) string {
	return filepath.Join(repo, hf.dir, "zz_verif_"+strings.ToLower(id)+"_"+hf.base+".go")
}

// ---------- environment for the go tool

type goEnv struct {
	env  []string
	mod  string
	work string
}

func setupGo(repo, home, work string) (*goEnv, error) {
	b, err := ioutil.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "github.com/phil-mansfield/table ") {
			continue
		}
		out = append(out, l)
	}
	out = append(out, "require github.com/phil-mansfield/table v0.0.0", "replace github.com/phil-mansfield/table => "+filepath.Join(home, "stubs", "table"))
	mod := filepath.Join(work, "gotetra.mod")
	if err := ioutil.WriteFile(mod, []byte(strings.Join(out, "\n")+"\n"), 0644); err != nil {
		return nil, err
	}
	sum, _ := ioutil.ReadFile(filepath.Join(repo, "go.sum"))
	ioutil.WriteFile(filepath.Join(work, "gotetra.sum"), sum, 0644)
	var env []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOWORK=") || strings.HasPrefix(e, "GOTOOLCHAIN=") {
			continue
		}
		env = append(env, e)
	}
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	if os.Getenv("GOPATH") == "" {
		env = append(env, "GOPATH=/root/go")
	}
	if os.Getenv("GOCACHE") == "" && os.Getenv("HOME") == "" {
		env = append(env, "GOCACHE=/root/.cache/go-build")
	}
	env = append(env, "GOFLAGS=-mod=mod -modfile="+mod, "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GONOSUMDB=*", "GONOSUMCHECK=1")
	return &goEnv{env, mod, work}, nil
}

// ---------- native replay

type Replayer struct {
	ge      *goEnv
	repo    string
	home    string
	id      string
	files   []*HFile
	mu      sync.Mutex
	bins    map[string]*binRec
	n       int
	timeout time.Duration
}

type binRec struct {
	once sync.Once
	path string
	err  error
}

func (r *Replayer) bin(dir string, race bool) (string, error) {
	r.mu.Lock()
	k := dir
	if race {
		k += " race"
	}
	b := r.bins[k]
	if b == nil {
		b = &binRec{}
		r.bins[k] = b
	}
	r.mu.Unlock()
	b.once.Do(func() { b.path, b.err = r.build(dir, race) })
	return b.path, b.err
}

func (r *Replayer) build(dir string, race bool) (string, error) {
	rep := map[string]string{filepath.Join(r.repo, "zzvx", "vx.go"): filepath.Join(r.home, "harness", "vx", "vx.go")}
	tests, _ := filepath.Glob(filepath.Join(r.repo, dir, "*_test.go"))
	for _, t := range tests {
		rep[t] = ""
	}
	var names []string
	pkg := ""
	for _, f := range r.files {
		rep[f.target(r.repo, r.id)] = f.path
		if f.dir != dir {
			continue
		}
		for _, h := range f.hs {
			names = append(names, h.Name)
		}
		fs := token.NewFileSet()
		if af, err := parser.ParseFile(fs, f.path, f.src, parser.PackageClauseOnly); err == nil {
			pkg = af.Name.Name
		}
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\tzzrand \"math/rand\"\n\t\"os\"\n\t\"testing\"\n\n\tvx %q\n)\n\n", pkg, modPath+"/zzvx")
	fmt.Fprintf(&sb, "func TestZZVerif(t *testing.T) {\n\tm := map[string]func(){\n")
	for _, n := range names {
		fmt.Fprintf(&sb, "\t\t%q: %s,\n", n, n)
	}
	fmt.Fprintf(&sb, "\t}\n\tzzrand.VXHook = vx.Rand\n\tvx.Begin(os.Getenv(\"VX_MODEL\"), os.Getenv(\"VX_OUT\"))\n\tvx.Run(m[os.Getenv(\"VX_HARNESS\")])\n}\n")
	key := strings.Replace(dir, "/", "_", -1)
	if race {
		key += "_race"
	}
	tf := filepath.Join(r.ge.work, "main_"+key+"_test.go")
	ioutil.WriteFile(tf, []byte(sb.String()), 0644)
	rep[filepath.Join(r.repo, dir, "zz_verif_main_test.go")] = tf
	// log.Fatal must be observable inside the process
	goroot := strings.TrimSpace(runOut(r.ge.env, r.repo, "go", "env", "GOROOT"))
	lg := filepath.Join(goroot, "src", "log", "log.go")
	if b, err := ioutil.ReadFile(lg); err == nil {
		s := strings.Replace(string(b), "os.Exit(1)", "panic(\"log.Fatal\")", -1)
		s = strings.Replace(s, "\n\t\"os\"\n", "\n\t\"os\"\n", 1)
		if !strings.Contains(strings.Replace(s, "\t\"os\"\n", "", 1), "os.") {
			s = strings.Replace(s, "\t\"os\"\n", "", 1)
		}
		nl := filepath.Join(r.ge.work, "log.go")
		ioutil.WriteFile(nl, []byte(s), 0644)
		rep[lg] = nl
	}
	// draws of math/rand come from the model
	rg := filepath.Join(goroot, "src", "math", "rand", "rand.go")
	if b, err := ioutil.ReadFile(rg); err == nil {
		s := string(b)
		s = strings.Replace(s, "func newSource(seed int64) *rngSource {\n", "func newSource(seed int64) *rngSource {\n\tvxLast = seed\n", 1)
		s = strings.Replace(s, "type Rand struct {\n", "type Rand struct {\n\tvxSeed int64\n\tvxN    int\n", 1)
		s = strings.Replace(s, "return &Rand{src: src, s64: s64}", "return &Rand{src: src, s64: s64, vxSeed: vxLast}", 1)
		s = strings.Replace(s, "func (r *Rand) Float64() float64 {\n", "func (r *Rand) Float64() float64 {\n\tif VXHook != nil {\n\t\tr.vxN++\n\t\tif v, ok := VXHook(r.vxSeed, r.vxN-1, r == globalRandGenerator.Load()); ok {\n\t\t\treturn v\n\t\t}\n\t}\n", 1)
		s += "\nvar vxLast int64\n\n// VXHook supplies values during replay.\nvar VXHook func(seed int64, idx int, global bool) (float64, bool)\n"
		nl := filepath.Join(r.ge.work, "rand.go")
		ioutil.WriteFile(nl, []byte(s), 0644)
		rep[rg] = nl
	}
	ov := filepath.Join(r.ge.work, "overlay_"+key+".json")
	b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ioutil.WriteFile(ov, b, 0644)
	bin := filepath.Join(r.ge.work, "replay_"+key+".test")
	args := []string{"test", "-c", "-vet=off", "-overlay", ov, "-o", bin}
	if race {
		args = append(args, "-race")
	}
	cmd := exec.Command("go", append(args, "./"+dir)...)
	cmd.Dir = r.repo
	cmd.Env = r.ge.env
	if race {
		cmd.Env = append(append([]string{}, r.ge.env...), "CGO_ENABLED=1")
	}
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("replay build of %s: %v: %s", dir, err, firstLines(string(out), 12))
	}
	return bin, nil
}

func runOut(env []string, dir, name string, args ...string) string {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = env
	b, _ := c.Output()
	return string(b)
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

type ReplayRes struct {
	Fail   string // failed assertion
	Panic  string
	Assume bool
	Hang   bool
	Done   bool
	Race   string
	Reach  map[string]bool
	Obs    map[string]string
	Raw    string
	Err    error
}

func (r *Replayer) run(h *Harness, model map[string]string, race bool) ReplayRes {
	bin, err := r.bin(h.Dir, race)
	if err != nil {
		return ReplayRes{Err: err}
	}
	r.mu.Lock()
	r.n++
	n := r.n
	r.mu.Unlock()
	d := filepath.Join(r.ge.work, fmt.Sprintf("run%d", n))
	os.MkdirAll(d, 0755)
	defer os.RemoveAll(d)
	b, _ := json.Marshal(model)
	mf, of := filepath.Join(d, "model.json"), filepath.Join(d, "out.txt")
	ioutil.WriteFile(mf, b, 0644)
	tmp := filepath.Join(d, "tmp")
	os.MkdirAll(tmp, 0755)
	ctx, cancel := context.WithTimeout(context.Background(), r.timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.run", "^TestZZVerif$", "-test.timeout", "60s")
	cmd.Dir = tmp
	cmd.Env = append(append([]string{}, r.ge.env...), "VX_MODEL="+mf, "VX_OUT="+of, "VX_HARNESS="+h.Name, "VX_TMP="+tmp, "VX_PY="+pyDriver(), "VX_REPO="+r.repo, "GOMEMLIMIT=3GiB",
		fmt.Sprintf("GOMAXPROCS=%d", h.Opt.NumCPU))
	so, _ := cmd.CombinedOutput()
	res := ReplayRes{Reach: map[string]bool{}, Obs: map[string]string{}}
	if i := strings.Index(string(so), "WARNING: DATA RACE"); i >= 0 {
		res.Race = firstLines(string(so)[i:], 12)
	}
	ob, err := ioutil.ReadFile(of)
	if err != nil {
		res.Err = fmt.Errorf("no replay output: %s", firstLines(string(so), 6))
		return res
	}
	res.Raw = string(ob)
	for _, l := range strings.Split(string(ob), "\n") {
		f := strings.SplitN(l, " ", 2)
		switch f[0] {
		case "FAIL":
			res.Fail = f[1]
		case "PANIC":
			res.Panic = f[1]
		case "ASSUME":
			res.Assume = true
		case "REACH":
			res.Reach[f[1]] = true
		case "OBS", "OBSI":
			g := strings.Fields(f[1])
			if len(g) == 2 {
				res.Obs[g[0]] = g[1]
			}
		case "DONE":
			res.Done = true
		}
	}
	if !res.Done {
		if ctx.Err() != nil {
			res.Hang = true
		} else {
			// the process died (runtime fatal error)
			res.Panic = firstLines(string(so), 3)
		}
	}
	return res
}

// modelFor turns a solver model into native input values. variant selects a rounding.
func modelFor(h *Harness, raw map[string]string, names []NVar, fixed map[string]string, variant int) map[string]string {
	m := map[string]string{"tier": h.Opt.Tier}
	if h.Opt.FP {
		m["mode"] = "fp"
	} else {
		m["mode"] = "real"
	}
	for k, v := range fixed {
		m[k] = v
	}
	for _, nv := range names {
		rv, ok := raw[nv.T.Name]
		if !ok {
			switch nv.Kind {
			case "F64", "F32":
				if nv.T.Lo != nil {
					z := new(big.Rat)
					if z.Cmp(nv.T.Lo) < 0 {
						z = nv.T.Lo
					} else if nv.T.Hi != nil && z.Cmp(nv.T.Hi) > 0 {
						z = nv.T.Hi
					}
					m[nv.Name] = floatStr(z, nv.Kind)
				}
			}
			continue
		}
		switch nv.Kind {
		case "F64", "F32":
			if nv.T.S.K == KReal {
				r, ok := parseVal(rv)
				if !ok {
					continue
				}
				if variant > 0 {
					q := []int64{1, 1 << 10, 1 << 6, 1 << 3, 1 << 20}[variant]
					x := new(big.Rat).Mul(r, new(big.Rat).SetInt64(q))
					x.Add(x, big.NewRat(1, 2))
					r2 := new(big.Rat).SetFrac(floorOf(x), big.NewInt(q))
					if (nv.T.Lo == nil || r2.Cmp(nv.T.Lo) >= 0) && (nv.T.Hi == nil || r2.Cmp(nv.T.Hi) <= 0) {
						r = r2
					}
				}
				m[nv.Name] = floatStr(r, nv.Kind)
			} else if u, ok := parseFP(rv); ok {
				m[nv.Name] = fmt.Sprint(u)
			}
		default:
			r, ok := parseVal(rv)
			if ok && r.IsInt() {
				m[nv.Name] = r.Num().String()
			}
		}
	}
	return m
}

func floatStr(r *big.Rat, kind string) string {
	if kind == "F32" {
		f, _ := r.Float32()
		return fmt.Sprint(math.Float32bits(f))
	}
	f, _ := r.Float64()
	return fmt.Sprint(math.Float64bits(f))
}

// parseFP parses an SMT floating-point literal into its bits.
func parseFP(s string) (uint64, bool) {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "(fp ") {
		f := strings.Fields(strings.Trim(s, "()"))
		if len(f) != 4 {
			return 0, false
		}
		var u uint64
		for _, p := range f[1:] {
			var b uint64
			n := 0
			switch {
			case strings.HasPrefix(p, "#b"):
				n = len(p) - 2
				b, _ = strconv.ParseUint(p[2:], 2, 64)
			case strings.HasPrefix(p, "#x"):
				n = 4 * (len(p) - 2)
				b, _ = strconv.ParseUint(p[2:], 16, 64)
			default:
				return 0, false
			}
			u = u<<uint(n) | b
		}
		return u, true
	}
	if strings.HasPrefix(s, "(_ ") {
		f := strings.Fields(strings.Trim(s, "()"))
		if len(f) == 4 {
			eb, _ := strconv.Atoi(f[2])
			w64 := eb == 11
			g := map[string][2]uint64{"+zero": {0, 0}, "-zero": {1 << 63, 1 << 31}, "+oo": {math.Float64bits(math.Inf(1)), 0x7f800000}, "-oo": {math.Float64bits(math.Inf(-1)), 0xff800000}, "NaN": {math.Float64bits(math.NaN()), 0x7fc00000}}
			if v, ok := g[f[1]]; ok {
				if w64 {
					return v[0], true
				}
				return v[1], true
			}
		}
	}
	return 0, false
}

// ---------- solving

type Stats struct {
	mu       sync.Mutex
	queries  int
	wall     time.Duration
	bySolver map[string]int
	unknown  int
}

type Driver struct {
	id       string
	tier     string
	seed     int
	sem      chan struct{}
	stats    Stats
	rep      *Replayer
	known    []Known
	deadline time.Time
	mu       sync.Mutex
}

type Known struct {
	Harness, Assert, Desc string
}

func hasKind(t *Term, kinds map[Kind]bool, seen map[int]bool) bool {
	if seen[t.ID] {
		return false
	}
	seen[t.ID] = true
	if kinds[t.S.K] {
		return true
	}
	for _, a := range t.A {
		if hasKind(a, kinds, seen) {
			return true
		}
	}
	return false
}

type query struct {
	body string
	vars []*Term
	fp   bool
	real bool
}

func mkQuery(c *Ctx, t *Term, extra ...*Term) query {
	e := NewEmitter(c)
	r := e.ref(t)
	for _, x := range extra {
		e.ref(x)
	}
	body := e.sb.String() + "(assert " + r + ")\n"
	return query{body: body, vars: e.vars, fp: strings.Contains(body, "FloatingPoint") || strings.Contains(body, "fp."), real: strings.Contains(body, " Real)")}
}

func (d *Driver) solve(h *Harness, q query, tmo time.Duration) QResult {
	solvers := h.Opt.Solvers
	if solvers == nil {
		switch {
		case q.fp:
			solvers = []string{"z3", "cvc5", "z3-qffp"}
		case q.real:
			solvers = []string{"z3", "cvc5", "z3-nlsat"}
		default:
			solvers = []string{"z3", "cvc5"}
		}
	}
	left := time.Until(d.deadline)
	if left < 2*time.Second {
		return QResult{Res: RUnknown, Solver: "deadline"}
	}
	if tmo > left {
		tmo = left
	}
	d.stats.mu.Lock()
	d.stats.queries++
	d.stats.mu.Unlock()
	t0 := time.Now()
	defer func() {
		d.stats.mu.Lock()
		d.stats.wall += time.Since(t0)
		d.stats.mu.Unlock()
	}()
	// quick attempt with the first solver alone
	first := 3 * time.Second
	if first > tmo {
		first = tmo
	}
	d.sem <- struct{}{}
	ctx, cancel := context.WithTimeout(context.Background(), first)
	r := RunQuery(ctx, solverCfg(solvers[0], first), q.body, q.vars)
	cancel()
	<-d.sem
	if r.Res == RSat || r.Res == RUnsat {
		d.count(r.Solver)
		return r
	}
	if r.Res == RError && *fVerbose {
		fmt.Printf("  solver error %s: %s\n", r.Solver, firstLines(r.Raw, 2))
	}
	ctx, cancel = context.WithTimeout(context.Background(), tmo)
	defer cancel()
	ch := make(chan QResult, len(solvers))
	for _, s := range solvers {
		go func(s string) {
			d.sem <- struct{}{}
			defer func() { <-d.sem }()
			if ctx.Err() != nil {
				ch <- QResult{Res: RUnknown, Solver: s}
				return
			}
			ch <- RunQuery(ctx, solverCfg(s, tmo), q.body, q.vars)
		}(s)
	}
	var last QResult
	for range solvers {
		r := <-ch
		if r.Res == RSat || r.Res == RUnsat {
			d.count(r.Solver)
			return r
		}
		if r.Res == RError && *fVerbose {
			fmt.Printf("  solver error %s: %s\n", r.Solver, firstLines(r.Raw, 2))
		}
		last = r
	}
	last.Res = RUnknown
	d.stats.mu.Lock()
	d.stats.unknown++
	d.stats.mu.Unlock()
	return last
}

func (d *Driver) count(s string) {
	d.stats.mu.Lock()
	if d.stats.bySolver == nil {
		d.stats.bySolver = map[string]int{}
	}
	d.stats.bySolver[s]++
	d.stats.mu.Unlock()
}

type Violation struct {
	Harness, Msg, Pos, Kind string
	Model                   map[string]string
	Native                  string
	Known                   string
}

type HResult struct {
	h          *Harness
	paths      int
	blocks     int64
	instrs     int64
	merges     int64
	forks      int64
	asserts    int
	trivial    int
	obls       int
	discharged int
	undecided  []string
	unrepro    []string
	viol       []Violation
	exploreErr string
	funcs      []string
	assumed    []string
	notes      []string
	witnesses  int
	validated  int
	mismatch   []string
	samples    []interface{}
	labels     []string
	unreached  []string
	exploreT   time.Duration
	solveT     time.Duration
	feas       int
	vacuous    bool
	cert       certRes
}

func (d *Driver) runHarness(e *Engine, h *Harness) *HResult {
	c := NewCtx()
	c.StepCap = 20000
	budget := 6 * time.Second
	if d.tier == "thorough" {
		c.StepCap, budget = 200000, 120*time.Second
	}
	t0 := time.Now()
	er := e.Explore(h, c)
	ex := er.ex
	hr := &HResult{h: h, paths: er.paths, exploreErr: er.err, blocks: ex.nblk, instrs: ex.nins, merges: ex.nmerge, forks: ex.nfork,
		asserts: ex.nassert, trivial: ex.ntriv, funcs: sortedKeys(ex.funcs), assumed: sortedKeys(ex.assumed), feas: ex.inc.n}
	for n := range ex.notes {
		hr.notes = append(hr.notes, n)
	}
	sort.Strings(hr.notes)
	hr.exploreT = time.Since(t0)
	if *fVerbose {
		fmt.Printf("  %s: explored %d paths, %d blocks, %d instrs, %d merges, %d obligations, %d feasibility queries in %.1fs %s\n", h.Name, er.paths, ex.nblk, ex.nins, ex.nmerge, len(ex.obls), ex.inc.n, hr.exploreT.Seconds(), er.err)
	}
	t1 := time.Now()
	d.discharge(c, ex, h, hr)
	if !h.Opt.NoWit {
		d.witness(c, ex, h, hr)
	}
	if left := time.Until(d.deadline) - 20*time.Second; left < budget {
		budget = left
	}
	if budget > 0 {
		d.sem <- struct{}{}
		hr.cert = c.certify(budget)
		<-d.sem
		if *fVerbose {
			fmt.Printf("  %s: normaliser steps: %d seen, %d handed to z3, %d proved, %d open, %d refuted in %.1fs\n", h.Name, hr.cert.seen, hr.cert.taken, hr.cert.proved, hr.cert.open, hr.cert.refuted, hr.cert.wall.Seconds())
			if hr.cert.bad != "" {
				fmt.Println(hr.cert.bad)
			}
		}
		if hr.cert.refuted > 0 {
			hr.mismatch = append(hr.mismatch, fmt.Sprintf("%d steps of the normaliser are not confirmed by the solver", hr.cert.refuted))
		}
	}
	hr.solveT = time.Since(t1)
	return hr
}

func (d *Driver) discharge(c *Ctx, ex *Exec, h *Harness, hr *HResult) {
	// group identical conditions
	seen := map[int]bool{}
	same := map[int][]Obligation{} // the same condition under other choices or messages
	var obls []Obligation
	for _, o := range ex.obls {
		if seen[o.Bad.ID] {
			if len(same[o.Bad.ID]) < 5000 {
				same[o.Bad.ID] = append(same[o.Bad.ID], o)
			}
			continue
		}
		seen[o.Bad.ID] = true
		obls = append(obls, o)
	}
	hr.obls = len(obls)
	tmo := time.Duration(h.Opt.SolveT) * time.Second
	type job struct {
		os []Obligation
		q  query
	}
	bs := 1
	if len(obls) > 300 {
		bs = len(obls)/300 + 1
	}
	var jobs []job
	for i := 0; i < len(obls); i += bs {
		j := i + bs
		if j > len(obls) {
			j = len(obls)
		}
		var ts []*Term
		for _, o := range obls[i:j] {
			ts = append(ts, o.Bad)
		}
		jobs = append(jobs, job{obls[i:j], mkQuery(c, c.Or(ts...))})
	}
	results := make([]QResult, len(jobs))
	var wg sync.WaitGroup
	lim := make(chan struct{}, 8)
	var stop sync.Once
	stopped := make(chan struct{})
	for i := range jobs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			lim <- struct{}{}
			defer func() { <-lim }()
			select {
			case <-stopped:
				results[i] = QResult{Res: RUnknown, Solver: "skipped"}
				return
			default:
			}
			results[i] = d.solve(h, jobs[i].q, tmo)
		}(i)
	}
	wg.Wait()
	_ = stop
	var pend []Obligation
	var pres []QResult
	for i, j := range jobs {
		if results[i].Res == RUnsat {
			hr.discharged += len(j.os)
			continue
		}
		if len(j.os) == 1 {
			pend = append(pend, j.os[0])
			pres = append(pres, results[i])
			continue
		}
		// individually
		rs := make([]QResult, len(j.os))
		var wg sync.WaitGroup
		for k := range j.os {
			q := mkQuery(c, j.os[k].Bad)
			wg.Add(1)
			go func(k int, q query) {
				defer wg.Done()
				rs[k] = d.solve(h, q, tmo)
			}(k, q)
		}
		wg.Wait()
		for k := range j.os {
			if rs[k].Res == RUnsat {
				hr.discharged++
				continue
			}
			pend = append(pend, j.os[k])
			pres = append(pres, rs[k])
		}
	}
	// replay: at most one reproduced counterexample per assertion message, few attempts each
	done := map[string]bool{}
	tries := map[string]int{}
	for i, o := range pend {
		if pres[i].Res != RSat {
			if o.Strong == nil {
				hr.undecided = append(hr.undecided, fmt.Sprintf("%s (%s)", o.Msg, o.Pos))
				d.dump(h, c, o, i)
				continue
			}
			// try to find a clear counterexample although the exact query was not decided
			r := d.solve(h, mkQuery(c, o.Strong), tmo/2)
			if r.Res != RSat {
				hr.undecided = append(hr.undecided, fmt.Sprintf("%s (%s)", o.Msg, o.Pos))
				d.dump(h, c, o, i)
				continue
			}
			pres[i] = r
		}
		for _, o := range append([]Obligation{o}, same[o.Bad.ID]...) {
			key := o.Msg + " " + o.Pos
			if done[key] || tries[key] >= 12 {
				continue
			}
			tries[key]++
			v, ok := d.reproduce(c, h, o, pres[i])
			if ok {
				done[key] = true
				hr.viol = append(hr.viol, v)
			} else {
				hr.unrepro = append(hr.unrepro, fmt.Sprintf("%s (%s): %s", o.Msg, o.Pos, v.Native))
			}
		}
	}
}

func (d *Driver) dump(h *Harness, c *Ctx, o Obligation, i int) {
	if *fDump == "" {
		return
	}
	os.MkdirAll(*fDump, 0755)
	q := mkQuery(c, o.Bad)
	ioutil.WriteFile(filepath.Join(*fDump, fmt.Sprintf("%s_%d.smt2", h.Name, i)), []byte(q.body+"(check-sat)\n"), 0644)
}

func (d *Driver) reproduce(c *Ctx, h *Harness, o Obligation, first QResult) (Violation, bool) {
	v := Violation{Harness: h.Name, Msg: o.Msg, Pos: o.Pos, Kind: o.Kind}
	tmo := time.Duration(h.Opt.SolveT) * time.Second
	if h.Opt.NoNative {
		// decided by the encoding alone (no deterministic native replay)
		v.Model = modelFor(h, first.Model, o.Names, o.Fixed, 0)
		v.Native = "not replayed"
		return v, true
	}
	try := func(m map[string]string) bool {
		nm := 1
		hasReal := false
		for _, nv := range o.Names {
			if nv.T.S.K == KReal {
				hasReal = true
			}
		}
		if hasReal {
			nm = 5
		}
		for k := 0; k < nm; k++ {
			mm := modelFor(h, m, o.Names, o.Fixed, k)
			r := d.rep.run(h, mm, o.Kind == "race")
			if o.Kind == "race" && r.Err == nil {
				// the race detector decides
				if r.Race != "" {
					v.Model, v.Native = mm, r.Race
					return true
				}
				v.Native = "the race detector is silent"
				return false
			}
			if *fVerbose {
				fmt.Printf("    replay %s [%s] variant %d: fail=%q panic=%q assume=%v hang=%v err=%v\n", h.Name, o.Msg, k, r.Fail, r.Panic, r.Assume, r.Hang, r.Err)
			}
			if r.Err != nil {
				v.Native = r.Err.Error()
				return false
			}
			if r.Fail != "" || r.Panic != "" && !r.Assume || r.Hang {
				v.Model = mm
				v.Native = strings.TrimSpace("assertion failed: " + r.Fail)
				if r.Fail == "" {
					v.Native = "panic: " + r.Panic
				}
				if r.Hang {
					v.Native = "does not terminate"
				}
				if r.Fail != "" && r.Fail != o.Msg {
					v.Msg = r.Fail
				}
				return true
			}
			if r.Assume {
				v.Native = "the rounded model does not satisfy the assumptions"
			} else {
				v.Native = "the real code passes on the rounded model"
			}
		}
		return false
	}
	if o.Strong != nil {
		r := d.solve(h, mkQuery(c, o.Strong), tmo)
		if r.Res == RSat && try(r.Model) {
			return v, true
		}
	}
	if first.Res == RSat && try(first.Model) {
		return v, true
	}
	// inputs on a coarse binary grid are exact in floating point
	target := o.Bad
	if o.Strong != nil {
		target = o.Strong
	}
	for _, q := range []int64{1, 4, 64} {
		cons := []*Term{target}
		n := 0
		for _, nv := range o.Names {
			if nv.T.S.K == KReal && nv.T.Op == OVar {
				k := c.Var(fmt.Sprintf("grid%d!%s", q, nv.Name), SInt, nil, nil)
				cons = append(cons, c.NumCmp(OEq0, c.Scale(nv.T, new(big.Rat).SetInt64(q)), c.ToReal(k)))
				n++
			}
		}
		if n == 0 {
			break
		}
		qq := mkQuery(c, c.And(cons...))
		t := tmo / 2
		if t > 8*time.Second {
			t = 8 * time.Second
		}
		r := d.solve(h, qq, t)
		if r.Res == RSat && try(r.Model) {
			return v, true
		}
	}
	return v, false
}

func (d *Driver) witness(c *Ctx, ex *Exec, h *Harness, hr *HResult) {
	labels := map[string][]Reach{}
	var order []string
	for _, r := range ex.reaches {
		if r.Cond.IsFalse() {
			continue
		}
		if labels[r.Label] == nil {
			order = append(order, r.Label)
		}
		labels[r.Label] = append(labels[r.Label], r)
	}
	hr.labels = order
	if len(labels["end"]) == 0 && hr.exploreErr == "" {
		hr.vacuous = true
	}
	maxNative := 2
	if d.tier == "thorough" {
		maxNative = 6
	}
	for _, l := range order {
		rs := labels[l]
		// spread the tries over the paths
		got := false
		tries := 0
		step := len(rs)/4 + 1
		if d.tier == "thorough" {
			step = len(rs)/12 + 1
		}
		for i := 0; i < len(rs); i += step {
			if tries >= 4 && got {
				break
			}
			if tries >= 12 {
				break
			}
			tries++
			r := rs[i]
			cond := r.Cond
			var extra []*Term
			if l == "end" {
				var eqs []*Term
				for _, o := range r.Obs {
					v := c.Var(o.Name, o.T.S, nil, nil)
					if o.T.S.K == KF64 || o.T.S.K == KF32 || o.T.S.K == KBV || o.T.S.K == KBool {
						eqs = append(eqs, c.intern(&Term{Op: OEq, S: SBool, A: []*Term{v, o.T}}))
					} else {
						eqs = append(eqs, c.NumCmp(OEq0, v, o.T))
					}
					extra = append(extra, v)
				}
				cond = c.And(append([]*Term{cond}, eqs...)...)
			}
			qr := d.solve(h, mkQuery(c, cond, extra...), time.Duration(h.Opt.SolveT)*time.Second)
			if qr.Res == RUnsat {
				continue
			}
			if qr.Res != RSat {
				continue
			}
			got = true
			if l != "end" || h.Opt.NoNative {
				break
			}
			hr.witnesses++
			if hr.witnesses > maxNative {
				break
			}
			m := modelFor(h, qr.Model, r.Names, r.Fixed, 0)
			rr := d.rep.run(h, m, false)
			if len(hr.samples) < 3 {
				hr.samples = append(hr.samples, map[string]interface{}{"harness": h.Name, "inputs": m, "native": strings.Fields(strings.Replace(rr.Raw, "\n", " ; ", -1))})
			}
			if rr.Err != nil {
				hr.mismatch = append(hr.mismatch, rr.Err.Error())
				continue
			}
			if rr.Assume {
				continue // rounding of a real model
			}
			if rr.Fail != "" || rr.Panic != "" || rr.Hang {
				msg := fmt.Sprintf("native run of a witness: fail=%q panic=%q", rr.Fail, rr.Panic)
				// a failing native run with exact inputs contradicts the encoding only if the assertion was discharged
				found := false
				for _, v := range hr.viol {
					if v.Msg == rr.Fail || rr.Panic != "" && v.Kind != "assert" {
						found = true
					}
				}
				if !found {
					hr.mismatch = append(hr.mismatch, msg)
				}
				continue
			}
			ok := true
			for _, o := range r.Obs {
				nv, has := rr.Obs[o.Name]
				if !has {
					continue
				}
				if !obsAgree(qr.Model[o.Name], nv, o) {
					ok = false
					hr.mismatch = append(hr.mismatch, fmt.Sprintf("observation %s: encoding %s, real code %s", o.Name, qr.Model[o.Name], nv))
				}
			}
			if ok && rr.Reach["end"] {
				hr.validated++
			}
		}
		if !got {
			hr.unreached = append(hr.unreached, l)
		}
	}
	for _, l := range hr.unreached {
		if l == "end" && len(hr.viol) == 0 {
			hr.vacuous = true
		}
	}
}

func obsAgree(enc, nat string, o Obs) bool {
	if enc == "" {
		return true
	}
	switch o.T.S.K {
	case KReal:
		r, ok := parseVal(enc)
		if !ok {
			return true
		}
		u, _ := strconv.ParseUint(nat, 10, 64)
		f := math.Float64frombits(u)
		g, _ := r.Float64()
		return math.Abs(f-g) <= 1e-4*(1+math.Abs(f)+math.Abs(g))
	case KF64, KF32:
		u, ok := parseFP(enc)
		if !ok {
			return true
		}
		n, _ := strconv.ParseUint(nat, 10, 64)
		f := math.Float64frombits(n)
		g := math.Float64frombits(u)
		if o.T.S.K == KF32 {
			g = float64(math.Float32frombits(uint32(u)))
		}
		return f == g || f != f && g != g
	case KInt, KBV:
		r, ok := parseVal(enc)
		if !ok || !r.IsInt() {
			return true
		}
		i, _ := strconv.ParseInt(nat, 10, 64)
		if o.T.S.K == KBV {
			return uint64(i)&mask(o.T.S.W) == r.Num().Uint64()&mask(o.T.S.W)
		}
		return r.Num().IsInt64() && r.Num().Int64() == i
	}
	return true
}

// ---------- main

func readKnown(home, id string) []Known {
	b, err := ioutil.ReadFile(filepath.Join(home, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []Known
	sc := bufio.NewScanner(strings.NewReader(string(b)))
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "known: ") || !strings.Contains(l, "property="+id+" ") {
			continue
		}
		k := Known{}
		if i := strings.Index(l, "harness="); i >= 0 {
			k.Harness = strings.Fields(l[i+8:])[0]
		}
		if i := strings.Index(l, "assert=\""); i >= 0 {
			r := l[i+8:]
			if j := strings.IndexByte(r, '"'); j >= 0 {
				k.Assert = r[:j]
				k.Desc = strings.TrimSpace(r[j+1:])
			}
		}
		if k.Harness != "" && k.Assert != "" {
			out = append(out, k)
		}
	}
	return out
}

func main() {
	flag.Parse()
	if *fProf != "" {
		pf, _ := os.Create(*fProf)
		pprof.StartCPUProfile(pf)
		defer pprof.StopCPUProfile()
	}
	if flag.NArg() != 1 {
		fmt.Fprintln(os.Stderr, "usage: vxcheck [flags] PROPERTY")
		os.Exit(0)
	}
	rc := realMain(flag.Arg(0))
	pprof.StopCPUProfile()
	os.Exit(rc)
}

func realMain(id string) (code int) {
	start := time.Now()
	tier := *fTier
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier != "thorough" {
		tier = "quick"
	}
	if tier == "thorough" && *fMax == 780 {
		*fMax = 3000
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	runtime.GOMAXPROCS(8)
	work, err := ioutil.TempDir("", "vx_"+id+"_")
	if err != nil {
		fmt.Println("REDUCED: no scratch directory:", err)
		return 0
	}
	defer os.RemoveAll(work)
	d := &Driver{id: id, tier: tier, seed: seed, sem: make(chan struct{}, 8), known: readKnown(*fHome, id), deadline: start.Add(time.Duration(*fMax) * time.Second)}
	var results []*HResult
	var problems []string
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("VX_DEBUG") != "" {
				panic(r)
			}
			fmt.Printf("REDUCED property=%s: internal error: %v\n", id, r)
			problems = append(problems, fmt.Sprint("internal error: ", r))
		}
		d.writeEvidence(results, problems, start)
	}()
	files, err := loadHarnesses(filepath.Join(*fHome, "harness", id), tier)
	if err != nil || len(files) == 0 {
		problems = append(problems, fmt.Sprint("no harness: ", err))
		fmt.Printf("REDUCED property=%s: no harness (%v)\n", id, err)
		return 0
	}
	ge, err := setupGo(*fRepo, *fHome, work)
	if err != nil {
		problems = append(problems, err.Error())
		fmt.Printf("REDUCED property=%s: %v\n", id, err)
		return 0
	}
	vxsrc, err := ioutil.ReadFile(filepath.Join(*fHome, "harness", "vx", "vx.go"))
	if err != nil {
		problems = append(problems, err.Error())
		return 0
	}
	var eng *Engine
	for {
		ov := map[string][]byte{filepath.Join(*fRepo, "zzvx", "vx.go"): vxsrc}
		pats := map[string]bool{"errors": true, "io": true}
		for _, f := range files {
			ov[f.target(*fRepo, id)] = f.src
			if f.dir == "." {
				pats["."] = true
			} else {
				pats["./"+f.dir] = true
			}
		}
		if len(files) == 0 {
			break
		}
		eng, err = LoadEngine(*fRepo, ov, ge.env, sortedKeys(pats))
		if err == nil {
			break
		}
		// drop the harness files that no longer fit the code
		var keep []*HFile
		dropped := false
		for _, f := range files {
			if strings.Contains(err.Error(), filepath.Base(f.target(*fRepo, id))) {
				dropped = true
				problems = append(problems, fmt.Sprintf("harness %s does not compile against this tree: %s", filepath.Base(f.path), firstLines(err.Error(), 3)))
				fmt.Printf("REDUCED property=%s: %s\n", id, problems[len(problems)-1])
				continue
			}
			keep = append(keep, f)
		}
		files = keep
		if !dropped {
			problems = append(problems, "the repository does not load: "+firstLines(err.Error(), 3))
			fmt.Printf("REDUCED property=%s: %s\n", id, problems[len(problems)-1])
			return 0
		}
	}
	if eng == nil {
		return 0
	}
	if *fVerbose {
		fmt.Printf("loaded in %.1fs\n", time.Since(start).Seconds())
	}
	d.rep = &Replayer{ge: ge, repo: *fRepo, home: *fHome, id: id, files: files, bins: map[string]*binRec{}, timeout: 30 * time.Second}
	var hs []*Harness
	dirs := map[string]bool{}
	for _, f := range files {
		for _, h := range f.hs {
			if h.Skip || *fOnly != "" && !strings.Contains(h.Name, *fOnly) {
				continue
			}
			hs = append(hs, h)
			dirs[h.Dir] = true
		}
	}
	for dir := range dirs {
		go d.rep.bin(dir, false)
	}
	results = make([]*HResult, len(hs))
	var wg sync.WaitGroup
	lim := make(chan struct{}, 6)
	for i := range hs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			lim <- struct{}{}
			defer func() { <-lim }()
			defer func() {
				if r := recover(); r != nil {
					if os.Getenv("VX_DEBUG") != "" {
						panic(r)
					}
					results[i] = &HResult{h: hs[i], exploreErr: fmt.Sprint("engine: ", r)}
				}
			}()
			results[i] = d.runHarness(eng, hs[i])
		}(i)
	}
	wg.Wait()
	for _, hr := range results {
		st := "ok"
		if hr.exploreErr != "" {
			st = "REDUCED (exploration incomplete: " + hr.exploreErr + ")"
		} else if len(hr.undecided) > 0 {
			st = fmt.Sprintf("REDUCED (%d obligations undecided)", len(hr.undecided))
		} else if len(hr.unrepro) > 0 {
			st = fmt.Sprintf("REDUCED (%d counterexamples did not reproduce)", len(hr.unrepro))
		} else if hr.vacuous {
			st = "REDUCED (vacuous: the end is never reached)"
		}
		if len(hr.viol) > 0 {
			st = "VIOLATED"
		}
		fmt.Printf("%-40s paths=%d asserts=%d obligations=%d discharged=%d witnesses=%d/%d explore=%.1fs solve=%.1fs %s\n", hr.h.Name, hr.paths, hr.asserts, hr.obls, hr.discharged, hr.validated, hr.witnesses, hr.exploreT.Seconds(), hr.solveT.Seconds(), st)
		for _, u := range hr.undecided {
			fmt.Println("    undecided:", u)
		}
		for _, u := range hr.unrepro {
			fmt.Println("    not reproduced:", u)
		}
		for _, u := range hr.mismatch {
			fmt.Println("    mismatch:", u)
		}
		for _, u := range hr.unreached {
			fmt.Println("    never reached:", u)
		}
		if *fVerbose {
			for _, u := range hr.notes {
				fmt.Println("    note:", u)
			}
			for _, u := range hr.assumed {
				fmt.Println("    assumed:", u)
			}
		}
		for i := range hr.viol {
			v := &hr.viol[i]
			for _, k := range d.known {
				if k.Harness == v.Harness && k.Assert == v.Msg {
					v.Known = k.Desc
					if v.Known == "" {
						v.Known = k.Assert
					}
				}
			}
			if v.Known != "" {
				fmt.Printf("KNOWN-FINDING: property=%s %s [%s: %s]\n", id, v.Known, v.Harness, v.Msg)
				continue
			}
			code = 1
			rp := filepath.Join(*fHome, "replays", id)
			os.MkdirAll(rp, 0755)
			fn := filepath.Join(rp, fmt.Sprintf("%s-%d.json", v.Harness, i))
			b, _ := json.MarshalIndent(map[string]interface{}{"property": id, "harness": v.Harness, "package": hr.h.Dir, "assertion": v.Msg, "at": v.Pos, "kind": v.Kind, "inputs": v.Model, "real_code": v.Native}, "", " ")
			ioutil.WriteFile(fn, b, 0644)
			fmt.Printf("    %s at %s: %s\n    inputs: %s\n", v.Msg, v.Pos, v.Native, modelText(v.Model))
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, fn)
		}
	}
	return code
}

func modelText(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var p []string
	for _, k := range ks {
		p = append(p, k+"="+m[k])
	}
	return strings.Join(p, " ")
}

func (d *Driver) writeEvidence(rs []*HResult, problems []string, start time.Time) {
	states, trans, val := int64(0), int64(0), 0
	var samples []interface{}
	funcs := map[string]bool{}
	assumed := map[string]bool{}
	var hs []interface{}
	viol := 0
	obls, dis := 0, 0
	reduced := append([]string{}, problems...)
	feas := 0
	var steps [4]int
	var certT time.Duration
	for _, r := range rs {
		if r == nil {
			continue
		}
		states += r.blocks
		trans += r.instrs
		val += r.validated
		samples = append(samples, r.samples...)
		for _, f := range r.funcs {
			funcs[strings.Replace(f, modPath+"/", "", -1)] = true
		}
		for _, a := range r.assumed {
			assumed[a] = true
		}
		for _, v := range r.viol {
			if v.Known == "" {
				viol++
			}
		}
		obls += r.obls
		dis += r.discharged
		feas += r.feas
		steps[0] += r.cert.seen
		steps[1] += r.cert.taken
		steps[2] += r.cert.proved
		steps[3] += r.cert.open
		certT += r.cert.wall
		for _, u := range r.undecided {
			reduced = append(reduced, r.h.Name+": undecided: "+u)
		}
		for _, u := range r.unrepro {
			reduced = append(reduced, r.h.Name+": unreproduced: "+u)
		}
		for _, u := range r.mismatch {
			reduced = append(reduced, r.h.Name+": "+u)
		}
		if r.exploreErr != "" {
			reduced = append(reduced, r.h.Name+": exploration incomplete: "+r.exploreErr)
		}
		if r.vacuous {
			reduced = append(reduced, r.h.Name+": vacuous")
		}
		if r.h != nil {
			mode := "real"
			if r.h.Opt.FP {
				mode = "ieee754"
			}
			hs = append(hs, map[string]interface{}{"harness": r.h.Name, "what": strings.TrimSpace(r.h.Doc), "floats": mode, "unwind_limit": r.h.Opt.Unwind, "paths": r.paths, "blocks": r.blocks, "instructions": r.instrs,
				"merges": r.merges, "assertions": r.asserts, "assertions_closed_by_simplification": r.trivial, "obligations": r.obls, "discharged": r.discharged, "witnesses_run_natively": r.witnesses, "witnesses_agreeing": r.validated,
				"normaliser_steps": r.cert.seen, "normaliser_steps_checked": r.cert.taken, "normaliser_steps_proved": r.cert.proved, "normaliser_steps_undecided": r.cert.open,
				"reach_labels": r.labels, "unreached": r.unreached, "explore_s": round1(r.exploreT), "solve_s": round1(r.solveT), "notes": r.notes})
		}
	}
	if len(samples) > 8 {
		samples = samples[:8]
	}
	if samples == nil {
		samples = []interface{}{}
	}
	var as []string
	as = append(as, sortedKeys(assumed)...)
	as = append(as, "harnesses with floats=real treat Go floating-point arithmetic as exact real arithmetic (rounding, overflow and NaN are outside the claim)",
		"files are an in-memory model in which a read of a regular file returns all remaining requested bytes",
		"goroutines run to completion in every order at each blocking point; finer interleavings are covered by the read/write-set conflict check only")
	d.stats.mu.Lock()
	ev := map[string]interface{}{
		"property": d.id, "tier": d.tier, "seed": d.seed, "level": "model_checking", "wall_s": time.Since(start).Seconds(), "violations": viol,
		"assumptions": as,
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": val, "samples": samples,
			"rule":             "states = SSA basic blocks executed symbolically, transitions = SSA instructions; every assertion is decided for all inputs within the harness bounds: first by exact canonical forms (assertions closed by simplification; the solver proves a share of the steps that lead there), the remaining obligations by an SMT solver",
			"normaliser_steps": map[string]int{"seen": steps[0], "checked_by_solver": steps[1], "proved": steps[2], "undecided": steps[3]}, "normaliser_solver_s": round1(certT),
			"functions_encoded": sortedKeys(funcs), "harnesses": hs, "obligations": obls, "discharged": dis,
			"solver_queries": d.stats.queries, "feasibility_queries": feas, "solver_s": d.stats.wall.Seconds(), "answers_by_solver": d.stats.bySolver, "unknown": d.stats.unknown, "reduced": reduced,
		},
	}
	d.stats.mu.Unlock()
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println("evidence:", err)
		return
	}
	os.MkdirAll(filepath.Join(*fHome, "evidence"), 0755)
	if err := ioutil.WriteFile(filepath.Join(*fHome, "evidence", d.id+".json"), b, 0644); err != nil {
		fmt.Println("evidence:", err)
	}
}

func round1(d time.Duration) float64 { return math.Round(d.Seconds()*10) / 10 }
