package main

import (
	"errors"
	"fmt"
	"go/token"
	"go/types"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/phil-mansfield/gotetra"

// Engine holds the SSA form of the code under test.
type Engine struct {
	fset *token.FileSet
	prog *ssa.Program
	pkgs map[string]*ssa.Package
	tpk  map[string]*packages.Package
	repo string
}

func LoadEngine(repo string, overlay map[string][]byte, env []string, pats []string) (*Engine, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir:     repo,
		Fset:    fset,
		Env:     env,
		Overlay: overlay,
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("package errors: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	e := &Engine{fset: fset, prog: prog, pkgs: map[string]*ssa.Package{}, tpk: map[string]*packages.Package{}, repo: repo}
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
		if e.isRepo(p.Pkg.Path()) {
			p.Build()
		}
	}
	return e, nil
}

func (e *Engine) isRepo(p string) bool {
	return (p == modPath || strings.HasPrefix(p, modPath+"/")) && !strings.HasSuffix(p, "/zzvx")
}

func (e *Engine) build(fn *ssa.Function) {
	if fn.Pkg != nil {
		fn.Pkg.Build()
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		o.Pkg.Build()
	}
}

func (e *Engine) f32bits(f float64) uint64 { return uint64(math.Float32bits(float32(f))) }
func (e *Engine) f64bits(f float64) uint64 { return math.Float64bits(f) }
func f32frombits(u uint32) float32         { return math.Float32frombits(u) }
func f64frombits(u uint64) float64         { return math.Float64frombits(u) }

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	ms := e.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return e.prog.MethodValue(sel)
}

func (e *Engine) methodByName(t types.Type, name string) *ssa.Function {
	ms := e.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return e.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

var initWhite = map[string]bool{"io/fs": true, "internal/oserror": true, "io": true, "math": true, "math/bits": true, "encoding/binary": true,
	"strconv": true, "strings": true, "bytes": true, "sort": true, "unicode/utf8": true, "bufio": true, "path": true,
	"path/filepath": true, "flag": true, "slices": true, "cmp": true, "container/heap": true, "container/list": true, "internal/byteorder": true,
	"github.com/phil-mansfield/table": true}

var globalOK = map[string]bool{}

func (e *Engine) initGlobal(ex *Exec, g *ssa.Global, o *Object, root *State) {
	if strings.HasPrefix(g.Name(), "init$guard") {
		return
	}
	p := g.Pkg.Pkg.Path()
	if e.isRepo(p) || initWhite[p] || globalOK[p+"."+g.Name()] || p == modPath+"/zzvx" {
		return
	}
	switch p + "." + g.Name() {
	case "os.Stdout", "os.Stderr", "os.Stdin":
		f := &Object{id: ex.nextID(), name: g.Name(), n: 1}
		root.cells[ckey{f, -1}] = f
		root.cells[ckey{f, 0}] = &FileH{Name: "/dev/" + strings.ToLower(g.Name())}
		root.cells[ckey{o, 0}] = &Ptr{O: f}
		return
	case "os.Args":
		a := &Object{id: ex.nextID(), name: "os.Args", arr: true, n: 1, et: types.Typ[types.String], zero: &Str{}}
		root.cells[ckey{a, -1}] = a
		root.cells[ckey{a, 0}] = &Str{S: "program"}
		root.cells[ckey{o, 0}] = &SliceV{Base: &Ptr{O: a}, Off: ex.ic(0), Len: ex.ic(1), Cap: ex.ic(1)}
		return
	}
	if p == "internal/cpu" {
		return // no optional CPU features
	}
	if p == "os" && strings.HasPrefix(g.Name(), "Err") {
		return
	}
	if ex.inInit {
		// only a use outside of the initialisers matters
		root.cells[ckey{o, 0}] = &poison{p + "." + g.Name()}
		return
	}
	panic(unsup("global %s.%s of a package whose initialiser is not executed", p, g.Name()))
}

// poison is the value of a variable whose initialiser is not executed.
type poison struct{ name string }

func (ex *Exec) nextID() int { ex.nobj++; return ex.nobj }

// ---------- one harness

type Harness struct {
	Name string
	Pkg  string // import path
	Dir  string // directory relative to the repo
	File string
	Opt  Opts
	Doc  string
	Skip bool
}

func defaultOpts() Opts {
	return Opts{Unwind: 64, Div: "check", MaxPath: 4000, FeasMs: 2000, NumCPU: 2, SolveT: 20, Timeout: 120, Prune: true}
}

func (e *Engine) newExec(h *Harness, c *Ctx) *Exec {
	ex := &Exec{c: c, eng: e, opt: h.Opt, fp: h.Opt.FP,
		globals: map[*ssa.Global]*Object{}, seeds: map[string]*seedState{}, infos: map[*ssa.Function]*FnInfo{}, fs: map[string]*Object{},
		assumed: map[string]bool{}, funcs: map[string]bool{}, notes: map[string]int{},
		strong: map[int]*Term{}, inited: map[string]bool{}}
	ex.inc = NewInc(c, h.Opt.FeasMs)
	ex.deadline = time.Now().Add(time.Duration(h.Opt.Timeout) * time.Second)
	return ex
}

type ExploreResult struct {
	ex      *Exec
	paths   int
	err     string // "" when exploration was complete
	vacuous bool
}

// Explore executes the harness on every path (decision script).
func (e *Engine) Explore(h *Harness, c *Ctx) (res *ExploreResult) {
	ex := e.newExec(h, c)
	res = &ExploreResult{ex: ex}
	defer ex.inc.Close()
	pk := e.pkgs[h.Pkg]
	if pk == nil {
		res.err = "package " + h.Pkg + " not loaded"
		return
	}
	fn := pk.Func(h.Name)
	if fn == nil {
		res.err = "harness function " + h.Name + " not found"
		return
	}
	root := newState(nil)
	if err := protect(func() {
		ex.st = root
		ex.resetPath()
		ex.inInit = true
		if !h.Opt.NoInit {
			ex.runInit(pk)
		}
		ex.inInit = false
		if ex.st.dead {
			panic(unsup("package initialiser panics"))
		}
	}); err != nil {
		res.err = "package initialisers: " + err.Error()
		return
	}
	if len(ex.obls) > 0 {
		res.err = "package initialisers: " + ex.obls[0].Msg
		return
	}
	root = ex.st
	failed := 0
	ex.funcs = map[string]bool{}
	var script []int
	for {
		ex.path = res.paths
		ex.st = newState(root)
		ex.resetPath()
		ex.script = append([]int{}, script...)
		ex.opts = make([]int, len(script))
		ex.spos = 0
		err := protect(func() {
			ex.call(fn, nil, nil, fn.Pos())
			if !ex.st.dead {
				for len(ex.gor) > 0 && !ex.st.dead {
					ex.runOne()
				}
			}
			if !ex.st.dead {
				ex.reaches = append(ex.reaches, Reach{Label: "end", Cond: ex.pcFull(ex.st), Path: ex.path, Fixed: ex.fixedCopy(), Obs: ex.obs, Names: ex.varsCopy()})
			}
		})
		res.paths++
		if err == nil && ex.partial != "" {
			err = errors.New(ex.partial)
		}
		if err != nil {
			// The other paths can still be explored.
			if res.err == "" {
				res.err = err.Error()
			}
			failed++
			if failed > 500 {
				return
			}
		}
		// next script
		k := ex.spos
		if k > len(ex.script) {
			k = len(ex.script)
		}
		script = ex.script[:k]
		for len(script) > 0 && script[len(script)-1]+1 >= ex.opts[len(script)-1] {
			script = script[:len(script)-1]
		}
		if len(script) == 0 {
			return
		}
		script = append([]int{}, script...)
		script[len(script)-1]++
		if res.paths >= h.Opt.MaxPath {
			if res.err == "" {
				res.err = fmt.Sprintf("path limit %d", h.Opt.MaxPath)
			}
			return
		}
		if time.Now().After(ex.deadline) {
			if res.err == "" {
				res.err = "exploration time limit"
			}
			return
		}
	}
}

func (ex *Exec) resetPath() {
	ex.stack = nil
	ex.pending = 0
	ex.catchDepth = 0
	ex.partial = ""
	ex.catches = nil
	ex.names = map[string]int{}
	ex.nondets = map[string]*Term{}
	ex.fixed = map[string]string{}
	ex.obs = nil
	ex.gor = nil
	ex.curg = nil
	ex.race = raceState{acc: map[*Object]map[int][]access{}, sync: map[*Object]vclock{}}
	ex.fs = map[string]*Object{}
	ex.vorder = nil
}

func protect(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(*Unsup); ok {
				err = u
				return
			}
			if os.Getenv("VX_DEBUG") != "" {
				panic(r)
			}
			err = fmt.Errorf("engine: %v", r)
		}
	}()
	f()
	return nil
}

func (ex *Exec) runInit(pk *ssa.Package) {
	p := pk.Pkg.Path()
	if ex.inited[p] {
		return
	}
	ex.inited[p] = true
	if !(ex.eng.isRepo(p) || initWhite[p]) {
		return
	}
	pk.Build()
	fn := pk.Func("init")
	if fn == nil {
		return
	}
	ex.call(fn, nil, nil, token.NoPos)
}

func relDir(repo, f string) string {
	r, err := filepath.Rel(repo, filepath.Dir(f))
	if err != nil {
		return filepath.Dir(f)
	}
	return r
}

func sortedKeys(m map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}
