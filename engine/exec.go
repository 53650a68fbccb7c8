package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func sortSlice(ks []ckey, less func(a, b ckey) bool) {
	sort.Slice(ks, func(i, j int) bool { return less(ks[i], ks[j]) })
}

// Obligation is a condition that must hold whenever its path condition holds.
type Obligation struct {
	Bad    *Term // pc && !cond
	Strong *Term // a stronger form of Bad (margin), optional
	Msg    string
	Pos    string
	Kind   string // assert, panic, race, div
	Path   int
	Fixed  map[string]string // values of concretised choices on this path
	Names  []NVar
}

type Reach struct {
	Label string
	Cond  *Term
	Path  int
	Fixed map[string]string
	Obs   []Obs
	Names []NVar
}

// NVar is a nondeterministic input of the harness.
type NVar struct {
	Name string
	T    *Term
	Kind string // int, bv, f64, f32, f64bits, f32bits, bool
	W    int
}

type Obs struct {
	Name string
	T    *Term
	W    int
}

type Opts struct {
	FP          bool
	Split       bool
	ForkIdx     bool // split mode: fork on the values of symbolic indexes
	Prune       bool
	Expand      bool
	Unwind      int
	Div         string // check | assume
	MaxPath     int
	Sched       string
	MaxOps      int64
	FeasMs      int
	IntBV       bool
	NumCPU      int
	Clock       bool // the clock shows a fixed time
	Over        map[string]string
	NoInit      bool
	SolveT      int // seconds
	Timeout     int // exploration seconds
	Solvers     []string
	Tier        string
	NoWit       bool
	LogPanicOK  bool
	AssumeExits bool
	NoNative    bool
	Race        bool
}

type FnInfo struct {
	idx       map[ssa.Value]int
	n         int
	prio      []int // block index -> priority
	comp      []int // innermost loop component head (block index) or -1
	compChain [][]int
}

type Frame struct {
	fn    *ssa.Function
	info  *FnInfo
	obj   *Object
	done  bool
	args  []Value
	bind  []Value
	regs  []Value // fast registers (only when no fork happened in this frame)
	depth int
	unw   map[int]int
}

type catchRec struct {
	exits []exitRec
}
type exitRec struct {
	st  *State
	msg string
}

type goro struct {
	id   int
	fn   Value
	args []Value
	call *ssa.CallCommon
	vc   vclock
	last int // its clock at its last access
}

type Exec struct {
	c    *Ctx
	eng  *Engine
	opt  Opts
	fp   bool
	st   *State
	nobj int
	seq  int

	globals map[*ssa.Global]*Object
	infos   map[*ssa.Function]*FnInfo
	seeds   map[string]*seedState
	fs      map[string]*Object
	stack   []*Frame

	partial    string // why this path does not cover every value
	pending    int    // states waiting in some worklist
	catchDepth int
	catches    []*catchRec

	script []int
	opts   []int
	spos   int

	obls     []Obligation
	reaches  []Reach
	obs      []Obs
	assumed  map[string]bool
	path     int
	fixed    map[string]string
	names    map[string]int
	nondets  map[string]*Term
	funcs    map[string]bool
	nins     int64
	nblk     int64
	nfork    int64
	nmerge   int64
	notes    map[string]int
	inc      *Inc
	deadline time.Time

	gor         []*goro
	ngor        int
	curg        *goro
	race        raceState
	unwindFail  string
	concrete    map[string]string
	nextPos     token.Pos
	floatAssume bool
	inPkg       map[*ssa.Package]bool
	strong      map[int]*Term
	inited      map[string]bool
	inInit      bool
	vorder      []NVar
	nassert     int
	ntriv       int
}

func (ex *Exec) solo() bool { return ex.pending == 0 }

func (ex *Exec) note(s string) { ex.notes[s]++ }

func (ex *Exec) newObj(name string, et types.Type, n int, arr bool) *Object {
	ex.nobj++
	o := &Object{id: ex.nobj, name: name, arr: arr, n: n, et: et}
	if et != nil {
		o.zero = ex.zero(et)
	}
	ex.st.set(ckey{o, -1}, o)
	return o
}

// alloc creates memory for a value of type t and returns a pointer to it.
func (ex *Exec) alloc(name string, t types.Type) *Ptr {
	if a, ok := under(t).(*types.Array); ok {
		o := ex.newObj(name, a.Elem(), int(a.Len()), true)
		return &Ptr{O: o}
	}
	return &Ptr{O: ex.newObj(name, t, 1, false)}
}

func (ex *Exec) allocVal(name string, t types.Type, v Value) *Ptr {
	p := ex.alloc(name, t)
	ex.store(p, v)
	return p
}

func (ex *Exec) cell(o *Object, i int) Value {
	if v, ok := ex.st.get(ckey{o, i}); ok {
		if p, ok := v.(*poison); ok && !ex.inInit {
			panic(unsup("global %s of a package whose initialiser is not executed", p.name))
		}
		return v
	}
	return o.zero
}

// candidates enumerates possible concrete values of an index term in [0,n).
func (ex *Exec) candidates(idx *Term, n int) []leaf {
	c := ex.c
	if k, ok := conc(idx); ok {
		if k < 0 || k >= n {
			return nil
		}
		return []leaf{{c.True, c.BVc(64, uint64(k))}}
	}
	if ls := c.leaves(idx, 4096); ls != nil {
		var out []leaf
		for _, l := range ls {
			k, _ := conc(l.t)
			if k >= 0 && k < n {
				out = append(out, leaf{l.g, c.BVc(64, uint64(k))})
			}
		}
		return out
	}
	lo, hi := 0, n-1
	if idx.S.K == KInt {
		l, h := c.bounds(idx)
		if l != nil && l.Num().IsInt64() && int(l.Num().Int64()) > lo {
			lo = int(l.Num().Int64())
		}
		if h != nil && h.Num().IsInt64() && int(h.Num().Int64()) < hi {
			hi = int(h.Num().Int64())
		}
	} else {
		l, h := ubounds(idx)
		if l < uint64(n) && int(l) > lo {
			lo = int(l)
		}
		if h < uint64(n) && int(h) < hi {
			hi = int(h)
		}
	}
	if hi-lo > 20000 {
		panic(unsup("symbolic index over %d cells", hi-lo+1))
	}
	var out []leaf
	for k := lo; k <= hi; k++ {
		var kt *Term
		if idx.S.K == KInt {
			kt = c.IntC(int64(k))
		} else {
			kt = c.BVc(idx.S.W, uint64(k))
		}
		g := c.Eq(idx, kt)
		if g.IsFalse() {
			continue
		}
		out = append(out, leaf{g, c.BVc(64, uint64(k))})
	}
	return out
}

func (ex *Exec) iteChain(ls []leaf, f func(k int) Value) Value {
	if len(ls) == 0 {
		return nil
	}
	last := len(ls) - 1
	k, _ := conc(ls[last].t)
	v := f(k)
	for i := last - 1; i >= 0; i-- {
		k, _ := conc(ls[i].t)
		v = ex.mergeVal(ls[i].g, f(k), v)
	}
	return v
}

func (ex *Exec) getPath(v Value, path []PathEl) Value {
	for len(path) > 0 {
		switch x := v.(type) {
		case *StructV:
			v = x.F[path[0].F]
		case *ArrV:
			rest := path[1:]
			ls := ex.candidates(path[0].Idx, len(x.E))
			return ex.iteChain(ls, func(k int) Value { return ex.getPath(x.E[k], rest) })
		case *Union:
			// distribute
			var r Value
			for i := len(x.A) - 1; i >= 0; i-- {
				w := ex.getPath(x.A[i].v, path)
				if r == nil {
					r = w
				} else {
					r = ex.mergeVal(x.A[i].g, w, r)
				}
			}
			return r
		default:
			panic(unsup("path into %T", v))
		}
		path = path[1:]
	}
	return v
}

func (ex *Exec) setPath(v Value, path []PathEl, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	switch x := v.(type) {
	case *StructV:
		f := append([]Value{}, x.F...)
		f[path[0].F] = ex.setPath(f[path[0].F], path[1:], nv)
		return &StructV{f}
	case *ArrV:
		e := append([]Value{}, x.E...)
		ls := ex.candidates(path[0].Idx, len(e))
		for _, l := range ls {
			k, _ := conc(l.t)
			w := ex.setPath(e[k], path[1:], nv)
			if len(ls) > 1 {
				w = ex.mergeVal(l.g, w, e[k])
			}
			e[k] = w
		}
		return &ArrV{e}
	}
	panic(unsup("store path into %T", v))
}

func (ex *Exec) load(p *Ptr) Value {
	if p.O == nil {
		panic("load of nil pointer")
	}
	if p.Cast != nil {
		return ex.loadCast(p)
	}
	if p.O.arr {
		if p.I == nil {
			e := make([]Value, p.O.n)
			for i := range e {
				e[i] = ex.cell(p.O, i)
			}
			if ex.tracking() {
				ex.track(p, nil, false)
			}
			return ex.getPath(&ArrV{e}, p.Path)
		}
		ls := ex.candidates(p.I, p.O.n)
		if len(ls) == 0 {
			// only possible on an infeasible path
			ex.st.dead = true
			return ex.getPath(p.O.zero, p.Path)
		}
		if ex.tracking() {
			ex.track(p, p.I, false)
		}
		return ex.iteChain(ls, func(k int) Value {
			return ex.getPath(ex.cell(p.O, k), p.Path)
		})
	}
	if ex.tracking() {
		ex.track(p, nil, false)
	}
	return ex.getPath(ex.cell(p.O, 0), p.Path)
}

func (ex *Exec) store(p *Ptr, v Value) {
	if p.O == nil {
		panic("store to nil pointer")
	}
	if p.Cast != nil {
		ex.storeCast(p, v)
		return
	}
	if p.O.arr {
		if p.I == nil {
			if len(p.Path) != 0 {
				panic(unsup("store path"))
			}
			a, ok := v.(*ArrV)
			if !ok {
				panic(unsup("array store of %T", v))
			}
			for i, x := range a.E {
				ex.st.set(ckey{p.O, i}, x)
			}
			if ex.tracking() {
				ex.track(p, nil, true)
			}
			return
		}
		ls := ex.candidates(p.I, p.O.n)
		for _, l := range ls {
			k, _ := conc(l.t)
			old := ex.cell(p.O, k)
			nv := ex.setPath(old, p.Path, v)
			if len(ls) > 1 {
				nv = ex.mergeVal(l.g, nv, old)
			}
			ex.st.set(ckey{p.O, k}, nv)
		}
		if ex.tracking() {
			ex.track(p, p.I, true)
		}
		return
	}
	if ex.tracking() {
		ex.track(p, nil, true)
	}
	if len(p.Path) == 0 {
		ex.st.set(ckey{p.O, 0}, v)
		return
	}
	ex.st.set(ckey{p.O, 0}, ex.setPath(ex.cell(p.O, 0), p.Path, v))
}

// forkIdx fixes a symbolic index to one of its values on this path.
func (ex *Exec) forkIdx(idx *Term, n int) *Term {
	if !ex.opt.ForkIdx || !ex.opt.Split {
		return idx
	}
	if _, ok := conc(idx); ok {
		return idx
	}
	ls := ex.candidates(idx, n)
	if len(ls) > 64 {
		return idx
	}
	for i, l := range ls {
		if i == len(ls)-1 {
			ex.addPC(l.g)
			return l.t
		}
		if ex.decide(l.g) {
			return l.t
		}
	}
	return idx
}

func (ex *Exec) elemPtr(s *SliceV, i *Term) *Ptr {
	idx := ex.iadd(s.Off, i)
	if s.View != nil {
		return &Ptr{O: s.Base.O, I: s.Base.I, Path: append(append([]PathEl{}, s.Base.Path...), PathEl{F: -2, Idx: idx}), Cast: s.View, T: s.Orig}
	}
	if s.Base.O.arr && s.Base.I == nil && len(s.Base.Path) == 0 {
		return &Ptr{O: s.Base.O, I: idx}
	}
	return &Ptr{O: s.Base.O, I: s.Base.I, Path: append(append([]PathEl{}, s.Base.Path...), PathEl{F: -1, Idx: idx})}
}

// ---------- integer helpers on mixed representation (type int)

func (ex *Exec) iadd(a, b *Term) *Term { return ex.intBin(token.ADD, a, b, tinfo{'i', 64, true}) }
func (ex *Exec) isub(a, b *Term) *Term { return ex.intBin(token.SUB, a, b, tinfo{'i', 64, true}) }
func (ex *Exec) ilt(a, b *Term) *Term  { return ex.intCmp(token.LSS, a, b, tinfo{'i', 64, true}) }
func (ex *Exec) ile(a, b *Term) *Term  { return ex.intCmp(token.LEQ, a, b, tinfo{'i', 64, true}) }
func (ex *Exec) ic(i int) *Term        { return ex.c.BVc(64, uint64(int64(i))) }

// ---------- exceptional exits

func (ex *Exec) posStr(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := ex.eng.fset.Position(p)
	f := q.Filename
	f = strings.TrimPrefix(f, "/repo/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// raise records that the program panics/exits when cond holds; execution continues with !cond.
func (ex *Exec) raise(cond *Term, kind, msg string, pos token.Pos) {
	if cond.IsFalse() || ex.st.dead {
		return
	}
	if ex.opt.Split && !cond.IsTrue() {
		if !ex.decide(cond) {
			return
		}
		cond = ex.c.True
	}
	m := kind + ": " + msg
	if len(ex.catches) > 0 {
		top := ex.catches[len(ex.catches)-1]
		if cond.IsTrue() {
			top.exits = append(top.exits, exitRec{ex.st, m})
			// continue on a dead layer
			n := newState(ex.st)
			n.dead = true
			ex.st = n
			return
		}
		base := ex.st
		bad := newState(base)
		good := newState(base)
		ex.st = bad
		ex.addPC(cond)
		if !bad.dead {
			top.exits = append(top.exits, exitRec{bad, m})
		}
		ex.st = good
		ex.addPC(ex.c.Not(cond))
		return
	}
	bad := ex.c.And(ex.pcFull(ex.st), cond)
	if !bad.IsFalse() {
		if ex.opt.AssumeExits && kind == "exit" {
			ex.note("program exit assumed away: " + m)
		} else {
			ex.obls = append(ex.obls, Obligation{Bad: bad, Msg: m, Pos: ex.posStr(pos), Kind: "panic", Path: ex.path, Fixed: ex.fixedCopy(), Names: ex.varsCopy()})
		}
	}
	ex.addPC(ex.c.Not(cond))
}

func (ex *Exec) fixedCopy() map[string]string {
	m := map[string]string{}
	for k, v := range ex.fixed {
		m[k] = v
	}
	return m
}

// ---------- decisions (path splitting)

func (ex *Exec) pick(n int) int {
	if n <= 1 {
		return 0
	}
	if ex.spos < len(ex.script) {
		k := ex.script[ex.spos]
		ex.opts[ex.spos] = n
		ex.spos++
		return k
	}
	ex.script = append(ex.script, 0)
	ex.opts = append(ex.opts, n)
	ex.spos++
	return 0
}

// decide chooses a truth value for a symbolic condition (split mode) and constrains the path.
func (ex *Exec) decide(cond *Term) bool {
	if cond.IsConst() {
		return cond.IsTrue()
	}
	c := ex.c
	pc := ex.pcFull(ex.st)
	t := c.And(pc, cond)
	f := c.And(pc, c.Not(cond))
	if f.IsFalse() {
		ex.addPC(cond)
		return true
	}
	if t.IsFalse() {
		ex.addPC(c.Not(cond))
		return false
	}
	rt := ex.inc.Check(t)
	if rt == RUnsat {
		ex.addPC(c.Not(cond))
		return false
	}
	rf := ex.inc.Check(f)
	if rf == RUnsat {
		ex.addPC(cond)
		return true
	}
	ex.nfork++
	if ex.pick(2) == 0 {
		ex.addPC(cond)
		return true
	}
	ex.addPC(c.Not(cond))
	return false
}

// cond picks a or b by cond: splits in split mode, builds an ite otherwise.
func (ex *Exec) sel(cond *Term, a, b *Term) *Term {
	if cond.IsConst() {
		if cond.IsTrue() {
			return a
		}
		return b
	}
	if ex.opt.Split {
		if ex.decide(cond) {
			return a
		}
		return b
	}
	return ex.c.Ite(cond, a, b)
}

// fork runs f under each guard and merges the results.
func (ex *Exec) fork(guards []*Term, f func(i int) Value) Value {
	if ex.opt.Split {
		for i, g := range guards {
			if i == len(guards)-1 || ex.decide(g) {
				return f(i)
			}
		}
	}
	base := ex.st
	var ms *State
	var mv Value
	keepDead := base
	ex.pending++
	defer func() { ex.pending-- }()
	for i, g := range guards {
		st := newState(base)
		ex.st = st
		ex.addPC(g)
		if st.dead {
			continue
		}
		if len(guards) > 1 && ex.opt.Prune && ex.inc.Check(ex.pcFull(st)) == RUnsat {
			continue
		}
		ex.pending++
		ex.nfork++
		v := f(i)
		ex.pending--
		if ex.st.dead {
			continue
		}
		if v == nil {
			v = &Tuple{}
		}
		if ms == nil {
			ms, mv = ex.st, v
		} else {
			ms, mv = ex.merge(ms, mv, ex.st, v, nil)
		}
	}
	if ms == nil {
		ms = newState(keepDead)
		ms.dead = true
		ex.st = ms
		return nil
	}
	ex.st = ms
	return mv
}

// each resolves a possibly-union value and applies f to each alternative.
func (ex *Exec) each(v Value, f func(v Value) Value) Value {
	u, ok := v.(*Union)
	if !ok {
		return f(v)
	}
	pc := ex.pcFull(ex.st)
	var as []Alt
	for _, a := range u.A {
		t := ex.c.And(pc, a.g)
		if t.IsFalse() || ex.inc.Check(t) == RUnsat {
			continue
		}
		as = append(as, a)
	}
	if len(as) == 0 {
		ex.st.dead = true
		return nil
	}
	if len(as) == 1 {
		return f(as[0].v)
	}
	gs := make([]*Term, len(as))
	for i, a := range as {
		gs[i] = a.g
	}
	return ex.fork(gs, func(i int) Value { return f(as[i].v) })
}

// withInt resolves an integer term to concrete values, forking over its possible leaves.
func (ex *Exec) withInt(t *Term, f func(k int) Value) Value {
	if k, ok := conc(t); ok {
		return f(k)
	}
	ls := ex.c.leaves(t, 256)
	if ls == nil {
		// enumerate a small bounded range
		var lo, hi *big.Rat
		if t.S.K == KInt {
			lo, hi = ex.c.bounds(t)
		} else {
			l, h := ubounds(t)
			if h < 1<<20 {
				lo, hi = new(big.Rat).SetInt64(int64(l)), new(big.Rat).SetInt64(int64(h))
			}
		}
		most := int64(40)
		if t.S.K != KInt {
			most = 300
		}
		if lo == nil || hi == nil || new(big.Rat).Sub(hi, lo).Cmp(big.NewRat(most, 1)) > 0 {
			// enumerate the values that the path condition allows
			most := 300
			if t.S.K != KInt {
				most = 4
			}
			mk := func(k *big.Int) *Term {
				if t.S.K == KInt {
					return ex.c.IntC(k.Int64())
				}
				return ex.c.BVc(t.S.W, k.Uint64())
			}
			q := ex.pcFull(ex.st)
			for n := 0; ; n++ {
				r, k := ex.inc.Value(q, t)
				if r == RUnsat {
					break
				}
				if r != RSat || t.S.K == KInt && !k.IsInt64() || n == most {
					// Too many values: look at some of them and say so.
					if len(ls) == 0 {
						panic(unsup("symbolic size without small bounds at %s", ex.posStr(ex.nextPos)))
					}
					if len(ls) > 4 {
						ls = ls[:4]
					}
					if ex.partial == "" {
						ex.partial = fmt.Sprintf("only some values of a symbolic size tried at %s", ex.posStr(ex.nextPos))
					}
					break
				}
				kt := mk(k)
				g := ex.c.Eq(t, kt)
				ls = append(ls, leaf{g, kt})
				q = ex.c.And(q, ex.c.Not(g))
			}
			lo, hi = ratOne, ratZero
		}
		for k := lo.Num().Int64(); k <= hi.Num().Int64(); k++ {
			var kt *Term
			if t.S.K == KInt {
				kt = ex.c.IntC(k)
			} else {
				kt = ex.c.BVc(t.S.W, uint64(k))
			}
			g := ex.c.Eq(t, kt)
			if !g.IsFalse() {
				ls = append(ls, leaf{g, kt})
			}
		}
	}
	pc := ex.pcFull(ex.st)
	var as []leaf
	for _, l := range ls {
		q := ex.c.And(pc, l.g)
		if q.IsFalse() || ex.inc.Check(q) == RUnsat {
			continue
		}
		as = append(as, l)
	}
	if len(as) == 0 {
		ex.st.dead = true
		return nil
	}
	if len(as) == 1 {
		k, _ := conc(as[0].t)
		return f(k)
	}
	gs := make([]*Term, len(as))
	for i, a := range as {
		gs[i] = a.g
	}
	return ex.fork(gs, func(i int) Value {
		k, _ := conc(as[i].t)
		return f(k)
	})
}

// ---------- functions

func (ex *Exec) info(fn *ssa.Function) *FnInfo {
	if i, ok := ex.infos[fn]; ok {
		return i
	}
	fi := &FnInfo{idx: map[ssa.Value]int{}}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				fi.idx[v] = fi.n
				fi.n++
			}
		}
	}
	fi.prio, fi.compChain = wto(fn)
	ex.infos[fn] = fi
	return fi
}

// wto computes a weak topological order; returns priority per block and the chain of
// enclosing loop heads per block (outermost first, a head is in its own component).
func wto(fn *ssa.Function) ([]int, [][]int) {
	n := len(fn.Blocks)
	dfn := make([]int, n)
	const inf = 1 << 30
	num := 0
	var stack []int
	type el struct {
		head int
		sub  []interface{}
	}
	var visit func(v int, part *[]interface{}) int
	var component func(v int) *el
	component = func(v int) *el {
		var part []interface{}
		for _, s := range fn.Blocks[v].Succs {
			if dfn[s.Index] == 0 {
				visit(s.Index, &part)
			}
		}
		return &el{v, part}
	}
	visit = func(v int, part *[]interface{}) int {
		stack = append(stack, v)
		num++
		dfn[v] = num
		head := dfn[v]
		loop := false
		for _, s := range fn.Blocks[v].Succs {
			var m int
			if dfn[s.Index] == 0 {
				m = visit(s.Index, part)
			} else {
				m = dfn[s.Index]
			}
			if m <= head {
				head = m
				loop = true
			}
		}
		if head == dfn[v] {
			dfn[v] = inf
			e := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if loop {
				for e != v {
					dfn[e] = 0
					e = stack[len(stack)-1]
					stack = stack[:len(stack)-1]
				}
				*part = append([]interface{}{component(v)}, *part...)
			} else {
				*part = append([]interface{}{v}, *part...)
			}
		}
		return head
	}
	var part []interface{}
	if n > 0 {
		visit(0, &part)
		if fn.Recover != nil && dfn[fn.Recover.Index] == 0 {
			visit(fn.Recover.Index, &part)
		}
	}
	prio := make([]int, n)
	chains := make([][]int, n)
	k := 0
	var walk func(p []interface{}, chain []int)
	walk = func(p []interface{}, chain []int) {
		for _, x := range p {
			switch y := x.(type) {
			case int:
				prio[y] = k
				k++
				chains[y] = chain
			case *el:
				ch := append(append([]int{}, chain...), y.head)
				chains[y.head] = ch
				walk(y.sub, ch)
				// states that finished an iteration wait at the head for the others
				prio[y.head] = k
				k++
			}
		}
	}
	walk(part, nil)
	return prio, chains
}

func (ex *Exec) call(fn *ssa.Function, args []Value, bind []Value, pos token.Pos) Value {
	if v, ok := ex.intrinsic(fn, args, pos); ok {
		return v
	}
	// Harnesses run in parallel: wait for a package that is being built.
	ex.eng.build(fn)
	if fn.Blocks == nil {
		panic(unsup("no body for %s", fn.String()))
	}
	if len(ex.stack) > 300 {
		panic(unsup("call depth over 300 at %s", fn.String()))
	}
	if fn.Pkg != nil && ex.eng.isRepo(fn.Pkg.Pkg.Path()) && !strings.Contains(ex.eng.fset.Position(fn.Pos()).Filename, "zz_verif") {
		ex.funcs[fn.String()] = true
	}
	var seeded func()
	if ex.opt.Clock && fn.Name() == "Init" && fn.Signature.Recv() != nil && strings.HasSuffix(fn.String(), "tauswortheGenerator).Init") {
		var done bool
		if done, seeded = ex.seedMemo(args); done {
			return &Tuple{}
		}
	}
	fr := &Frame{fn: fn, info: ex.info(fn), args: args, bind: bind, unw: map[int]int{}}
	ex.nobj++
	fr.obj = &Object{id: ex.nobj, name: "frame " + fn.Name(), fr: fr}
	ex.stack = append(ex.stack, fr)
	v := ex.runFrame(fr)
	ex.stack = ex.stack[:len(ex.stack)-1]
	fr.done = true
	if seeded != nil && !ex.st.dead {
		seeded()
	}
	if !ex.st.frozen {
		if len(ex.st.cells) > 4*fr.info.n || fr.info.n < 64 {
			for i := -3; i < fr.info.n; i++ {
				delete(ex.st.cells, ckey{fr.obj, i})
			}
		}
	}
	return v
}

// seedMemo remembers the state that seeding a generator with a fixed seed leads to: this takes hundreds of
// thousands of steps, on every path. done says that the state has been restored.
func (ex *Exec) seedMemo(args []Value) (done bool, after func()) {
	if len(args) != 2 {
		return false, nil
	}
	p, ok := args[0].(*Ptr)
	seed, ok2 := args[1].(*Term)
	if !ok || !ok2 || !seed.IsConst() || p.O == nil {
		return false, nil
	}
	key := fmt.Sprintf("seed%d", seed.U)
	if m, ok := ex.seeds[key]; ok {
		sv := &StructV{F: append([]Value{}, m.st.F...)}
		for i, f := range sv.F {
			if s, ok := f.(*SliceV); ok {
				o := ex.newObj("slice", s.Base.O.et, len(m.vals[i]), true)
				for j, v := range m.vals[i] {
					ex.st.set(ckey{o, j}, v)
				}
				c := *s
				c.Base = &Ptr{O: o}
				sv.F[i] = &c
			}
		}
		ex.store(p, sv)
		return true, nil
	}
	return false, func() {
		sv, ok := ex.load(p).(*StructV)
		if !ok {
			return
		}
		m := &seedState{st: sv, vals: map[int][]Value{}}
		for i, f := range sv.F {
			switch s := f.(type) {
			case *Term:
				if !s.IsConst() {
					return
				}
			case *SliceV:
				n, ok := conc(s.Len)
				off, ok2 := conc(s.Off)
				if !ok || !ok2 || off != 0 || s.Base == nil || s.View != nil || len(s.Base.Path) > 0 || !s.Base.O.arr {
					return
				}
				var vs []Value
				for j := 0; j < n; j++ {
					t, ok := ex.cell(s.Base.O, j).(*Term)
					if !ok || !t.IsConst() {
						return
					}
					vs = append(vs, t)
				}
				m.vals[i] = vs
			default:
				return
			}
		}
		ex.seeds[key] = m
	}
}

type seedState struct {
	st   *StructV
	vals map[int][]Value
}

type pendBlock struct {
	st *State
}

func (ex *Exec) runFrame(fr *Frame) Value {
	pend := map[int]*State{}
	var retSt *State
	var retV Value
	cur := fr.fn.Blocks[0]
	for {
		// execute cur with ex.st
		succs, ret, isRet := ex.runBlock(fr, cur)
		// succs: list of (state, block) live
		if isRet && !ex.st.dead {
			if ret == nil {
				ret = &Tuple{}
			}
			if retSt == nil {
				retSt, retV = ex.st, ret
				ex.pending++
			} else {
				ex.pending--
				retSt, retV = ex.merge(retSt, retV, ex.st, ret, func(k ckey) bool { return k.o.fr != fr || k.i < 0 })
				ex.pending++
			}
		}
		last := ex.st
		ex.pending += len(succs)
		for _, s := range succs {
			ex.pending--
			if s.st.dead {
				last = s.st
				continue
			}
			ex.st = s.st
			ex.phis(fr, cur, s.b)
			if o, ok := pend[s.b.Index]; ok {
				sb := s.b
				ex.pending--
				m, _ := ex.merge(o, nil, ex.st, nil, func(k ckey) bool { return ex.keepReg(fr, k, sb) })
				ex.pending++
				pend[s.b.Index] = m
			} else {
				pend[s.b.Index] = ex.st
				ex.pending++
			}
		}
		// next block: least priority
		best := -1
		for b := range pend {
			if best < 0 || fr.info.prio[b] < fr.info.prio[best] {
				best = b
			}
		}
		if best < 0 {
			if retSt == nil {
				ex.st = last
				if !ex.st.dead {
					n := newState(ex.st)
					n.dead = true
					ex.st = n
				}
				if ex.st.frozen {
					ex.st = newState(ex.st)
					ex.st.dead = true
				}
				return ex.zero(fr.fn.Signature.Results())
			}
			ex.pending--
			ex.st = retSt
			return retV
		}
		ex.st = pend[best]
		delete(pend, best)
		ex.pending--
		cur = fr.fn.Blocks[best]
	}
}

func (ex *Exec) keepReg(fr *Frame, k ckey, b *ssa.BasicBlock) bool {
	if k.o.fr != fr {
		return true
	}
	if k.i < 0 {
		return true
	}
	d := fr.info.blockOf(fr.fn, k.i)
	return d == nil || d.Dominates(b)
}

func (fi *FnInfo) blockOf(fn *ssa.Function, i int) *ssa.BasicBlock {
	if fi.comp == nil {
		fi.comp = make([]int, fi.n)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					fi.comp[fi.idx[v]] = b.Index
				}
			}
		}
	}
	return fn.Blocks[fi.comp[i]]
}

type succ struct {
	st *State
	b  *ssa.BasicBlock
}

func (ex *Exec) phis(fr *Frame, from, to *ssa.BasicBlock) {
	pi := -1
	var vals []Value
	var regs []int
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if pi < 0 {
			for i, pr := range to.Preds {
				if pr == from {
					pi = i
				}
			}
		}
		vals = append(vals, ex.val(fr, p.Edges[pi]))
		regs = append(regs, fr.info.idx[p])
	}
	for i, r := range regs {
		ex.st.set(ckey{fr.obj, r}, vals[i])
	}
}

func (ex *Exec) inLoopExit(fr *Frame, b *ssa.BasicBlock) bool {
	ch := fr.info.compChain[b.Index]
	if len(ch) == 0 {
		return false
	}
	h := ch[len(ch)-1]
	for _, s := range b.Succs {
		in := false
		for _, x := range fr.info.compChain[s.Index] {
			if x == h {
				in = true
			}
		}
		if !in {
			return true
		}
	}
	return false
}

func (ex *Exec) runBlock(fr *Frame, b *ssa.BasicBlock) ([]succ, Value, bool) {
	ex.nblk++
	if ex.nblk&1023 == 0 && time.Now().After(ex.deadline) {
		panic(unsup("exploration time limit"))
	}
	if ch := fr.info.compChain[b.Index]; len(ch) > 0 && ch[len(ch)-1] == b.Index {
		if ex.st.depth > 0 && len(ex.pcList()) > 0 {
			fr.unw[b.Index]++
			if fr.unw[b.Index] > ex.opt.Unwind {
				ex.unwindFail = fmt.Sprintf("loop at %s in %s unwound %d times", ex.posStr(firstPos(b)), fr.fn.Name(), ex.opt.Unwind)
				panic(unsup("unwinding limit: %s", ex.unwindFail))
			}
		}
	}
	for _, in := range b.Instrs {
		if ex.st.dead {
			return nil, nil, false
		}
		ex.nins++
		switch x := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			cv, ok := ex.val(fr, x.Cond).(*Term)
			if !ok {
				panic(unsup("condition %T", ex.val(fr, x.Cond)))
			}
			if cv.IsTrue() {
				return []succ{{ex.st, b.Succs[0]}}, nil, false
			}
			if cv.IsFalse() {
				return []succ{{ex.st, b.Succs[1]}}, nil, false
			}
			if ex.opt.Split {
				if ex.decide(cv) {
					return []succ{{ex.st, b.Succs[0]}}, nil, false
				}
				return []succ{{ex.st, b.Succs[1]}}, nil, false
			}
			pc := ex.pcFull(ex.st)
			ct, cf := ex.c.And(pc, cv), ex.c.And(pc, ex.c.Not(cv))
			if ct.IsFalse() {
				ex.addPC(ex.c.Not(cv))
				return []succ{{ex.st, b.Succs[1]}}, nil, false
			}
			if cf.IsFalse() {
				ex.addPC(cv)
				return []succ{{ex.st, b.Succs[0]}}, nil, false
			}
			if ex.opt.Prune || ex.inLoopExit(fr, b) {
				if ex.inc.Check(ct) == RUnsat {
					ex.addPC(ex.c.Not(cv))
					return []succ{{ex.st, b.Succs[1]}}, nil, false
				}
				if ex.inc.Check(cf) == RUnsat {
					ex.addPC(cv)
					return []succ{{ex.st, b.Succs[0]}}, nil, false
				}
			}
			ex.nfork++
			base := ex.st
			s1, s2 := newState(base), newState(base)
			ex.st = s1
			ex.addPC(cv)
			ex.st = s2
			ex.addPC(ex.c.Not(cv))
			ex.st = s1
			return []succ{{s1, b.Succs[0]}, {s2, b.Succs[1]}}, nil, false
		case *ssa.Jump:
			return []succ{{ex.st, b.Succs[0]}}, nil, false
		case *ssa.Return:
			switch len(x.Results) {
			case 0:
				return nil, nil, true
			case 1:
				return nil, ex.val(fr, x.Results[0]), true
			}
			t := &Tuple{}
			for _, r := range x.Results {
				t.E = append(t.E, ex.val(fr, r))
			}
			return nil, t, true
		case *ssa.Panic:
			ex.raise(ex.c.True, "panic", ex.describe(ex.val(fr, x.X)), x.Pos())
			return nil, nil, false
		default:
			ex.nextPos = in.Pos()
			ex.instr(fr, in)
		}
	}
	return nil, nil, false
}

func firstPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return token.NoPos
}

func (ex *Exec) pcList() []*Term {
	for s := ex.st; s != nil; s = s.parent {
		if len(s.pc) > 0 {
			return s.pc
		}
	}
	return nil
}

func (ex *Exec) describe(v Value) string {
	switch x := v.(type) {
	case *Iface:
		if x.T == nil {
			return "nil"
		}
		return ex.describe(x.V)
	case *Str:
		if x.Op || x.B != nil {
			return "<symbolic string>"
		}
		return x.S
	case *Term:
		if k, ok := conc(x); ok {
			return fmt.Sprint(k)
		}
		return "<symbolic>"
	case *Ptr:
		if x.O != nil {
			if s, ok := ex.cell(x.O, 0).(*StructV); ok && len(s.F) > 0 {
				if st, ok := s.F[0].(*Str); ok {
					return ex.describe(st)
				}
			}
		}
	}
	return fmt.Sprintf("%T", v)
}

// val evaluates an SSA operand.
func (ex *Exec) val(fr *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Parameter:
		for i, p := range fr.fn.Params {
			if p == x {
				return fr.args[i]
			}
		}
	case *ssa.FreeVar:
		for i, p := range fr.fn.FreeVars {
			if p == x {
				return fr.bind[i]
			}
		}
	case *ssa.Global:
		return ex.globalPtr(x)
	case *ssa.Function:
		return &Closure{Fn: x}
	case *ssa.Builtin:
		return &Closure{Bi: x}
	}
	i, ok := fr.info.idx[v]
	if !ok {
		panic(unsup("operand %T %s", v, v.Name()))
	}
	r, ok := ex.st.get(ckey{fr.obj, i})
	if !ok || r == nil {
		panic(unsup("undefined register %s in %s", v.Name(), fr.fn.String()))
	}
	return r
}

func (ex *Exec) setReg(fr *Frame, v ssa.Value, x Value) {
	if x == nil {
		if ex.st.dead {
			return
		}
		panic(unsup("nil value for %s in %s", v.String(), fr.fn.String()))
	}
	ex.st.set(ckey{fr.obj, fr.info.idx[v]}, x)
}

func (ex *Exec) globalPtr(g *ssa.Global) *Ptr {
	if o, ok := ex.globals[g]; ok {
		return &Ptr{O: o}
	}
	t := g.Type().(*types.Pointer).Elem()
	// allocate in the root state so that every state sees it
	root := ex.st
	for root.parent != nil {
		root = root.parent
	}
	var o *Object
	ex.nobj++
	if a, ok := under(t).(*types.Array); ok {
		o = &Object{id: ex.nobj, name: g.Name(), arr: true, n: int(a.Len()), et: a.Elem(), zero: ex.zero(a.Elem())}
	} else {
		o = &Object{id: ex.nobj, name: g.Name(), n: 1, et: t, zero: ex.zero(t)}
	}
	root.cells[ckey{o, -1}] = o
	ex.globals[g] = o
	if g.Pkg != nil {
		ex.eng.initGlobal(ex, g, o, root)
	}
	return &Ptr{O: o}
}
