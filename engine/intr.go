package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (ex *Exec) varsCopy() []NVar { return ex.vorder[:len(ex.vorder):len(ex.vorder)] }

func strArg(v Value) string {
	s, ok := v.(*Str)
	if !ok || s.B != nil || s.Op {
		panic(unsup("symbolic string where a concrete one is needed"))
	}
	return s.S
}

func (ex *Exec) concInt(v Value) int {
	t, ok := v.(*Term)
	if !ok {
		panic(unsup("integer argument %T", v))
	}
	k, ok := conc(t)
	if !ok {
		panic(unsup("symbolic integer argument where a concrete one is needed"))
	}
	return k
}

func (ex *Exec) fresh(name string) string {
	n := ex.names[name]
	ex.names[name] = n + 1
	return fmt.Sprintf("%s#%d", name, n)
}

func (ex *Exec) nvar(name, kind string, s Sort, lo, hi *big.Rat) *Term {
	nm := ex.fresh(name)
	// the bounds are part of a variable's identity within the term context: other paths may have others
	t := ex.c.Var(nm, s, lo, hi)
	for i := 1; !sameBound(t.Lo, lo) || !sameBound(t.Hi, hi); i++ {
		t = ex.c.Var(fmt.Sprintf("%s@%d", nm, i), s, lo, hi)
	}
	ex.vorder = append(ex.vorder, NVar{nm, t, kind, s.W})
	return t
}

func sameBound(a, b *big.Rat) bool {
	return a == nil && b == nil || a != nil && b != nil && a.Cmp(b) == 0
}

func ratOfFloatTerm(t *Term) *big.Rat {
	if t.R != nil {
		return t.R
	}
	r := new(big.Rat)
	if r.SetFloat64(fval(t)) == nil {
		panic(unsup("infinite bound"))
	}
	return r
}

func (ex *Exec) floatOf(t *Term) (float64, bool) {
	if !t.IsConst() {
		return 0, false
	}
	if t.R != nil {
		return ratToFloat(t.R), true
	}
	return fval(t), true
}

func (ex *Exec) mkErr(msg string) *Iface {
	p := ex.eng.pkgs["errors"]
	if p == nil {
		panic(unsup("package errors is not loaded"))
	}
	v := ex.call(p.Func("New"), []Value{&Str{S: msg}}, nil, token.NoPos)
	return v.(*Iface)
}

func (ex *Exec) eof() Value {
	g := ex.eng.pkgs["io"].Var("EOF")
	return ex.load(ex.globalPtr(g))
}

func (ex *Exec) ioErr(name string) Value {
	return ex.load(ex.globalPtr(ex.eng.pkgs["io"].Var(name)))
}

func fnKey(fn *ssa.Function) string {
	s := fn.String()
	return s
}

func (ex *Exec) intrinsic(fn *ssa.Function, args []Value, pos token.Pos) (Value, bool) {
	if fn.Pkg == nil && fn.Signature.Recv() == nil {
		// closures, instances and wrappers have bodies
		if fn.Object() == nil || fn.Object().Pkg() == nil {
			return nil, false
		}
	}
	path := ""
	if fn.Pkg != nil {
		path = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		path = fn.Object().Pkg().Path()
	}
	if fn.Synthetic == "package initializer" {
		if !ex.inited[path] {
			ex.runInit(fn.Pkg)
			return &Tuple{}, true
		}
		if ex.eng.isRepo(path) || initWhite[path] {
			// body of this package's own initialiser
			return nil, false
		}
		return &Tuple{}, true
	}
	if ex.eng.isRepo(path) {
		if strings.HasPrefix(fn.Name(), "init#") || fn.Parent() != nil {
			return nil, false
		}
		return nil, false
	}
	if fn.Synthetic != "" && fn.Signature.Recv() == nil && fn.Parent() == nil && path != "math" {
		if strings.Contains(fn.Synthetic, "wrapper") || strings.Contains(fn.Synthetic, "thunk") || strings.Contains(fn.Synthetic, "bound") {
			return nil, false
		}
	}
	name := fn.Name()
	recv := ""
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			recv = n.Obj().Name()
		}
	}
	if v, ok := ex.pure(fn, args); ok {
		return v, true
	}
	switch path {
	case modPath + "/zzvx":
		return ex.vx(fn, name, args, pos), true
	case "math":
		return ex.mathFn(name, args, pos)
	case "fmt":
		return ex.fmtFn(fn, name, args, pos)
	case "log":
		return ex.logFn(fn, name, args, pos)
	case "os", "io/ioutil":
		return ex.osFn(fn, recv, name, args, pos)
	case "encoding/binary":
		if recv == "" {
			return ex.binFn(fn, name, args, pos)
		}
		return nil, false
	case "sync", "sync/atomic":
		return ex.syncFn(fn, recv, name, args, pos)
	case "runtime", "runtime/debug":
		switch name {
		case "NumCPU", "GOMAXPROCS":
			return ex.ic(ex.opt.NumCPU), true
		case "GC", "Gosched", "ReadMemStats", "KeepAlive", "FreeOSMemory":
			return ex.retZero(fn), true
		}
	case "time":
		if recv == "Duration" && name != "String" {
			return nil, false
		}
		switch name {
		case "Now":
			return ex.zero(fn.Signature.Results().At(0).Type()), true
		case "Since":
			return ex.c.BVc(64, 0), true
		case "UnixNano", "Unix", "UnixMicro":
			if ex.opt.Clock {
				return ex.c.BVc(64, 1234567891), true
			}
			ex.note("time: clock value is arbitrary")
			return ex.c.Fresh("clock", BV(64)), true
		}
		return ex.retOpaque(fn), true
	case "gopkg.in/gcfg.v1":
		if name == "ReadFileInto" {
			return ex.each(args[0], func(v Value) Value { return ex.gcfgRead(v, strArg(args[1])) }), true
		}
	case "math/rand":
		return ex.randFn(fn, recv, name, args)
	case "errors":
		if name == "New" {
			return nil, false
		}
	case "strings":
		if recv == "Builder" && name == "copyCheck" {
			return &Tuple{}, true
		}
		switch name {
		case "ToLower", "ToUpper", "TrimSpace", "Title":
			s, ok := args[0].(*Str)
			if ok && s.B == nil && !s.Op {
				f := map[string]func(string) string{"ToLower": strings.ToLower, "ToUpper": strings.ToUpper, "TrimSpace": strings.TrimSpace, "Title": strings.Title}[name]
				return &Str{S: f(s.S)}, true
			}
		case "Trim":
			return &Str{S: strings.Trim(strArg(args[0]), strArg(args[1]))}, true
		case "Contains":
			return ex.c.BoolC(strings.Contains(strArg(args[0]), strArg(args[1]))), true
		case "Join":
			var p []string
			for _, v := range ex.sliceVals(args[0].(*SliceV)) {
				p = append(p, strArg(v))
			}
			return &Str{S: strings.Join(p, strArg(args[1]))}, true
		}
	case "sort":
		if name == "Slice" || name == "SliceStable" {
			if v, ok := ex.sortSlice(fn, name, args, pos); ok {
				return v, true
			}
		}
	case "path", "path/filepath":
		if name == "Join" {
			var p []string
			for _, v := range ex.sliceVals(args[0].(*SliceV)) {
				p = append(p, strArg(v))
			}
			return &Str{S: strings.Join(p, "/")}, true
		}
	case "strconv":
		switch name {
		case "Itoa":
			return &Str{S: fmt.Sprint(ex.concInt(args[0]))}, true
		}
	case "reflect", "unicode", "syscall", "internal/poll":
		panic(unsup("call of %s", fn.String()))
	}
	return nil, false
}

func (ex *Exec) retZero(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return &Tuple{}
	case 1:
		return ex.zero(r.At(0).Type())
	}
	return ex.zero(r)
}

func (ex *Exec) retOpaque(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	if r.Len() == 1 && tinfoOf(r.At(0).Type()).k == 's' {
		return &Str{Op: true}
	}
	return ex.retZero(fn)
}

// ---------- harness interface

func (ex *Exec) absT(t *Term) *Term {
	if ex.fp {
		return ex.c.Fun(OFAbs, t, 0)
	}
	return ex.realAbs(t)
}

func (ex *Exec) realAbs(t *Term) *Term {
	c := ex.c
	if t.IsConst() {
		return c.Num(SReal, new(big.Rat).Abs(t.R))
	}
	lo, hi := c.bounds(t)
	if lo != nil && lo.Sign() >= 0 {
		return t
	}
	if hi != nil && hi.Sign() <= 0 {
		return c.Neg(t)
	}
	return ex.sel(c.NumCmp(OLt0, t, c.RealC(0)), c.Neg(t), t)
}

func (ex *Exec) vx(fn *ssa.Function, name string, args []Value, pos token.Pos) Value {
	c := ex.c
	ratInt := func(v Value) *big.Rat { return new(big.Rat).SetInt64(int64(ex.concInt(v))) }
	switch name {
	case "Int":
		lo, hi := ratInt(args[1]), ratInt(args[2])
		if lo.Cmp(hi) == 0 {
			t := ex.nvar(strArg(args[0]), "int", SInt, lo, hi)
			_ = t
			return ex.ic(int(lo.Num().Int64()))
		}
		return ex.nvar(strArg(args[0]), "int", SInt, lo, hi)
	case "IntBV":
		lo, hi := ex.concInt(args[1]), ex.concInt(args[2])
		t := ex.nvar(strArg(args[0]), "bv", BV(64), nil, nil)
		ex.addPC(c.And(c.BVcmp(OBSle, ex.ic(lo), t), c.BVcmp(OBSle, t, ex.ic(hi))))
		return t
	case "Choose":
		lo, hi := ex.concInt(args[1]), ex.concInt(args[2])
		nm := ex.fresh(strArg(args[0]))
		if hi < lo {
			ex.st.dead = true
			return ex.ic(lo)
		}
		k := lo + ex.pick(hi-lo+1)
		ex.fixed[nm] = fmt.Sprint(k)
		return ex.ic(k)
	case "Bool":
		return ex.nvar(strArg(args[0]), "bool", SBool, nil, nil)
	case "U8":
		return ex.nvar(strArg(args[0]), "bv", BV(8), nil, nil)
	case "U16":
		return ex.nvar(strArg(args[0]), "bv", BV(16), nil, nil)
	case "U32", "I32":
		return ex.nvar(strArg(args[0]), "bv", BV(32), nil, nil)
	case "U64", "I64":
		return ex.nvar(strArg(args[0]), "bv", BV(64), nil, nil)
	case "F64", "F32":
		w := 64
		if name == "F32" {
			w = 32
		}
		lo, hi := args[1].(*Term), args[2].(*Term)
		if ex.fp {
			t := ex.nvar(strArg(args[0]), name, ex.fsort(w), nil, nil)
			ex.addPC(c.And(c.Fcmp(OFLe, lo, t), c.Fcmp(OFLe, t, hi)))
			return t
		}
		return ex.nvar(strArg(args[0]), name, SReal, ratOfFloatTerm(lo), ratOfFloatTerm(hi))
	case "F64Any", "F32Any":
		w := 64
		if name == "F32Any" {
			w = 32
		}
		b := ex.nvar(strArg(args[0]), "bv", BV(w), nil, nil)
		return ex.bitsFloat(b, w)
	case "Assume":
		ex.addPC(args[0].(*Term))
		if !ex.st.dead && len(ex.pcList()) < 400 && ex.opt.Prune && ex.inc.Check(ex.pcFull(ex.st)) == RUnsat {
			ex.st.dead = true
		}
		return &Tuple{}
	case "Assert":
		t := args[0].(*Term)
		bad := c.And(ex.pcFull(ex.st), c.Not(t))
		ex.nassert++
		if bad.IsFalse() {
			ex.ntriv++
			return &Tuple{}
		}
		o := Obligation{Bad: bad, Msg: strArg(args[1]), Pos: ex.posStr(pos), Kind: "assert", Path: ex.path, Fixed: ex.fixedCopy(), Names: ex.varsCopy()}
		if len(ex.strong) > 0 {
			if s := ex.strongOf(bad); s != bad {
				o.Strong = s
			}
		}
		ex.obls = append(ex.obls, o)
		return &Tuple{}
	case "Reach":
		ex.reaches = append(ex.reaches, Reach{Label: strArg(args[0]), Cond: ex.pcFull(ex.st), Path: ex.path, Fixed: ex.fixedCopy(), Obs: ex.obs, Names: ex.varsCopy()})
		return &Tuple{}
	case "Obs", "ObsI":
		w := 64
		ex.obs = append(ex.obs[:len(ex.obs):len(ex.obs)], Obs{ex.fresh("obs:" + strArg(args[0])), args[1].(*Term), w})
		return &Tuple{}
	case "EqR", "EqR32", "LeR", "LeR32":
		a, b := args[0].(*Term), args[1].(*Term)
		if ex.fp {
			if name[0] == 'E' {
				return c.Fcmp(OFEq, a, b)
			}
			return c.Fcmp(OFLe, a, b)
		}
		d := c.Sub(a, b)
		m := c.Num(SReal, big.NewRat(1, 100))
		if name[0] == 'E' {
			t := c.NumCmp(OEq0, a, b)
			if !t.IsConst() {
				ex.strong[t.ID] = c.And(c.NumCmp(OLe0, d, m), c.NumCmp(OLe0, c.Neg(m), d))
			}
			return t
		}
		t := c.NumCmp(OLe0, a, b)
		if !t.IsConst() {
			ex.strong[t.ID] = c.NumCmp(OLe0, d, m)
		}
		return t
	case "Same", "Same32":
		return c.Eq(args[0].(*Term), args[1].(*Term))
	case "IsReal":
		return c.BoolC(!ex.fp)
	case "Catch":
		return ex.catch(args[0], pos)
	case "Temp":
		return &Str{S: "/vxtmp"}
	case "Py":
		return ex.pyCall(strArg(args[0]), strArg(args[1]), strArg(args[2]))
	case "Tier":
		if ex.opt.Tier == "thorough" {
			return ex.ic(1)
		}
		return ex.ic(0)
	case "Split":
		return ex.withInt(args[0].(*Term), func(k int) Value { return ex.ic(k) })
	case "And":
		return c.And(args[0].(*Term), args[1].(*Term))
	case "Or":
		return c.Or(args[0].(*Term), args[1].(*Term))
	case "Implies":
		return c.Implies(args[0].(*Term), args[1].(*Term))
	case "Not":
		return c.Not(args[0].(*Term))
	case "IfF":
		return c.Ite(args[0].(*Term), args[1].(*Term), args[2].(*Term))
	case "IfI":
		a, b := args[1].(*Term), args[2].(*Term)
		if a.S != b.S {
			a, b = c.ToInt(a, true), c.ToInt(b, true)
		}
		return c.Ite(args[0].(*Term), a, b)
	}
	panic(unsup("vx.%s", name))
}

// strongOf replaces equality atoms by near-equality ones.
func (ex *Exec) strongOf(t *Term) *Term {
	memo := map[int]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := memo[t.ID]; ok {
			return r
		}
		r := t
		if s, ok := ex.strong[t.ID]; ok {
			r = s
		} else if t.S.K == SBool.K {
			switch t.Op {
			case ONot:
				r = ex.c.Not(f(t.A[0]))
			case OAnd, OOr:
				as := make([]*Term, len(t.A))
				for i, a := range t.A {
					as[i] = f(a)
				}
				if t.Op == OAnd {
					r = ex.c.And(as...)
				} else {
					r = ex.c.Or(as...)
				}
			case OIte:
				r = ex.c.Ite(f(t.A[0]), f(t.A[1]), f(t.A[2]))
			}
		}
		memo[t.ID] = r
		return r
	}
	return f(t)
}

func (ex *Exec) catch(fv Value, pos token.Pos) Value {
	rec := &catchRec{}
	ex.catches = append(ex.catches, rec)
	ex.st = newState(ex.st)
	ex.pending++
	ex.callVal(nil, fv, nil, pos)
	ex.pending--
	ex.catches = ex.catches[:len(ex.catches)-1]
	var ms *State
	var mv Value
	dead := ex.st
	if !ex.st.dead {
		ms, mv = ex.st, ex.c.False
	}
	for _, e := range rec.exits {
		if e.st.dead {
			continue
		}
		s := newState(e.st)
		if ms == nil {
			ms, mv = s, ex.c.True
		} else {
			ms, mv = ex.merge(ms, mv, s, ex.c.True, nil)
		}
	}
	if ms == nil {
		ex.st = dead
		if ex.st.frozen {
			ex.st = newState(dead)
			ex.st.dead = true
		}
		return ex.c.False
	}
	ex.st = ms
	return mv
}

// ---------- math

func (ex *Exec) mathFn(name string, args []Value, pos token.Pos) (Value, bool) {
	c := ex.c
	var a []*Term
	for _, v := range args {
		t, ok := v.(*Term)
		if !ok {
			return nil, false
		}
		a = append(a, t)
	}
	switch name {
	case "Float64bits":
		return ex.floatBits(a[0], 64), true
	case "Float32bits":
		return ex.floatBits(a[0], 32), true
	case "Float64frombits":
		return ex.bitsFloat(a[0], 64), true
	case "Float32frombits":
		return ex.bitsFloat(a[0], 32), true
	case "Inf":
		return ex.fconst(math.Inf(ex.concInt(a[0])), 64), true
	case "NaN":
		return ex.fconst(math.NaN(), 64), true
	}
	if ex.fp {
		switch name {
		case "Abs":
			return c.Fun(OFAbs, a[0], 0), true
		case "Sqrt":
			return c.Fun(OFSqrt, a[0], 0), true
		case "Floor":
			return c.Fun(OFRound, a[0], 2), true
		case "Ceil":
			return c.Fun(OFRound, a[0], 3), true
		case "Trunc":
			return c.Fun(OFRound, a[0], 1), true
		case "IsNaN":
			return c.Fun(OFIsNaN, a[0], 0), true
		case "IsInf":
			k := ex.concInt(a[1])
			i := c.Fun(OFIsInf, a[0], 0)
			z := ex.fconst(0, 64)
			if k > 0 {
				return c.And(i, c.Fcmp(OFLt, z, a[0])), true
			}
			if k < 0 {
				return c.And(i, c.Fcmp(OFLt, a[0], z)), true
			}
			return i, true
		case "Max", "Min":
			// NaN and signed-zero cases follow the Go definition
			x, y := a[0], a[1]
			nan := c.Or(c.Fun(OFIsNaN, x, 0), c.Fun(OFIsNaN, y, 0))
			if name == "Min" {
				x, y = y, x
			}
			r := c.Ite(c.Fcmp(OFLt, y, x), a[0], a[1])
			return c.Ite(nan, ex.fconst(math.NaN(), 64), r), true
		}
	} else {
		z := c.RealC(0)
		switch name {
		case "Abs":
			return ex.realAbs(a[0]), true
		case "Floor":
			return c.ToReal(c.Floor(a[0], 0)), true
		case "Ceil":
			return c.Neg(c.ToReal(c.Floor(c.Neg(a[0]), 0))), true
		case "Trunc":
			return ex.sel(c.NumCmp(OLt0, a[0], z), c.Neg(c.ToReal(c.Floor(c.Neg(a[0]), 0))), c.ToReal(c.Floor(a[0], 0))), true
		case "IsNaN":
			return c.BoolC(a[0].Op == OUF && a[0].Name == "NaN"), true
		case "IsInf":
			if a[0].IsConst() {
				k := ex.concInt(a[1])
				big1 := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(399), nil))
				p := a[0].R.Cmp(big1) > 0
				m := new(big.Rat).Neg(a[0].R).Cmp(big1) > 0
				return c.BoolC(p && k >= 0 || m && k <= 0), true
			}
			return c.False, true
		case "Max":
			return ex.sel(c.NumCmp(OLt0, a[0], a[1]), a[1], a[0]), true
		case "Min":
			return ex.sel(c.NumCmp(OLt0, a[1], a[0]), a[1], a[0]), true
		case "Signbit":
			return c.NumCmp(OLt0, a[0], z), true
		case "Copysign":
			if a[1].IsConst() {
				ab := ex.realAbs(a[0])
				if a[1].R.Sign() < 0 {
					return c.Neg(ab), true
				}
				return ab, true
			}
		case "Sqrt":
			return ex.realSqrt(a[0]), true
		case "Cbrt":
			if f, ok := ex.floatOf(a[0]); ok {
				return ex.fconst(math.Cbrt(f), 64), true
			}
			return c.UF("cbrt", SReal, a[0]), true
		case "Modf":
			tr := ex.sel(c.NumCmp(OLt0, a[0], z), c.Neg(c.ToReal(c.Floor(c.Neg(a[0]), 0))), c.ToReal(c.Floor(a[0], 0)))
			return &Tuple{[]Value{tr, c.Sub(a[0], tr)}}, true
		case "Mod":
			q := ex.realDiv(a[0], a[1])
			tr := ex.sel(c.NumCmp(OLt0, q, z), c.Neg(c.ToReal(c.Floor(c.Neg(q), 0))), c.ToReal(c.Floor(q, 0)))
			return c.Sub(a[0], c.Mul(a[1], tr)), true
		case "Pow":
			if a[1].IsConst() {
				e := a[1].R
				if e.IsInt() && e.Num().IsInt64() {
					n := int(e.Num().Int64())
					if n >= -12 && n <= 12 {
						m := n
						if m < 0 {
							m = -m
						}
						r := c.RealC(1)
						for i := 0; i < m; i++ {
							r = c.Mul(r, a[0])
						}
						if n < 0 {
							return ex.realDiv(c.RealC(1), r), true
						}
						return r, true
					}
				}
				if e.Cmp(big.NewRat(1, 2)) == 0 {
					return ex.realSqrt(a[0]), true
				}
				if x, _ := e.Float64(); x == 1.0/3.0 || e.Cmp(big.NewRat(1, 3)) == 0 {
					if f, ok := ex.floatOf(a[0]); ok {
						return ex.fconst(math.Cbrt(f), 64), true
					}
					return c.UF("cbrt", SReal, a[0]), true
				}
			}
			x, ok1 := ex.floatOf(a[0])
			y, ok2 := ex.floatOf(a[1])
			if ok1 && ok2 {
				return ex.fconst(math.Pow(x, y), 64), true
			}
			return c.UF("pow", SReal, a[0], a[1]), true
		}
	}
	// constants are evaluated; other transcendental functions are uninterpreted
	f1 := map[string]func(float64) float64{"Exp": math.Exp, "Log": math.Log, "Log10": math.Log10, "Log2": math.Log2, "Sin": math.Sin, "Cos": math.Cos,
		"Tan": math.Tan, "Asin": math.Asin, "Acos": math.Acos, "Atan": math.Atan, "Sinh": math.Sinh, "Cosh": math.Cosh, "Tanh": math.Tanh,
		"Cbrt": math.Cbrt, "Sqrt": math.Sqrt, "Exp2": math.Exp2, "Erf": math.Erf, "Gamma": math.Gamma, "Log1p": math.Log1p, "Round": math.Round}
	f2 := map[string]func(x, y float64) float64{"Pow": math.Pow, "Atan2": math.Atan2, "Mod": math.Mod, "Hypot": math.Hypot}
	if f, ok := f1[name]; ok {
		if x, ok := ex.floatOf(a[0]); ok {
			return ex.fconst(f(x), 64), true
		}
		if !ex.fp {
			return c.UF("math."+name, SReal, a[0]), true
		}
		panic(unsup("math.%s of a symbolic float", name))
	}
	if f, ok := f2[name]; ok {
		x, ok1 := ex.floatOf(a[0])
		y, ok2 := ex.floatOf(a[1])
		if ok1 && ok2 {
			return ex.fconst(f(x, y), 64), true
		}
		if !ex.fp {
			return c.UF("math."+name, SReal, a[0], a[1]), true
		}
		panic(unsup("math.%s of symbolic floats", name))
	}
	return nil, false
}

func (ex *Exec) realSqrt(t *Term) *Term {
	c := ex.c
	if t.IsConst() && t.R.Sign() >= 0 {
		n := new(big.Int).Sqrt(t.R.Num())
		d := new(big.Int).Sqrt(t.R.Denom())
		if new(big.Int).Mul(n, n).Cmp(t.R.Num()) == 0 && new(big.Int).Mul(d, d).Cmp(t.R.Denom()) == 0 {
			return c.Num(SReal, new(big.Rat).SetFrac(n, d))
		}
		return ex.fconst(math.Sqrt(ratToFloat(t.R)), 64)
	}
	if t.IsConst() {
		return ex.fconst(math.NaN(), 64)
	}
	return c.UF("sqrt", SReal, t)
}

// ---------- fmt and log

// native converts a concrete value to a Go value for formatting.
func (ex *Exec) native(v Value, t types.Type) (interface{}, bool) {
	switch x := v.(type) {
	case *Iface:
		if x.T == nil {
			return nil, true
		}
		// errors
		if m := ex.eng.methodByName(x.T, "Error"); m != nil && m.Signature.Results().Len() == 1 {
			if p, ok := x.V.(*Ptr); ok && p.O != nil {
				if s, ok := ex.cell(p.O, 0).(*StructV); ok && len(s.F) == 1 {
					if st, ok := s.F[0].(*Str); ok && st.B == nil && !st.Op {
						return fmt.Errorf("%s", st.S), true
					}
				}
			}
			return nil, false
		}
		return ex.native(x.V, x.T)
	case *Str:
		if x.B != nil || x.Op {
			return nil, false
		}
		return x.S, true
	case *Term:
		if !x.IsConst() {
			return nil, false
		}
		ti := tinfoOf(t)
		if m := ex.eng.methodByName(t, "String"); m != nil {
			return nil, false
		}
		switch ti.k {
		case 'b':
			return x.IsTrue(), true
		case 'i':
			k, ok := conc(x)
			if !ok {
				return nil, false
			}
			if !ti.signed {
				if x.R == nil {
					return x.U, true
				}
				return uint64(k), true
			}
			return k, true
		case 'f':
			f, ok := ex.floatOf(x)
			if ti.w == 32 {
				return float32(f), ok
			}
			return f, ok
		}
	}
	return nil, false
}

func (ex *Exec) sprintf(name string, args []Value, va int) *Str {
	sl, ok := args[va].(*SliceV)
	if !ok {
		return &Str{Op: true}
	}
	if _, ok := conc(sl.Len); !ok {
		return &Str{Op: true}
	}
	var xs []interface{}
	for _, v := range ex.sliceVals(sl) {
		n, ok := ex.native(v, nil)
		if !ok {
			return &Str{Op: true}
		}
		xs = append(xs, n)
	}
	switch {
	case strings.HasSuffix(name, "f"):
		f, ok := args[va-1].(*Str)
		if !ok || f.B != nil || f.Op {
			return &Str{Op: true}
		}
		return &Str{S: fmt.Sprintf(f.S, xs...)}
	case strings.HasSuffix(name, "ln"):
		return &Str{S: fmt.Sprintln(xs...)}
	}
	return &Str{S: fmt.Sprint(xs...)}
}

func (ex *Exec) fmtFn(fn *ssa.Function, name string, args []Value, pos token.Pos) (Value, bool) {
	switch name {
	case "Sprintf":
		return ex.sprintf(name, args, 1), true
	case "Sprint", "Sprintln":
		return ex.sprintf(name, args, 0), true
	case "Errorf":
		s := ex.sprintf(name, args, 1)
		e := ex.mkErr("")
		p := e.V.(*Ptr)
		ex.store(p, &StructV{[]Value{s}})
		return e, true
	case "Println", "Printf", "Print":
		return ex.retZero(fn), true
	case "Fprintf", "Fprintln", "Fprint":
		va := 1
		if name == "Fprintf" {
			va = 2
		}
		if i, ok := args[0].(*Iface); ok && i.T != nil {
			if p, ok := i.V.(*Ptr); ok && p.O != nil {
				if h, ok := ex.cell(p.O, 0).(*FileH); ok && strings.HasPrefix(h.Name, "/dev/") {
					return ex.retZero(fn), true
				}
			}
			s := ex.sprintf(name, args, va)
			if s.Op {
				panic(unsup("formatted output of symbolic values"))
			}
			b := ex.strBytes(s)
			vs := make([]Value, len(b))
			for k := range b {
				vs[k] = b[k]
			}
			return ex.ifCall(i, "Write", []Value{ex.mkSlice(types.Typ[types.Uint8], vs)}, pos), true
		}
	}
	panic(unsup("fmt.%s", name))
}

func (ex *Exec) ifCall(v Value, method string, args []Value, pos token.Pos) Value {
	return ex.each(v, func(v Value) Value {
		i := v.(*Iface)
		if i.T == nil {
			ex.raise(ex.c.True, "panic", "nil interface method call", pos)
			return &Tuple{}
		}
		m := ex.eng.methodByName(i.T, method)
		if m == nil {
			panic(unsup("no method %s on %s", method, i.T))
		}
		return ex.call(m, append([]Value{i.V}, args...), nil, pos)
	})
}

func (ex *Exec) logFn(fn *ssa.Function, name string, args []Value, pos token.Pos) (Value, bool) {
	if fn.Signature.Recv() != nil && len(args) > 0 {
		args = args[1:]
	}
	msg := func() string {
		var s *Str
		if strings.HasSuffix(name, "f") {
			s = ex.sprintf(name, args, 1)
			if s.Op {
				if f, ok := args[0].(*Str); ok && f.B == nil && !f.Op {
					return f.S
				}
			}
		} else {
			s = ex.sprintf(name, args, 0)
		}
		if s.Op {
			return "<symbolic message>"
		}
		return s.S
	}
	switch {
	case strings.HasPrefix(name, "Fatal"):
		ex.raise(ex.c.True, "exit", msg(), pos)
	case strings.HasPrefix(name, "Panic"):
		ex.raise(ex.c.True, "panic", msg(), pos)
	}
	return ex.retZero(fn), true
}

// ---------- math/rand

func (ex *Exec) randFn(fn *ssa.Function, recv, name string, args []Value) (Value, bool) {
	c := ex.c
	var self Value
	if recv == "Rand" {
		self = args[0]
		args = args[1:]
	}
	switch name {
	case "NewSource":
		return &Iface{T: types.Typ[types.Int64], V: args[0]}, true
	case "New":
		src, ok := args[0].(*Iface)
		if !ok || src.T != types.Typ[types.Int64] {
			panic(unsup("rand.New of an unknown source"))
		}
		o := ex.newObj("rand.Rand", types.Typ[types.Int64], 2, true)
		ex.st.set(ckey{o, 0}, src.V)
		ex.st.set(ckey{o, 1}, ex.ic(0))
		return &Ptr{O: o}, true
	case "Float64", "Float32":
		sid := "g"
		k := ex.names["gorand:global"]
		if recv == "Rand" {
			p, ok := self.(*Ptr)
			if !ok || p.O == nil || !p.O.arr {
				panic(unsup("rand.Rand of unknown origin"))
			}
			pc := &Ptr{O: p.O, I: ex.ic(1)}
			n := ex.load(pc).(*Term)
			kc, isc := conc(n)
			if !isc {
				panic(unsup("random stream position depends on the input"))
			}
			k = kc
			ex.store(pc, ex.ic(k+1))
			seed := ex.load(&Ptr{O: p.O, I: ex.ic(0)}).(*Term)
			key := fmt.Sprintf("gorand:seed%d", seed.ID)
			if _, ok := ex.names[key]; !ok {
				ex.names[key] = ex.names["gorand:streams"]
				ex.names["gorand:streams"]++
			}
			sid = fmt.Sprint(ex.names[key])
		} else {
			ex.names["gorand:global"]++
		}
		if ex.opt.Clock && !ex.fp {
			// a fixed stream, like everything that is seeded by the time of day
			z := uint64(k)*0x9E3779B97F4A7C15 + uint64(len(sid)*131+int(sid[len(sid)-1]))
			z = (z ^ z>>30) * 0xBF58476D1CE4E5B9
			z = (z ^ z>>27) * 0x94D049BB133111EB
			return ex.fconst(float64((z^z>>31)>>44)/(1<<20), 64), true
		}
		nm := fmt.Sprintf("gorand%s#%d", sid, k)
		t, old := ex.nondets[nm]
		if !old {
			if ex.fp {
				t = c.Var(nm, ex.fsort(64), nil, nil)
			} else {
				// the largest value is the largest double below one
				t = c.Var(nm, SReal, new(big.Rat), new(big.Rat).SetFloat64(1-1.0/(1<<53)))
			}
			ex.vorder = append(ex.vorder, NVar{nm, t, "F64", 64})
			ex.nondets[nm] = t
		}
		if ex.fp {
			ex.addPC(c.And(c.Fcmp(OFLe, ex.fconst(0, 64), t), c.Fcmp(OFLt, t, ex.fconst(1, 64))))
			if name == "Float32" {
				t = c.FCvt(t, ex.fsort(32))
				ex.addPC(c.Fcmp(OFLt, t, ex.fconst(1, 32)))
			}
		}
		return t, true
	case "Intn", "Int63n", "Int31n":
		if n, ok := conc(args[0].(*Term)); ok && ex.opt.Clock && n > 0 {
			// a fixed stream, like everything that is seeded by the time of day
			ex.names["gorand:int"]++
			return c.BVc(64, uint64(ex.names["gorand:int"]*7919%n)), true
		}
		t := c.Fresh("rand", BV(64))
		n := args[0].(*Term)
		ex.addPC(c.And(c.BVcmp(OBSle, ex.ic(0), t), c.BVcmp(OBSlt, t, c.ToBV(n, 64))))
		return t, true
	case "Seed":
		return ex.retZero(fn), true
	case "Int63", "Int", "Int31", "Uint32":
		w := tinfoOf(fn.Signature.Results().At(0).Type()).w
		return c.Fresh("rand", BV(w)), true
	}
	panic(unsup("math/rand.%s", name))
}

// ---------- sync

func (ex *Exec) syncFn(fn *ssa.Function, recv, name string, args []Value, pos token.Pos) (Value, bool) {
	switch recv + "." + name {
	case "WaitGroup.Wait":
		for ex.runOne() {
			if ex.st.dead {
				return &Tuple{}, true
			}
		}
		ex.syncOn(asPtr(args[0]), true, false)
		return &Tuple{}, true
	case "WaitGroup.Add", "WaitGroup.Done", "Mutex.Lock", "Mutex.Unlock", "RWMutex.Lock", "RWMutex.Unlock", "RWMutex.RLock", "RWMutex.RUnlock":
		switch {
		case name == "Done" || strings.HasSuffix(name, "Unlock"):
			ex.syncOn(asPtr(args[0]), false, true)
		case name == "Lock" || name == "RLock":
			ex.syncOn(asPtr(args[0]), true, false)
		}
		return &Tuple{}, true
	case "Once.Do", "Once.doSlow":
		return nil, false
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == "sync/atomic" {
		if recv != "" && recv != "Value" && recv != "Pointer" {
			return nil, false // methods of the typed values call the functions below
		}
		if name == "b32" {
			return ex.c.Ite(args[0].(*Term), ex.c.BVc(32, 1), ex.c.BVc(32, 0)), true
		}
		at, ok := args[0].(*Ptr)
		if !ok {
			panic(unsup("%s", fn.String()))
		}
		if at.O == nil {
			ex.raise(ex.c.True, "panic", "nil pointer dereference", pos)
			return ex.retZero(fn), true
		}
		ex.syncOn(at, true, true)
		live := ex.race.live
		ex.race.live = 0
		defer func() { ex.race.live = live }()
		old := func() *Term { return ex.load(at).(*Term) }
		isInt := strings.HasSuffix(name, "Int32") || strings.HasSuffix(name, "Int64") || strings.HasSuffix(name, "Uint32") || strings.HasSuffix(name, "Uint64")
		switch {
		case !isInt:
		case strings.HasPrefix(name, "Load"):
			return old(), true
		case strings.HasPrefix(name, "Store"):
			ex.store(at, args[1])
			return &Tuple{}, true
		case strings.HasPrefix(name, "Add"):
			v := ex.c.BVop(OBAdd, old(), args[1].(*Term))
			ex.store(at, v)
			return v, true
		case strings.HasPrefix(name, "Swap"):
			v := old()
			ex.store(at, args[1])
			return v, true
		case strings.HasPrefix(name, "CompareAndSwap"):
			v := old()
			eq := ex.c.Eq(v, args[1].(*Term))
			ex.store(at, ex.c.Ite(eq, args[2].(*Term), v))
			return eq, true
		}
	}
	panic(unsup("%s", fn.String()))
}

func asPtr(v Value) *Ptr {
	p, _ := v.(*Ptr)
	return p
}
