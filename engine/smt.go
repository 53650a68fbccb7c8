package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os/exec"
	"strings"
	"time"
)

// Emitter writes terms as SMT-LIB definitions.
type Emitter struct {
	c    *Ctx
	done map[int]string
	sb   *strings.Builder
	ufs  map[string]bool
	vars []*Term // OVar terms emitted

	side   map[string]bool // when not nil: side conditions (nonzero denominators, conversion ranges)
	opaque bool            // stand-ins for what polynomials are made of
	max    int
	depth  int
}

func NewEmitter(c *Ctx) *Emitter {
	return &Emitter{c: c, done: map[int]string{}, sb: &strings.Builder{}, ufs: map[string]bool{}}
}

func intStr(b *big.Int) string {
	if b.Sign() < 0 {
		return "(- " + new(big.Int).Neg(b).String() + ")"
	}
	return b.String()
}

func ratStr(r *big.Rat) string {
	n := new(big.Int).Abs(r.Num())
	var s string
	if r.IsInt() {
		s = n.String() + ".0"
	} else {
		s = "(/ " + n.String() + ".0 " + r.Denom().String() + ".0)"
	}
	if r.Sign() < 0 {
		return "(- " + s + ")"
	}
	return s
}

func (e *Emitter) numConst(k Kind, r *big.Rat) string {
	if k == KInt {
		return intStr(r.Num())
	}
	return ratStr(r)
}

func symName(n string) string { return "|" + n + "|" }

// ref returns an SMT expression denoting t, defining subterms as needed.
func (e *Emitter) ref(t *Term) string {
	if s, ok := e.done[t.ID]; ok {
		return s
	}
	if e.max > 0 && e.sb.Len() > e.max {
		panic("step too large")
	}
	if e.opaque {
		cut := e.depth > 8
		switch t.Op {
		case OFloor, OUF, OBV2Int, OIDiv, OIMod, OInt2BV:
			cut = e.depth > 1
		case OConst, OVar:
			cut = false
		}
		if cut {
			n := fmt.Sprintf("o%d", t.ID)
			fmt.Fprintf(e.sb, "(declare-const %s %s)\n", n, t.S.SMT())
			e.done[t.ID] = n
			return n
		}
		e.depth++
		defer func() { e.depth-- }()
	}
	s := e.expr(t)
	if t.Op == OConst {
		e.done[t.ID] = s
		return s
	}
	if t.Op == OVar {
		e.done[t.ID] = s
		return s
	}
	n := fmt.Sprintf("t%d", t.ID)
	fmt.Fprintf(e.sb, "(define-fun %s () %s %s)\n", n, t.S.SMT(), s)
	e.done[t.ID] = n
	return n
}

func (e *Emitter) atom(t *Term, k Kind) string {
	s := e.ref(t)
	if k == KReal && t.S.K == KInt {
		return "(to_real " + s + ")"
	}
	return s
}

func (e *Emitter) poly(p *Poly, k Kind) string {
	if len(p.ts) == 0 {
		return e.numConst(k, ratZero)
	}
	var parts []string
	for _, x := range p.ts {
		if x.m == e.c.one {
			parts = append(parts, e.numConst(k, x.c))
			continue
		}
		var fs []string
		if x.c.Cmp(ratOne) != 0 {
			fs = append(fs, e.numConst(k, x.c))
		}
		for _, v := range x.m.vs {
			a := e.atom(v.t, k)
			for i := 0; i < v.e; i++ {
				fs = append(fs, a)
			}
		}
		if len(fs) == 1 {
			parts = append(parts, fs[0])
		} else {
			parts = append(parts, "(* "+strings.Join(fs, " ")+")")
		}
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(+ " + strings.Join(parts, " ") + ")"
}

func (e *Emitter) frac(p *Poly, d []dfac) string {
	n := e.poly(p, KReal)
	var fs []string
	for _, x := range d {
		a := e.atom(x.t, KReal)
		if e.side != nil {
			e.side["(not (= "+a+" 0.0))"] = true
		}
		for i := 0; i < x.e; i++ {
			fs = append(fs, a)
		}
	}
	if len(fs) == 0 {
		return n
	}
	dd := fs[0]
	if len(fs) > 1 {
		dd = "(* " + strings.Join(fs, " ") + ")"
	}
	return "(/ " + n + " " + dd + ")"
}

func fpFmt(s Sort) string {
	if s.K == KF32 {
		return "8 24"
	}
	return "11 53"
}

var bvNames = map[Op]string{OBAdd: "bvadd", OBSub: "bvsub", OBMul: "bvmul", OBUdiv: "bvudiv", OBUrem: "bvurem", OBSdiv: "bvsdiv", OBSrem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBShl: "bvshl", OBLshr: "bvlshr", OBAshr: "bvashr", OBUlt: "bvult", OBUle: "bvule", OBSlt: "bvslt", OBSle: "bvsle", OBConcat: "concat", OBNot: "bvnot", OBNeg: "bvneg"}

func (e *Emitter) app(f string, as ...*Term) string {
	var sb strings.Builder
	rs := make([]string, len(as))
	for i, a := range as {
		rs[i] = e.ref(a)
	}
	sb.WriteString("(" + f)
	for _, r := range rs {
		sb.WriteString(" " + r)
	}
	sb.WriteString(")")
	return sb.String()
}

func (e *Emitter) expr(t *Term) string {
	switch t.Op {
	case OConst:
		switch t.S.K {
		case KBool:
			if t.U == 1 {
				return "true"
			}
			return "false"
		case KBV:
			return fmt.Sprintf("(_ bv%d %d)", t.U, t.S.W)
		case KInt, KReal:
			return e.numConst(t.S.K, t.R)
		default:
			return fmt.Sprintf("((_ to_fp %s) (_ bv%d %d))", fpFmt(t.S), t.U, t.S.W)
		}
	case OVar:
		fmt.Fprintf(e.sb, "(declare-const %s %s)\n", symName(t.Name), t.S.SMT())
		e.vars = append(e.vars, t)
		if t.S.K == KInt || t.S.K == KReal {
			if t.Lo != nil {
				fmt.Fprintf(e.sb, "(assert (>= %s %s))\n", symName(t.Name), e.numConst(t.S.K, t.Lo))
			}
			if t.Hi != nil {
				fmt.Fprintf(e.sb, "(assert (<= %s %s))\n", symName(t.Name), e.numConst(t.S.K, t.Hi))
			}
		}
		if t.S.K == KBV && t.Lo != nil && t.Hi != nil {
			fmt.Fprintf(e.sb, "(assert (and (bvule (_ bv%d %d) %s) (bvule %s (_ bv%d %d))))\n", t.Lo.Num().Uint64(), t.S.W, symName(t.Name), symName(t.Name), t.Hi.Num().Uint64(), t.S.W)
		}
		return symName(t.Name)
	case ONot:
		return e.app("not", t.A...)
	case OAnd:
		return e.app("and", t.A...)
	case OOr:
		return e.app("or", t.A...)
	case OIte:
		return e.app("ite", t.A...)
	case OEq:
		return e.app("=", t.A...)
	case OPoly:
		return e.poly(t.P, t.S.K)
	case OFrac:
		return e.frac(t.P, t.D)
	case OLe0, OLt0, OEq0:
		r := map[Op]string{OLe0: "<=", OLt0: "<", OEq0: "="}[t.Op]
		if t.P0 == 1 {
			return "(" + r + " " + e.frac(t.P, t.D) + " 0.0)"
		}
		k := KReal
		z := "0.0"
		if e.c.allIntAtoms(t.P) {
			k = KInt
			z = "0"
		}
		return "(" + r + " " + e.poly(t.P, k) + " " + z + ")"
	case OMul:
		return "(* " + e.atom(t.A[0], t.S.K) + " " + e.atom(t.A[1], t.S.K) + ")"
	case OIDiv:
		return e.app("div", t.A...)
	case OIMod:
		return e.app("mod", t.A...)
	case OFloor:
		s := e.app("to_int", t.A...)
		if e.side != nil && t.P0 > 0 {
			e.clip(s, t.P0)
		}
		return s
	case OUF:
		return e.uf(t)
	case OBExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.P0, t.P1, e.ref(t.A[0]))
	case OBZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.S.W-t.A[0].S.W, e.ref(t.A[0]))
	case OBSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.S.W-t.A[0].S.W, e.ref(t.A[0]))
	case OBV2Int:
		a := e.ref(t.A[0])
		if t.P0 == 1 {
			w := t.A[0].S.W
			m := new(big.Int).Lsh(big.NewInt(1), uint(w))
			return fmt.Sprintf("(ite (bvslt %s (_ bv0 %d)) (- (bv2nat %s) %s) (bv2nat %s))", a, w, a, m.String(), a)
		}
		return "(bv2nat " + a + ")"
	case OInt2BV:
		return fmt.Sprintf("((_ int2bv %d) %s)", t.S.W, e.ref(t.A[0]))
	case OFAdd, OFSub, OFMul, OFDiv:
		return e.app(map[Op]string{OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE"}[t.Op], t.A...)
	case OFNeg:
		return e.app("fp.neg", t.A...)
	case OFAbs:
		return e.app("fp.abs", t.A...)
	case OFSqrt:
		return e.app("fp.sqrt RNE", t.A...)
	case OFLt:
		return e.app("fp.lt", t.A...)
	case OFLe:
		return e.app("fp.leq", t.A...)
	case OFEq:
		return e.app("fp.eq", t.A...)
	case OFIsNaN:
		return e.app("fp.isNaN", t.A...)
	case OFIsInf:
		return e.app("fp.isInfinite", t.A...)
	case OFRound:
		return e.app("fp.roundToIntegral "+[]string{"RNE", "RTZ", "RTN", "RTP"}[t.P0], t.A...)
	case OFFromBits:
		return e.app("(_ to_fp "+fpFmt(t.S)+")", t.A...)
	case OFToBits:
		a := e.ref(t.A[0])
		n := fmt.Sprintf("|fbits!%d|", t.ID)
		fmt.Fprintf(e.sb, "(declare-const %s %s)\n(assert (= ((_ to_fp %s) %s) %s))\n", n, t.S.SMT(), fpFmt(t.A[0].S), n, a)
		return n
	case OFCvt:
		return e.app("(_ to_fp "+fpFmt(t.S)+") RNE", t.A...)
	case OF2SBV:
		return e.app(fmt.Sprintf("(_ fp.to_sbv %d) RTZ", t.S.W), t.A...)
	case OF2UBV:
		return e.app(fmt.Sprintf("(_ fp.to_ubv %d) RTZ", t.S.W), t.A...)
	case OSBV2F:
		return e.app("(_ to_fp "+fpFmt(t.S)+") RNE", t.A...)
	case OUBV2F:
		return e.app("(_ to_fp_unsigned "+fpFmt(t.S)+") RNE", t.A...)
	}
	if n, ok := bvNames[t.Op]; ok {
		return e.app(n, t.A...)
	}
	panic(fmt.Sprintf("emit op %d", t.Op))
}

func (e *Emitter) uf(t *Term) string {
	if t.Name == "sqrt" {
		a := e.ref(t.A[0])
		n := fmt.Sprintf("|sqrt!%d|", t.ID)
		fmt.Fprintf(e.sb, "(declare-const %s Real)\n(assert (>= %s 0.0))\n(assert (=> (>= %s 0.0) (= (* %s %s) %s)))\n", n, n, a, n, n, a)
		return n
	}
	if t.Name == "cbrt" {
		a := e.ref(t.A[0])
		n := fmt.Sprintf("|cbrt!%d|", t.ID)
		fmt.Fprintf(e.sb, "(declare-const %s Real)\n(assert (= (* %s %s %s) %s))\n(assert (=> (>= %s 0.0) (>= %s 0.0)))\n", n, n, n, n, a, a, n)
		return n
	}
	nm := "|uf:" + t.Name + "|"
	key := nm
	if !e.ufs[key] {
		e.ufs[key] = true
		var as []string
		for _, a := range t.A {
			as = append(as, a.S.SMT())
		}
		fmt.Fprintf(e.sb, "(declare-fun %s (%s) %s)\n", nm, strings.Join(as, " "), t.S.SMT())
	}
	if len(t.A) == 0 {
		return nm
	}
	return e.app(nm, t.A...)
}

// ---------- solver runs

type Result int

const (
	RUnknown Result = iota
	RSat
	RUnsat
	RError
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat", "error"}[r] }

type SolverCfg struct {
	Name string
	Cmd  []string
	Pre  string
	Chk  string
}

func solverCfg(name string, tmo time.Duration) SolverCfg {
	ms := int(tmo / time.Millisecond)
	switch name {
	case "z3":
		return SolverCfg{name, []string{"z3-new", "-in", fmt.Sprintf("-T:%d", ms/1000+1), "-memory:6000"}, "(set-option :pp.decimal true)(set-option :pp.decimal_precision 30)\n", "(check-sat)"}
	case "z3-nlsat":
		return SolverCfg{name, []string{"z3-new", "-in", fmt.Sprintf("-T:%d", ms/1000+1), "-memory:6000"}, "(set-option :pp.decimal true)(set-option :pp.decimal_precision 30)\n", "(check-sat-using (then simplify propagate-values solve-eqs purify-arith elim-term-ite qfnra-nlsat))"}
	case "z3-old":
		return SolverCfg{name, []string{"z3", "-in", fmt.Sprintf("-T:%d", ms/1000+1), "-memory:6000"}, "(set-option :pp.decimal true)(set-option :pp.decimal_precision 30)\n", "(check-sat)"}
	case "z3-qffp":
		return SolverCfg{name, []string{"z3-new", "-in", fmt.Sprintf("-T:%d", ms/1000+1), "-memory:6000"}, "", "(check-sat-using (then simplify fpa2bv simplify propagate-values solve-eqs bit-blast sat))"}
	case "cvc5":
		return SolverCfg{name, []string{"cvc5", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", ms)}, "(set-logic ALL)\n", "(check-sat)"}
	case "cvc5-cov":
		return SolverCfg{name, []string{"cvc5", "--lang=smt2", "--produce-models", "--nl-cov", fmt.Sprintf("--tlimit=%d", ms)}, "(set-logic ALL)\n", "(check-sat)"}
	}
	panic("solver " + name)
}

type QResult struct {
	Res    Result
	Model  map[string]string
	Solver string
	Wall   time.Duration
	Raw    string
}

// RunQuery discharges a one-shot query.
func RunQuery(ctx context.Context, cfg SolverCfg, body string, vars []*Term) QResult {
	t0 := time.Now()
	cmd := exec.CommandContext(ctx, cfg.Cmd[0], cfg.Cmd[1:]...)
	var gv strings.Builder
	if len(vars) > 0 {
		gv.WriteString("(get-value (")
		for _, v := range vars {
			gv.WriteString(symName(v.Name) + " ")
		}
		gv.WriteString("))\n")
	}
	cmd.Stdin = strings.NewReader(cfg.Pre + body + cfg.Chk + "\n" + gv.String() + "(exit)\n")
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	s := out.String()
	r := QResult{Solver: cfg.Name, Wall: time.Since(t0), Raw: s}
	first := strings.TrimSpace(s)
	if i := strings.IndexByte(first, '\n'); i >= 0 {
		first = first[:i]
	}
	first = strings.TrimSpace(first)
	switch {
	case first == "unsat":
		r.Res = RUnsat
	case first == "sat":
		r.Res = RSat
		if strings.Contains(s, "(error") {
			r.Res = RError
		}
		if i := strings.IndexByte(s, '('); i >= 0 {
			r.Model = parseModel(s[i:])
		}
	case strings.HasPrefix(first, "(error"):
		r.Res = RError
	default:
		r.Res = RUnknown
	}
	return r
}

// parseModel parses ((|x| v) ...) into raw value strings.
func parseModel(s string) map[string]string {
	toks := sexprTokens(s)
	pos := 0
	var parse func() interface{}
	parse = func() interface{} {
		if pos >= len(toks) {
			return ""
		}
		t := toks[pos]
		pos++
		if t == "(" {
			var l []interface{}
			for pos < len(toks) && toks[pos] != ")" {
				l = append(l, parse())
			}
			pos++
			return l
		}
		return t
	}
	m := map[string]string{}
	top, ok := parse().([]interface{})
	if !ok {
		return m
	}
	for _, e := range top {
		l, ok := e.([]interface{})
		if !ok || len(l) != 2 {
			continue
		}
		n, ok := l[0].(string)
		if !ok {
			continue
		}
		n = strings.Trim(n, "|")
		m[n] = sexprString(l[1])
	}
	return m
}

func sexprString(x interface{}) string {
	switch v := x.(type) {
	case string:
		return v
	case []interface{}:
		var p []string
		for _, y := range v {
			p = append(p, sexprString(y))
		}
		return "(" + strings.Join(p, " ") + ")"
	}
	return ""
}

func sexprTokens(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		ch := s[i]
		switch {
		case ch == '(' || ch == ')':
			out = append(out, string(ch))
			i++
		case ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r':
			i++
		case ch == '|':
			j := strings.IndexByte(s[i+1:], '|')
			if j < 0 {
				return out
			}
			out = append(out, s[i:i+j+2])
			i += j + 2
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

// parseVal parses an SMT value into a rational (numbers, bitvectors as unsigned) or bool.
func parseVal(s string) (*big.Rat, bool) {
	s = strings.TrimSpace(s)
	switch {
	case s == "true":
		return big.NewRat(1, 1), true
	case s == "false":
		return new(big.Rat), true
	case strings.HasPrefix(s, "#x"):
		b, ok := new(big.Int).SetString(s[2:], 16)
		if !ok {
			return nil, false
		}
		return new(big.Rat).SetInt(b), true
	case strings.HasPrefix(s, "#b"):
		b, ok := new(big.Int).SetString(s[2:], 2)
		if !ok {
			return nil, false
		}
		return new(big.Rat).SetInt(b), true
	case strings.HasPrefix(s, "(- "):
		r, ok := parseVal(s[3 : len(s)-1])
		if !ok {
			return nil, false
		}
		return new(big.Rat).Neg(r), true
	case strings.HasPrefix(s, "(/ "):
		in := s[3 : len(s)-1]
		toks := splitTop(in)
		if len(toks) != 2 {
			return nil, false
		}
		a, ok1 := parseVal(toks[0])
		b, ok2 := parseVal(toks[1])
		if !ok1 || !ok2 || b.Sign() == 0 {
			return nil, false
		}
		return new(big.Rat).Quo(a, b), true
	case strings.HasPrefix(s, "(_ bv"):
		f := strings.Fields(strings.Trim(s, "()"))
		b, ok := new(big.Int).SetString(strings.TrimPrefix(f[1], "bv"), 10)
		if !ok {
			return nil, false
		}
		return new(big.Rat).SetInt(b), true
	case strings.HasPrefix(s, "(_ real_algebraic_number"):
		// cvc5: <poly, (lo, hi)>: take midpoint of interval
		i := strings.LastIndex(s, "(")
		if i > 0 {
			in := strings.Trim(s[i:], "()> ")
			p := strings.Split(in, ",")
			if len(p) == 2 {
				a, ok1 := new(big.Rat).SetString(strings.TrimSpace(p[0]))
				b, ok2 := new(big.Rat).SetString(strings.TrimSpace(p[1]))
				if ok1 && ok2 {
					return a.Add(a, b).Mul(a, big.NewRat(1, 2)), true
				}
			}
		}
		return nil, false
	}
	s = strings.TrimSuffix(s, "?")
	r, ok := new(big.Rat).SetString(s)
	return r, ok
}

func splitTop(s string) []string {
	var out []string
	d := 0
	st := -1
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '(':
			if d == 0 && st < 0 {
				st = i
			}
			d++
		case s[i] == ')':
			d--
		case s[i] == ' ' && d == 0:
			if st >= 0 {
				out = append(out, s[st:i])
				st = -1
			}
		default:
			if st < 0 {
				st = i
			}
		}
	}
	if st >= 0 {
		out = append(out, s[st:])
	}
	return out
}

// ---------- incremental solver for feasibility queries

type Inc struct {
	c    *Ctx
	em   *Emitter
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	dead bool
	n    int
	wall time.Duration
	memo map[int]Result
	tmo  int
}

func NewInc(c *Ctx, tmoms int) *Inc {
	return &Inc{c: c, memo: map[int]Result{}, tmo: tmoms}
}

func (s *Inc) start() {
	s.em = NewEmitter(s.c)
	s.cmd = exec.Command("z3-new", "-in", "-memory:4000")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		s.dead = true
		return
	}
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.tmo)
}

func (s *Inc) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
	s.cmd = nil
}

// Check returns the satisfiability of t (conjunction).
func (s *Inc) Check(t *Term) Result {
	if t.IsFalse() {
		return RUnsat
	}
	if t.IsTrue() {
		return RSat
	}
	if r, ok := s.memo[t.ID]; ok {
		return r
	}
	t0 := time.Now()
	defer func() { s.wall += time.Since(t0); s.n++ }()
	if s.cmd == nil {
		s.start()
	}
	if s.dead {
		return RUnknown
	}
	s.em.sb.Reset()
	r := s.em.ref(t)
	fmt.Fprintf(s.in, "%s(push)\n(assert %s)\n(check-sat)\n(pop)\n", s.em.sb.String(), r)
	res := RUnknown
	done := make(chan string, 1)
	go func() {
		l, err := s.out.ReadString('\n')
		if err != nil {
			l = "dead"
		}
		done <- l
	}()
	select {
	case l := <-done:
		switch strings.TrimSpace(l) {
		case "sat":
			res = RSat
		case "unsat":
			res = RUnsat
		case "unknown", "timeout":
		default:
			s.Close()
			return RUnknown
		}
	case <-time.After(time.Duration(s.tmo)*time.Millisecond*3 + 2*time.Second):
		s.Close()
		s.memo[t.ID] = RUnknown
		return RUnknown
	}
	s.memo[t.ID] = res
	return res
}

// Value returns a value which the integer v has in some model of t.
func (s *Inc) Value(t, v *Term) (Result, *big.Int) {
	if t.IsFalse() {
		return RUnsat, nil
	}
	t0 := time.Now()
	defer func() { s.wall += time.Since(t0); s.n++ }()
	if s.cmd == nil {
		s.start()
	}
	if s.dead {
		return RUnknown, nil
	}
	s.em.sb.Reset()
	r, vr := s.em.ref(t), s.em.ref(v)
	fmt.Fprintf(s.in, "%s(push)\n(assert %s)\n(check-sat)\n(echo \"v\")\n(eval %s :completion true)\n(echo \"end\")\n(pop)\n", s.em.sb.String(), r, vr)
	done := make(chan []string, 1)
	go func() {
		var ls []string
		for {
			l, err := s.out.ReadString('\n')
			if err != nil {
				done <- nil
				return
			}
			l = strings.TrimSpace(l)
			if l == "end" {
				done <- ls
				return
			}
			ls = append(ls, l)
		}
	}()
	var ls []string
	select {
	case ls = <-done:
	case <-time.After(time.Duration(s.tmo)*time.Millisecond*3 + 2*time.Second):
	}
	if len(ls) == 0 {
		s.Close()
		return RUnknown, nil
	}
	switch {
	case ls[0] == "unsat":
		return RUnsat, nil
	case ls[0] != "sat" || len(ls) < 3:
		return RUnknown, nil
	}
	x := strings.NewReplacer("(", "", ")", "", " ", "").Replace(ls[2])
	base := 10
	if strings.HasPrefix(x, "#x") {
		x, base = x[2:], 16
	} else if strings.HasPrefix(x, "#b") {
		x, base = x[2:], 2
	}
	k, ok := new(big.Int).SetString(x, base)
	if !ok {
		return RUnknown, nil
	}
	return RSat, k
}
