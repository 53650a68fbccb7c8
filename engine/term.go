package main

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"sort"
	"strings"
)

// Sorts of terms.
type Kind uint8

const (
	KBool Kind = iota
	KBV
	KInt
	KReal
	KF32
	KF64
)

type Sort struct {
	K Kind
	W int // bit width for KBV
}

var (
	SBool = Sort{KBool, 0}
	SInt  = Sort{KInt, 0}
	SReal = Sort{KReal, 0}
	SF32  = Sort{KF32, 32}
	SF64  = Sort{KF64, 64}
)

func BV(w int) Sort { return Sort{KBV, w} }

func (s Sort) SMT() string {
	switch s.K {
	case KBool:
		return "Bool"
	case KBV:
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	case KInt:
		return "Int"
	case KReal:
		return "Real"
	case KF32:
		return "(_ FloatingPoint 8 24)"
	case KF64:
		return "(_ FloatingPoint 11 53)"
	}
	panic("sort")
}

type Op uint8

const (
	OConst Op = iota // U for BV/Bool/FP bits, R for Int/Real
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq // BV, Bool, FP (bitwise-ish structural equality)
	// numeric (Int/Real)
	OPoly
	OFrac
	OLe0
	OLt0
	OEq0
	OMul   // opaque product
	OIDiv  // floor division by a positive constant or general SMT div
	OIMod  // SMT mod
	OFloor // Real -> Int
	OUF    // uninterpreted application with sort S, Name
	// BV
	OBAdd
	OBSub
	OBMul
	OBUdiv
	OBUrem
	OBSdiv
	OBSrem
	OBAnd
	OBOr
	OBXor
	OBNot
	OBNeg
	OBShl
	OBLshr
	OBAshr
	OBUlt
	OBUle
	OBSlt
	OBSle
	OBConcat
	OBExtract // P0 hi, P1 lo
	OBZext
	OBSext
	OBV2Int // P0=1 signed
	OInt2BV
	// FP
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFSqrt
	OFLt
	OFLe
	OFEq
	OFIsNaN
	OFIsInf
	OFRound // P0: 0 RNE 1 RTZ(trunc) 2 RTN(floor) 3 RTP(ceil)
	OFFromBits
	OFToBits
	OFCvt  // f32<->f64
	OF2SBV // to signed bv, RTZ
	OF2UBV
	OSBV2F
	OUBV2F
)

type Term struct {
	ID     int
	Op     Op
	S      Sort
	A      []*Term
	U      uint64
	R      *big.Rat
	Name   string
	P0, P1 int
	P      *Poly
	// OFrac: P numerator, D denominators
	D  []dfac
	Lo *big.Rat
	Hi *big.Rat
	// bounds computed
	udone    bool
	ulo, uhi uint64
	bdone    bool
}

type dfac struct {
	t *Term // OPoly or atom, canonical with leading coef 1
	e int
}

type vp struct {
	t *Term
	e int
}
type mono struct {
	id int
	vs []vp // sorted by term ID
	dg int
}
type pterm struct {
	m *mono
	c *big.Rat
}
type Poly struct {
	ts []pterm // sorted by mono id descending? ascending id
}

type Ctx struct {
	tab     map[string]*Term
	monos   map[string]*mono
	n       int
	one     *mono
	True    *Term
	False   *Term
	bvc     [65][256]*Term
	Expand  bool // expand products of non-constant polynomials
	MaxMono int
	nfresh  int
	Vars    []*Term

	StepCap, nstep, stepStride int
	steps                      []step
	stepSeen                   map[stepKey]struct{}
	stepMore                   bool
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, monos: map[string]*mono{}, Expand: true, MaxMono: 4000, stepStride: 1, stepSeen: map[stepKey]struct{}{}}
	c.one = c.mkMono(nil)
	c.True = c.intern(&Term{Op: OConst, S: SBool, U: 1})
	c.False = c.intern(&Term{Op: OConst, S: SBool, U: 0})
	return c
}

func (c *Ctx) intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteByte(byte(t.Op) + 1)
	sb.WriteByte(byte(t.S.K))
	sb.WriteByte(byte(t.S.W))
	switch t.Op {
	case OConst:
		if t.R != nil {
			sb.WriteString(t.R.RatString())
		} else {
			putU(&sb, t.U)
		}
	case OPoly, OFrac, OLe0, OLt0, OEq0:
		if t.P != nil {
			for _, x := range t.P.ts {
				putU(&sb, uint64(x.m.id))
				sb.WriteString(x.c.RatString())
				sb.WriteByte('|')
			}
		}
		for _, d := range t.D {
			putU(&sb, uint64(d.t.ID))
			putU(&sb, uint64(d.e))
		}
		for _, a := range t.A {
			putU(&sb, uint64(a.ID))
		}
	default:
		sb.WriteString(t.Name)
		sb.WriteByte(0)
		putU(&sb, uint64(t.P0)<<32|uint64(uint32(t.P1)))
		for _, a := range t.A {
			putU(&sb, uint64(a.ID))
		}
	}
	k := sb.String()
	if o, ok := c.tab[k]; ok {
		return o
	}
	c.n++
	t.ID = c.n
	c.tab[k] = t
	return t
}

func putU(sb *strings.Builder, u uint64) {
	var b [8]byte
	for i := 0; i < 8; i++ {
		b[i] = byte(u >> (8 * uint(i)))
	}
	sb.Write(b[:])
}

func (t *Term) IsConst() bool { return t.Op == OConst }
func (t *Term) IsTrue() bool  { return t.Op == OConst && t.S.K == KBool && t.U == 1 }
func (t *Term) IsFalse() bool { return t.Op == OConst && t.S.K == KBool && t.U == 0 }

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}

func sext(u uint64, w int) int64 {
	if w >= 64 {
		return int64(u)
	}
	return int64(u<<uint(64-w)) >> uint(64-w)
}

func (c *Ctx) BVc(w int, u uint64) *Term {
	u &= mask(w)
	if u < 256 {
		if t := c.bvc[w][u]; t != nil {
			return t
		}
	}
	t := c.intern(&Term{Op: OConst, S: BV(w), U: u})
	if u < 256 {
		c.bvc[w][u] = t
	}
	return t
}

func (c *Ctx) BoolC(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) Num(s Sort, r *big.Rat) *Term {
	return c.intern(&Term{Op: OConst, S: s, R: r})
}
func (c *Ctx) IntC(i int64) *Term  { return c.Num(SInt, new(big.Rat).SetInt64(i)) }
func (c *Ctx) RealC(i int64) *Term { return c.Num(SReal, new(big.Rat).SetInt64(i)) }

func (c *Ctx) Var(name string, s Sort, lo, hi *big.Rat) *Term {
	n := c.n
	t := c.intern(&Term{Op: OVar, S: s, Name: name})
	if c.n != n {
		t.Lo, t.Hi, t.bdone = lo, hi, true
		c.Vars = append(c.Vars, t)
	}
	return t
}

func (c *Ctx) Fresh(pfx string, s Sort) *Term {
	c.nfresh++
	return c.Var(fmt.Sprintf("%s!%d", pfx, c.nfresh), s, nil, nil)
}

// ---------- booleans

func (c *Ctx) Not(a *Term) *Term {
	switch a.Op {
	case OConst:
		return c.BoolC(a.U == 0)
	case ONot:
		return a.A[0]
	}
	return c.intern(&Term{Op: ONot, S: SBool, A: []*Term{a}})
}

func isNegOf(a, b *Term) bool {
	return (a.Op == ONot && a.A[0] == b) || (b.Op == ONot && b.A[0] == a)
}

func (c *Ctx) And(xs ...*Term) *Term {
	r := c.nary(OAnd, xs)
	c.recN(stAnd, xs, r)
	return r
}
func (c *Ctx) Or(xs ...*Term) *Term {
	r := c.nary(OOr, xs)
	c.recN(stOr, xs, r)
	return r
}

func (c *Ctx) nary(op Op, xs []*Term) *Term {
	neutral, absorb := c.True, c.False
	dual := OOr
	if op == OOr {
		neutral, absorb = c.False, c.True
		dual = OAnd
	}
	var out []*Term
	seen := map[int]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == neutral {
			return true
		}
		if x == absorb {
			return false
		}
		if x.Op == op {
			for _, y := range x.A {
				if !add(y) {
					return false
				}
			}
			return true
		}
		// not(dual(..)) == op(not ..)
		if x.Op == ONot && x.A[0].Op == dual {
			for _, y := range x.A[0].A {
				if !add(c.Not(y)) {
					return false
				}
			}
			return true
		}
		if seen[x.ID] {
			return true
		}
		seen[x.ID] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return absorb
		}
	}
	// complement detection and absorption
	for _, x := range out {
		if seen[c.Not(x).ID] {
			return absorb
		}
	}
	changed := false
	for i, x := range out {
		if x == nil {
			continue
		}
		if x.Op == dual || (x.Op == ONot && x.A[0].Op == op) {
			// dual members (disjuncts of a conjunct)
			var ms []*Term
			if x.Op == dual {
				ms = x.A
			} else {
				for _, y := range x.A[0].A {
					ms = append(ms, c.Not(y))
				}
			}
			var keep []*Term
			drop := false
			red := false
			for _, m := range ms {
				if seen[m.ID] && m != x {
					drop = true // absorbed: x implied
					break
				}
				if seen[c.Not(m).ID] {
					red = true
					continue
				}
				keep = append(keep, m)
			}
			if drop {
				out[i] = neutral
				changed = true
			} else if red {
				out[i] = c.nary(dual, keep)
				changed = true
			}
		}
	}
	if changed {
		return c.nary(op, out)
	}
	switch len(out) {
	case 0:
		return neutral
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	// complement of whole: or(c,d) vs and(!c,!d) handled by flattening not(dual)
	return c.intern(&Term{Op: op, S: SBool, A: out})
}

func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(g, a, b *Term) *Term {
	r := c.ite0(g, a, b)
	if r.S == a.S && r.S == b.S {
		c.rec(stIte, 0, g, a, b, 0, 0, r)
	}
	return r
}

func (c *Ctx) ite0(g, a, b *Term) *Term {
	if a == b {
		return a
	}
	if g.IsTrue() {
		return a
	}
	if g.IsFalse() {
		return b
	}
	if g.Op == ONot {
		return c.Ite(g.A[0], b, a)
	}
	if a.S != b.S {
		a, b = c.unify(a, b)
		if a == b {
			return a
		}
	}
	if a.S.K == KBool {
		if a.IsTrue() {
			return c.Or(g, b)
		}
		if a.IsFalse() {
			return c.And(c.Not(g), b)
		}
		if b.IsTrue() {
			return c.Or(c.Not(g), a)
		}
		if b.IsFalse() {
			return c.And(g, a)
		}
		if a == c.Not(b) {
			return c.Or(c.And(g, a), c.And(c.Not(g), b))
		}
	}
	if a.Op == OIte && a.A[0] == g {
		return c.Ite(g, a.A[1], b)
	}
	if b.Op == OIte && b.A[0] == g {
		return c.Ite(g, a, b.A[2])
	}
	if b.Op == OIte && b.A[1] == a { // ite(g,a,ite(h,a,x)) = ite(g|h,a,x)
		return c.Ite(c.Or(g, b.A[0]), a, b.A[2])
	}
	if a.Op == OIte && a.A[2] == b { // ite(g, ite(h,x,b), b)
		return c.Ite(c.And(g, a.A[0]), a.A[1], b)
	}
	return c.intern(&Term{Op: OIte, S: a.S, A: []*Term{g, a, b}})
}

// unify brings two terms of different numeric sorts to a common one.
func (c *Ctx) unify(a, b *Term) (*Term, *Term) {
	if a.S == b.S {
		return a, b
	}
	if a.S.K == KInt && b.S.K == KBV {
		return a, c.ToInt(b, true)
	}
	if b.S.K == KInt && a.S.K == KBV {
		return c.ToInt(a, true), b
	}
	if a.S.K == KReal && b.S.K == KInt {
		return a, c.ToReal(b)
	}
	if b.S.K == KReal && a.S.K == KInt {
		return c.ToReal(a), b
	}
	panic(unsup("unify sorts %v %v", a.S, b.S))
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		if a.S.K == KF32 || a.S.K == KF64 {
			return c.True
		}
		return c.True
	}
	if a.S != b.S {
		a, b = c.unify(a, b)
	}
	switch a.S.K {
	case KInt, KReal:
		return c.NumCmp(OEq0, a, b)
	case KBool:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsTrue() {
			return a
		}
		if b.IsFalse() {
			return c.Not(a)
		}
	}
	if a.IsConst() && b.IsConst() {
		return c.BoolC(a.U == b.U)
	}
	if a.S.K == KBV {
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() && a.Op == OIte && (a.A[1].IsConst() || a.A[2].IsConst()) {
			return c.Ite(a.A[0], c.Eq(a.A[1], b), c.Eq(a.A[2], b))
		}
		if b.IsConst() && a.Op == OBZext {
			w := a.A[0].S.W
			if b.U > mask(w) {
				return c.False
			}
			return c.Eq(a.A[0], c.BVc(w, b.U))
		}
		if b.IsConst() && a.Op == OBConcat {
			lw := a.A[1].S.W
			return c.And(c.Eq(a.A[0], c.BVc(a.A[0].S.W, b.U>>uint(lw))), c.Eq(a.A[1], c.BVc(lw, b.U)))
		}
		if b.Op == OBConcat && a.Op == OBConcat && a.A[1].S == b.A[1].S {
			return c.And(c.Eq(a.A[0], b.A[0]), c.Eq(a.A[1], b.A[1]))
		}
		if lo, hi := ubounds(a); true {
			lo2, hi2 := ubounds(b)
			if hi < lo2 || hi2 < lo {
				return c.False
			}
		}
	}
	if a.Op == OFFromBits && b.Op == OFFromBits {
		// keep as is: FP equality of same bits only
		return c.Eq(a.A[0], b.A[0])
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.intern(&Term{Op: OEq, S: SBool, A: []*Term{a, b}})
}

// ---------- numeric polynomials

func (c *Ctx) mkMono(vs []vp) *mono {
	var sb strings.Builder
	dg := 0
	for _, v := range vs {
		putU(&sb, uint64(v.t.ID)<<8|uint64(v.e))
		dg += v.e
	}
	k := sb.String()
	if m, ok := c.monos[k]; ok {
		return m
	}
	m := &mono{id: len(c.monos), vs: vs, dg: dg}
	c.monos[k] = m
	return m
}

func (c *Ctx) mulMono(a, b *mono) *mono {
	if a == c.one {
		return b
	}
	if b == c.one {
		return a
	}
	vs := make([]vp, 0, len(a.vs)+len(b.vs))
	i, j := 0, 0
	for i < len(a.vs) || j < len(b.vs) {
		switch {
		case j >= len(b.vs) || (i < len(a.vs) && a.vs[i].t.ID < b.vs[j].t.ID):
			vs = append(vs, a.vs[i])
			i++
		case i >= len(a.vs) || b.vs[j].t.ID < a.vs[i].t.ID:
			vs = append(vs, b.vs[j])
			j++
		default:
			vs = append(vs, vp{a.vs[i].t, a.vs[i].e + b.vs[j].e})
			i++
			j++
		}
	}
	return c.mkMono(vs)
}

var ratZero = new(big.Rat)
var ratOne = big.NewRat(1, 1)

func constPoly(c *Ctx, r *big.Rat) *Poly {
	if r.Sign() == 0 {
		return &Poly{}
	}
	return &Poly{[]pterm{{c.one, r}}}
}

func (c *Ctx) toPoly(t *Term) *Poly {
	switch t.Op {
	case OConst:
		return constPoly(c, t.R)
	case OPoly:
		return t.P
	}
	return &Poly{[]pterm{{c.mkMono([]vp{{t, 1}}), ratOne}}}
}

func (p *Poly) isConst(c *Ctx) (*big.Rat, bool) {
	if len(p.ts) == 0 {
		return ratZero, true
	}
	if len(p.ts) == 1 && p.ts[0].m == c.one {
		return p.ts[0].c, true
	}
	return nil, false
}

func (c *Ctx) fromPoly(p *Poly, s Sort) *Term {
	if r, ok := p.isConst(c); ok {
		return c.Num(s, r)
	}
	if len(p.ts) == 1 {
		x := p.ts[0]
		if len(x.m.vs) == 1 && x.m.vs[0].e == 1 && x.c.Cmp(ratOne) == 0 && x.m.vs[0].t.S == s {
			return x.m.vs[0].t
		}
	}
	return c.intern(&Term{Op: OPoly, S: s, P: p})
}

func polyAdd(a, b *Poly, sb int) *Poly {
	out := make([]pterm, 0, len(a.ts)+len(b.ts))
	i, j := 0, 0
	for i < len(a.ts) || j < len(b.ts) {
		switch {
		case j >= len(b.ts) || (i < len(a.ts) && a.ts[i].m.id < b.ts[j].m.id):
			out = append(out, a.ts[i])
			i++
		case i >= len(a.ts) || b.ts[j].m.id < a.ts[i].m.id:
			x := b.ts[j]
			if sb < 0 {
				x.c = new(big.Rat).Neg(x.c)
			}
			out = append(out, x)
			j++
		default:
			r := new(big.Rat)
			if sb < 0 {
				r.Sub(a.ts[i].c, b.ts[j].c)
			} else {
				r.Add(a.ts[i].c, b.ts[j].c)
			}
			if r.Sign() != 0 {
				out = append(out, pterm{a.ts[i].m, r})
			}
			i++
			j++
		}
	}
	return &Poly{out}
}

func polyScale(a *Poly, k *big.Rat) *Poly {
	if k.Sign() == 0 {
		return &Poly{}
	}
	if k.Cmp(ratOne) == 0 {
		return a
	}
	out := make([]pterm, len(a.ts))
	for i, x := range a.ts {
		out[i] = pterm{x.m, new(big.Rat).Mul(x.c, k)}
	}
	return &Poly{out}
}

func (c *Ctx) polyMul(a, b *Poly) *Poly {
	if r, ok := a.isConst(c); ok {
		return polyScale(b, r)
	}
	if r, ok := b.isConst(c); ok {
		return polyScale(a, r)
	}
	acc := map[*mono]*big.Rat{}
	for _, x := range a.ts {
		for _, y := range b.ts {
			m := c.mulMono(x.m, y.m)
			r := new(big.Rat).Mul(x.c, y.c)
			if o, ok := acc[m]; ok {
				o.Add(o, r)
			} else {
				acc[m] = r
			}
		}
	}
	return c.reducePoly(acc)
}

// rootOf is the order of a root atom, 0 for other atoms.
func rootOf(t *Term) int {
	if t.Op == OUF {
		switch t.Name {
		case "sqrt":
			return 2
		case "cbrt":
			return 3
		}
	}
	return 0
}

// reducePoly normalises root atoms whose exponent reaches the root's order.
func (c *Ctx) reducePoly(acc map[*mono]*big.Rat) *Poly {
	for {
		var bad *mono
		for m, r := range acc {
			if r.Sign() == 0 {
				continue
			}
			for _, v := range m.vs {
				if k := rootOf(v.t); k > 0 && v.e >= k && v.t.A[0].Op != OFrac {
					bad = m
				}
			}
		}
		if bad == nil {
			break
		}
		r := acc[bad]
		delete(acc, bad)
		p := constPoly(c, r)
		var rest []vp
		for _, v := range bad.vs {
			if k := rootOf(v.t); k > 0 && v.e >= k && v.t.A[0].Op != OFrac {
				q := c.toPoly(v.t.A[0])
				for i := 0; i < v.e/k; i++ {
					p = c.polyMul(p, q)
				}
				if v.e%k > 0 {
					rest = append(rest, vp{v.t, v.e % k})
				}
			} else {
				rest = append(rest, v)
			}
		}
		rm := c.mkMono(rest)
		if rm == bad {
			acc[bad] = r
			break
		}
		for _, x := range p.ts {
			m := c.mulMono(x.m, rm)
			if o, ok := acc[m]; ok {
				o.Add(o, x.c)
			} else {
				acc[m] = new(big.Rat).Set(x.c)
			}
		}
	}
	out := make([]pterm, 0, len(acc))
	for m, r := range acc {
		if r.Sign() != 0 {
			out = append(out, pterm{m, r})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].m.id < out[j].m.id })
	return &Poly{out}
}

func (c *Ctx) ToReal(t *Term) *Term {
	if t.S.K == KReal {
		return t
	}
	if t.S.K == KBV {
		return c.ToReal(c.ToInt(t, true))
	}
	if t.Op == OIte && constLeaves(t, 24) {
		return c.Ite(t.A[0], c.ToReal(t.A[1]), c.ToReal(t.A[2]))
	}
	p := c.toPoly(t)
	// constants or polys over Int atoms: reuse atoms (emitted with to_real)
	if r, ok := p.isConst(c); ok {
		return c.Num(SReal, r)
	}
	return c.intern(&Term{Op: OPoly, S: SReal, P: p})
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.S != b.S {
		a, b = c.unify(a, b)
	}
	r := c.addsub(a, b, 1)
	c.rec(stAdd, 0, a, b, nil, 0, 0, r)
	return r
}
func (c *Ctx) Sub(a, b *Term) *Term {
	if a.S != b.S {
		a, b = c.unify(a, b)
	}
	r := c.addsub(a, b, -1)
	c.rec(stSub, 0, a, b, nil, 0, 0, r)
	return r
}

func (c *Ctx) addsub(a, b *Term, s int) *Term {
	if a.S != b.S {
		a, b = c.unify(a, b)
	}
	if a.Op == OFrac || b.Op == OFrac {
		return c.fracAdd(a, b, s)
	}
	return c.fromPoly(polyAdd(c.toPoly(a), c.toPoly(b), s), a.S)
}

func (c *Ctx) Neg(a *Term) *Term { return c.Scale(a, big.NewRat(-1, 1)) }

func (c *Ctx) Scale(a *Term, k *big.Rat) *Term {
	if a.Op == OFrac {
		return c.mkFrac(polyScale(a.P, k), a.D, a.S)
	}
	return c.fromPoly(polyScale(c.toPoly(a), k), a.S)
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.S != b.S {
		a, b = c.unify(a, b)
	}
	r := c.mul0(a, b)
	c.rec(stMul, 0, a, b, nil, 0, 0, r)
	return r
}

func (c *Ctx) mul0(a, b *Term) *Term {
	if a.S != b.S {
		a, b = c.unify(a, b)
	}
	if a.Op == OFrac || b.Op == OFrac {
		return c.fracMul(a, b)
	}
	pa, pb := c.toPoly(a), c.toPoly(b)
	if r, ok := pa.isConst(c); ok {
		return c.fromPoly(polyScale(pb, r), a.S)
	}
	if r, ok := pb.isConst(c); ok {
		return c.fromPoly(polyScale(pa, r), a.S)
	}
	if len(pa.ts) == 1 && len(pb.ts) == 1 || (c.Expand && len(pa.ts)*len(pb.ts) <= c.MaxMono) {
		return c.fromPoly(c.polyMul(pa, pb), a.S)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.intern(&Term{Op: OMul, S: a.S, A: []*Term{a, b}})
}

// primitive returns p scaled to leading coefficient 1 and that coefficient.
func (c *Ctx) primitive(p *Poly) (*Poly, *big.Rat) {
	l := p.ts[len(p.ts)-1].c
	if l.Cmp(ratOne) == 0 {
		return p, l
	}
	return polyScale(p, new(big.Rat).Inv(l)), l
}

func (c *Ctx) Div(a, b *Term) *Term {
	a, b = c.ToReal(a), c.ToReal(b)
	r := c.div0(a, b)
	if !b.IsConst() || b.R.Sign() != 0 {
		c.rec(stDiv, 0, a, b, nil, 0, 0, r)
	}
	return r
}

func (c *Ctx) div0(a, b *Term) *Term { // Real
	a, b = c.ToReal(a), c.ToReal(b)
	if b.IsConst() {
		if b.R.Sign() == 0 {
			return c.intern(&Term{Op: OUF, S: SReal, Name: "div0", A: []*Term{a}})
		}
		return c.Scale(a, new(big.Rat).Inv(b.R))
	}
	if b.Op == OFrac {
		// a / (n/d) = a*d / n
		num := a
		for _, d := range b.D {
			for k := 0; k < d.e; k++ {
				num = c.Mul(num, c.asReal(d.t))
			}
		}
		return c.Div(num, c.fromPoly(b.P, SReal))
	}
	p := c.toPoly(b)
	pr, l := c.primitive(p)
	inv := new(big.Rat).Inv(l)
	ds := []dfac{{c.polyTerm(pr), 1}}
	if len(pr.ts) == 1 { // monomial denominators: factor
		ds = nil
		for _, v := range pr.ts[0].m.vs {
			ds = append(ds, dfac{v.t, v.e})
		}
	}
	if a.Op == OFrac {
		return c.mkFrac(polyScale(a.P, inv), mergeD(a.D, ds), SReal)
	}
	return c.mkFrac(polyScale(c.toPoly(a), inv), ds, SReal)
}

func (c *Ctx) asReal(t *Term) *Term {
	if t.S.K == KReal {
		return t
	}
	return c.ToReal(t)
}

func (c *Ctx) polyTerm(p *Poly) *Term { return c.fromPoly(p, SReal) }

func mergeD(a, b []dfac) []dfac {
	m := map[int]dfac{}
	for _, x := range a {
		m[x.t.ID] = x
	}
	for _, x := range b {
		if o, ok := m[x.t.ID]; ok {
			o.e += x.e
			m[x.t.ID] = o
		} else {
			m[x.t.ID] = x
		}
	}
	return sortD(m)
}

func sortD(m map[int]dfac) []dfac {
	out := make([]dfac, 0, len(m))
	for _, x := range m {
		if x.e > 0 {
			out = append(out, x)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].t.ID < out[j].t.ID })
	return out
}

func (c *Ctx) fracParts(a *Term) (*Poly, []dfac) {
	if a.Op == OFrac {
		return a.P, a.D
	}
	return c.toPoly(a), nil
}

func (c *Ctx) mulFac(p *Poly, t *Term, e int) *Poly {
	q := c.toPoly(t)
	for k := 0; k < e; k++ {
		p = c.polyMul(p, q)
	}
	return p
}

func (c *Ctx) fracAdd(a, b *Term, s int) *Term {
	pa, da := c.fracParts(a)
	pb, db := c.fracParts(b)
	m := map[int]dfac{}
	for _, x := range da {
		m[x.t.ID] = x
	}
	for _, x := range db {
		if o, ok := m[x.t.ID]; !ok || o.e < x.e {
			m[x.t.ID] = x
		}
	}
	l := sortD(m)
	get := func(d []dfac, id int) int {
		for _, x := range d {
			if x.t.ID == id {
				return x.e
			}
		}
		return 0
	}
	for _, x := range l {
		pa = c.mulFac(pa, x.t, x.e-get(da, x.t.ID))
		pb = c.mulFac(pb, x.t, x.e-get(db, x.t.ID))
	}
	return c.mkFrac(polyAdd(pa, pb, s), l, SReal)
}

func (c *Ctx) fracMul(a, b *Term) *Term {
	pa, da := c.fracParts(a)
	pb, db := c.fracParts(b)
	return c.mkFrac(c.polyMul(pa, pb), mergeD(da, db), SReal)
}

func (c *Ctx) mkFrac(p *Poly, d []dfac, s Sort) *Term {
	if len(p.ts) == 0 {
		return c.Num(s, ratZero)
	}
	m := map[int]dfac{}
	for _, x := range d {
		m[x.t.ID] = x
	}
	for _, x := range d {
		e := x.e
		for e > 0 {
			q, ok := c.exactDiv(p, c.toPoly(x.t))
			if !ok {
				break
			}
			p = q
			e--
		}
		x.e = e
		m[x.t.ID] = x
	}
	ds := sortD(m)
	if len(ds) == 0 {
		return c.fromPoly(p, s)
	}
	return c.intern(&Term{Op: OFrac, S: s, P: p, D: ds})
}

// monomial order for division: total degree, then lexicographic on ids.
func monoLess(a, b *mono) bool {
	if a.dg != b.dg {
		return a.dg < b.dg
	}
	i := 0
	for i < len(a.vs) && i < len(b.vs) {
		if a.vs[i].t.ID != b.vs[i].t.ID {
			return a.vs[i].t.ID > b.vs[i].t.ID
		}
		if a.vs[i].e != b.vs[i].e {
			return a.vs[i].e < b.vs[i].e
		}
		i++
	}
	return len(a.vs) < len(b.vs)
}

func leadTerm(p *Poly) pterm {
	l := p.ts[0]
	for _, x := range p.ts[1:] {
		if monoLess(l.m, x.m) {
			l = x
		}
	}
	return l
}

func (c *Ctx) divMono(a, b *mono) (*mono, bool) {
	var vs []vp
	j := 0
	for _, v := range a.vs {
		if j < len(b.vs) && b.vs[j].t == v.t {
			e := v.e - b.vs[j].e
			if e < 0 {
				return nil, false
			}
			if e > 0 {
				vs = append(vs, vp{v.t, e})
			}
			j++
		} else {
			vs = append(vs, v)
		}
	}
	if j < len(b.vs) {
		return nil, false
	}
	return c.mkMono(vs), true
}

func (c *Ctx) exactDiv(p, q *Poly) (*Poly, bool) {
	if len(q.ts) == 1 {
		out := make([]pterm, 0, len(p.ts))
		for _, x := range p.ts {
			m, ok := c.divMono(x.m, q.ts[0].m)
			if !ok {
				return nil, false
			}
			out = append(out, pterm{m, new(big.Rat).Quo(x.c, q.ts[0].c)})
		}
		sort.Slice(out, func(i, j int) bool { return out[i].m.id < out[j].m.id })
		return &Poly{out}, true
	}
	lq := leadTerm(q)
	quo := &Poly{}
	rem := p
	for steps := 0; len(rem.ts) > 0; steps++ {
		if steps > 500 {
			return nil, false
		}
		lr := leadTerm(rem)
		m, ok := c.divMono(lr.m, lq.m)
		if !ok {
			return nil, false
		}
		k := &Poly{[]pterm{{m, new(big.Rat).Quo(lr.c, lq.c)}}}
		quo = polyAdd(quo, k, 1)
		rem = polyAdd(rem, c.polyMul(k, q), -1)
	}
	return quo, true
}

// NumCmp builds a REL b for REL in {OLe0,OLt0,OEq0} over Int/Real.
func (c *Ctx) NumCmp(op Op, a, b *Term) *Term {
	if a.S != b.S {
		a, b = c.unify(a, b)
	}
	r := c.numCmp0(op, a, b)
	c.rec(stCmp, op, a, b, nil, 0, 0, r)
	return r
}

func (c *Ctx) numCmp0(op Op, a, b *Term) *Term {
	if a.S != b.S {
		a, b = c.unify(a, b)
	}
	if a == b {
		return c.BoolC(op != OLt0)
	}
	// push through ites with constant leaves
	if b.IsConst() && a.Op == OIte && (constLeaves(a, 24)) {
		return c.Ite(a.A[0], c.NumCmp(op, a.A[1], b), c.NumCmp(op, a.A[2], b))
	}
	if a.IsConst() && b.Op == OIte && (constLeaves(b, 24)) {
		return c.Ite(b.A[0], c.NumCmp(op, a, b.A[1]), c.NumCmp(op, a, b.A[2]))
	}
	d := c.Sub(a, b)
	if d.IsConst() {
		s := d.R.Sign()
		switch op {
		case OLe0:
			return c.BoolC(s <= 0)
		case OLt0:
			return c.BoolC(s < 0)
		default:
			return c.BoolC(s == 0)
		}
	}
	lo, hi := c.bounds(d)
	switch op {
	case OLe0:
		if hi != nil && hi.Sign() <= 0 {
			return c.True
		}
		if lo != nil && lo.Sign() > 0 {
			return c.False
		}
	case OLt0:
		if hi != nil && hi.Sign() < 0 {
			return c.True
		}
		if lo != nil && lo.Sign() >= 0 {
			return c.False
		}
	case OEq0:
		if hi != nil && hi.Sign() < 0 || lo != nil && lo.Sign() > 0 {
			return c.False
		}
	}
	if d.Op == OFrac {
		if op == OEq0 {
			// denominators are nonzero by side condition
			return c.NumCmp(OEq0, c.fromPoly(d.P, SReal), c.RealC(0))
		}
		return c.intern(&Term{Op: op, S: SBool, P: d.P, D: d.D, P0: 1})
	}
	p := c.toPoly(d)
	isInt := d.S.K == KInt || c.allIntAtoms(p)
	if isInt {
		// make coefficients integral & primitive
		p = intPrimitive(c, p)
		if op == OLt0 { // p<0 <=> p+1<=0
			p = polyAdd(p, constPoly(c, ratOne), 1)
			op = OLe0
		}
		if op == OLe0 {
			p = tighten(c, p)
			if r, ok := p.isConst(c); ok {
				return c.BoolC(r.Sign() <= 0)
			}
		}
	}
	// canonical sign: leading (last) coefficient positive
	l := leadNonConst(c, p)
	if l.Sign() < 0 {
		p = polyScale(p, big.NewRat(-1, 1))
		switch op {
		case OLe0: // -p<=0 => p>=0 => !(p<0)
			if isInt { // !(p+1<=0)
				q := polyAdd(p, constPoly(c, ratOne), 1)
				return c.Not(c.mkRel(OLe0, q, isInt))
			}
			return c.Not(c.mkRel(OLt0, p, isInt))
		case OLt0: // -p<0 => p>0 => !(p<=0)
			return c.Not(c.mkRel(OLe0, p, isInt))
		}
	}
	if op == OEq0 && !isInt {
		p, _ = c.primitive(p)
	}
	return c.mkRel(op, p, isInt)
}

func leadNonConst(c *Ctx, p *Poly) *big.Rat {
	for i := len(p.ts) - 1; i >= 0; i-- {
		if p.ts[i].m != c.one {
			return p.ts[i].c
		}
	}
	return ratOne
}

func (c *Ctx) mkRel(op Op, p *Poly, isInt bool) *Term {
	if !isInt {
		// scale so that the leading coefficient is 1 (positive already)
		l := new(big.Rat).Abs(leadNonConst(c, p))
		if l.Cmp(ratOne) != 0 {
			p = polyScale(p, new(big.Rat).Inv(l))
		}
	}
	return c.intern(&Term{Op: op, S: SBool, P: p})
}

func (c *Ctx) allIntAtoms(p *Poly) bool {
	for _, x := range p.ts {
		for _, v := range x.m.vs {
			if v.t.S.K != KInt {
				return false
			}
		}
	}
	return true
}

func intPrimitive(c *Ctx, p *Poly) *Poly {
	l := big.NewInt(1)
	for _, x := range p.ts {
		d := x.c.Denom()
		g := new(big.Int).GCD(nil, nil, l, d)
		l = new(big.Int).Mul(l, new(big.Int).Quo(d, g))
	}
	if l.Cmp(big.NewInt(1)) != 0 {
		p = polyScale(p, new(big.Rat).SetInt(l))
	}
	return p
}

// tighten divides p<=0 by the gcd of non-constant coefs, flooring the constant.
func tighten(c *Ctx, p *Poly) *Poly {
	g := new(big.Int)
	for _, x := range p.ts {
		if x.m != c.one {
			g.GCD(nil, nil, g, new(big.Int).Abs(x.c.Num()))
		}
	}
	if g.Sign() == 0 || g.Cmp(big.NewInt(1)) == 0 {
		return p
	}
	out := make([]pterm, 0, len(p.ts))
	for _, x := range p.ts {
		if x.m != c.one {
			out = append(out, pterm{x.m, new(big.Rat).SetInt(new(big.Int).Quo(x.c.Num(), g))})
			continue
		}
		// s*g + k <= 0  <=> s <= floor(-k/g) <=> s - floor(-k/g) <= 0 ; -floor(-k/g) = ceil(k/g)
		k := x.c.Num()
		q := new(big.Int).Neg(floorDiv(new(big.Int).Neg(k), g))
		if q.Sign() != 0 {
			out = append(out, pterm{x.m, new(big.Rat).SetInt(q)})
		}
	}
	return &Poly{out}
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int).QuoRem(a, b, new(big.Int))
	if m.Sign() != 0 && (m.Sign() < 0) != (b.Sign() < 0) {
		q.Sub(q, big.NewInt(1))
	}
	return q
}

// ---------- bounds

func (c *Ctx) bounds(t *Term) (*big.Rat, *big.Rat) {
	if t.Op == OConst {
		return t.R, t.R
	}
	if t.bdone {
		return t.Lo, t.Hi
	}
	t.bdone = true
	switch t.Op {
	case OIte:
		l1, h1 := c.bounds(t.A[1])
		l2, h2 := c.bounds(t.A[2])
		t.Lo, t.Hi = rmin(l1, l2), rmax(h1, h2)
	case OPoly:
		t.Lo, t.Hi = c.polyBounds(t.P)
	case OFrac:
		// sign-definite denominators only
		l, h := c.polyBounds(t.P)
		pos := true
		for _, d := range t.D {
			dl, _ := c.bounds(d.t)
			if d.e%2 == 1 && (dl == nil || dl.Sign() <= 0) {
				pos = false
			}
		}
		if pos {
			if l != nil && l.Sign() >= 0 {
				t.Lo = ratZero
			}
			if h != nil && h.Sign() <= 0 {
				t.Hi = ratZero
			}
		}
	case OMul:
		l1, h1 := c.bounds(t.A[0])
		l2, h2 := c.bounds(t.A[1])
		t.Lo, t.Hi = imul(l1, h1, l2, h2)
		if t.A[0] == t.A[1] && (t.Lo == nil || t.Lo.Sign() < 0) {
			t.Lo = ratZero
		}
	case OFloor:
		l, h := c.bounds(t.A[0])
		if l != nil {
			t.Lo = new(big.Rat).SetInt(floorDiv(l.Num(), l.Denom()))
		}
		if h != nil {
			t.Hi = new(big.Rat).SetInt(floorDiv(h.Num(), h.Denom()))
		}
		if t.P0 > 0 { // float -> int conversion: clipped to the type's range
			m := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(t.P0-1)))
			mn := new(big.Rat).Neg(m)
			if t.Lo == nil || t.Lo.Cmp(mn) < 0 {
				t.Lo = mn
			}
			m2 := new(big.Rat).Sub(m, ratOne)
			if t.Hi == nil || t.Hi.Cmp(m2) > 0 {
				t.Hi = m2
			}
		}
	case OIMod:
		if t.A[1].IsConst() {
			t.Lo = ratZero
			t.Hi = new(big.Rat).Sub(new(big.Rat).Abs(t.A[1].R), ratOne)
		} else {
			l, h := c.bounds(t.A[1])
			if l != nil && l.Sign() > 0 {
				t.Lo = ratZero
				if h != nil {
					t.Hi = new(big.Rat).Sub(h, ratOne)
				}
			}
		}
	case OIDiv:
		l, h := c.bounds(t.A[0])
		if t.A[1].IsConst() && t.A[1].R.Sign() > 0 {
			k := t.A[1].R.Num()
			if l != nil {
				t.Lo = new(big.Rat).SetInt(floorDiv(l.Num(), k))
			}
			if h != nil {
				t.Hi = new(big.Rat).SetInt(floorDiv(h.Num(), k))
			}
		} else {
			l2, _ := c.bounds(t.A[1])
			if l != nil && l.Sign() >= 0 && l2 != nil && l2.Sign() > 0 {
				t.Lo = ratZero
				t.Hi = h
			}
		}
	case OUF:
		switch t.Name {
		case "sqrt", "exp":
			t.Lo = ratZero
		}
	case OBV2Int:
		w := t.A[0].S.W
		if t.P0 == 1 {
			t.Hi = new(big.Rat).SetInt(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w-1)), big.NewInt(1)))
			t.Lo = new(big.Rat).SetInt(new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), uint(w-1))))
			if _, h := ubounds(t.A[0]); h <= mask(w-1) {
				t.Lo = ratZero
				t.Hi = new(big.Rat).SetInt(new(big.Int).SetUint64(h))
			}
		} else {
			t.Lo = ratZero
			_, h := ubounds(t.A[0])
			t.Hi = new(big.Rat).SetInt(new(big.Int).SetUint64(h))
		}
	}
	return t.Lo, t.Hi
}

func rmin(a, b *big.Rat) *big.Rat {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) <= 0 {
		return a
	}
	return b
}
func rmax(a, b *big.Rat) *big.Rat {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) >= 0 {
		return a
	}
	return b
}

func imul(l1, h1, l2, h2 *big.Rat) (*big.Rat, *big.Rat) {
	if l1 == nil || h1 == nil || l2 == nil || h2 == nil {
		if l1 != nil && l2 != nil && l1.Sign() >= 0 && l2.Sign() >= 0 {
			lo := new(big.Rat).Mul(l1, l2)
			return lo, nil
		}
		return nil, nil
	}
	var lo, hi *big.Rat
	for _, a := range []*big.Rat{l1, h1} {
		for _, b := range []*big.Rat{l2, h2} {
			p := new(big.Rat).Mul(a, b)
			if lo == nil || p.Cmp(lo) < 0 {
				lo = p
			}
			if hi == nil || p.Cmp(hi) > 0 {
				hi = p
			}
		}
	}
	return lo, hi
}

func (c *Ctx) polyBounds(p *Poly) (*big.Rat, *big.Rat) {
	lo, hi := new(big.Rat), new(big.Rat)
	for _, x := range p.ts {
		ml, mh := ratOne, ratOne
		for _, v := range x.m.vs {
			l, h := c.bounds(v.t)
			if v.e%2 == 0 {
				// even power: nonneg
				pl, ph := l, h
				if l == nil || h == nil {
					if l != nil && l.Sign() >= 0 {
						pl, ph = l, nil
					} else {
						pl, ph = ratZero, nil
					}
				} else {
					al, ah := new(big.Rat).Abs(l), new(big.Rat).Abs(h)
					if al.Cmp(ah) > 0 {
						al, ah = ah, al
					}
					if l.Sign() <= 0 && h.Sign() >= 0 {
						al = ratZero
					}
					pl, ph = al, ah
				}
				for k := 0; k < v.e; k++ {
					ml, mh = imul(ml, mh, pl, ph)
				}
			} else {
				for k := 0; k < v.e; k++ {
					ml, mh = imul(ml, mh, l, h)
				}
			}
		}
		if x.c.Sign() < 0 {
			ml, mh = mh, ml
		}
		if ml == nil {
			lo = nil
		}
		if mh == nil {
			hi = nil
		}
		if lo != nil {
			lo = new(big.Rat).Add(lo, new(big.Rat).Mul(ml, x.c))
		}
		if hi != nil {
			hi = new(big.Rat).Add(hi, new(big.Rat).Mul(mh, x.c))
		}
		if lo == nil && hi == nil {
			break
		}
	}
	return lo, hi
}

// ubounds gives cheap unsigned bounds for BV terms.
func ubounds(t *Term) (uint64, uint64) {
	if t.udone {
		return t.ulo, t.uhi
	}
	l, h := ubounds1(t)
	if t.Op != OVar { // The bounds of variables are told later.
		t.ulo, t.uhi, t.udone = l, h, true
	}
	return l, h
}

func ubounds1(t *Term) (uint64, uint64) {
	switch t.Op {
	case OConst:
		return t.U, t.U
	case OBZext:
		return ubounds(t.A[0])
	case OIte:
		l1, h1 := ubounds(t.A[1])
		l2, h2 := ubounds(t.A[2])
		if l2 < l1 {
			l1 = l2
		}
		if h2 > h1 {
			h1 = h2
		}
		return l1, h1
	case OBAnd:
		h := mask(t.S.W)
		for _, a := range t.A {
			_, ha := ubounds(a)
			if ha < h {
				h = ha
			}
		}
		return 0, h
	case OBLshr:
		if t.A[1].IsConst() && t.A[1].U < 64 {
			l, h := ubounds(t.A[0])
			return l >> t.A[1].U, h >> t.A[1].U
		}
	case OBUrem:
		if t.A[1].IsConst() && t.A[1].U > 0 {
			return 0, t.A[1].U - 1
		}
	case OBConcat:
		l1, h1 := ubounds(t.A[0])
		l2, h2 := ubounds(t.A[1])
		w := uint(t.A[1].S.W)
		return l1<<w | l2, h1<<w | h2
	case OBAdd:
		l1, h1 := ubounds(t.A[0])
		l2, h2 := ubounds(t.A[1])
		s, cy := bits.Add64(h1, h2, 0)
		if cy == 0 && s <= mask(t.S.W) {
			return l1 + l2, s
		}
	case OVar:
		if t.bdone && t.Lo != nil && t.Hi != nil && t.Lo.Sign() >= 0 {
			return t.Lo.Num().Uint64(), t.Hi.Num().Uint64()
		}
	}
	return 0, mask(t.S.W)
}

// ---------- Int conversions

func (c *Ctx) ToInt(t *Term, signed bool) *Term {
	if t.S.K == KInt {
		return t
	}
	if t.IsConst() {
		if signed {
			return c.IntC(sext(t.U, t.S.W))
		}
		return c.Num(SInt, new(big.Rat).SetInt(new(big.Int).SetUint64(t.U)))
	}
	if t.Op == OInt2BV && !signed {
		lo, hi := c.bounds(t.A[0])
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Num().Cmp(new(big.Int).SetUint64(mask(t.S.W))) <= 0 {
			return t.A[0]
		}
	}
	if t.Op == OInt2BV && signed {
		lo, hi := c.bounds(t.A[0])
		m := new(big.Int).Lsh(big.NewInt(1), uint(t.S.W-1))
		if lo != nil && hi != nil && hi.Num().Cmp(m) < 0 && lo.Num().Cmp(new(big.Int).Neg(m)) >= 0 {
			return t.A[0]
		}
	}
	if t.Op == OIte {
		return c.Ite(t.A[0], c.ToInt(t.A[1], signed), c.ToInt(t.A[2], signed))
	}
	p := 0
	if signed {
		p = 1
		if _, h := ubounds(t); h <= mask(t.S.W-1) {
			p = 0
		}
	}
	return c.intern(&Term{Op: OBV2Int, S: SInt, A: []*Term{t}, P0: p})
}

func (c *Ctx) ToBV(t *Term, w int) *Term {
	if t.S.K == KBV {
		return t
	}
	if t.IsConst() {
		v := new(big.Int).And(t.R.Num(), new(big.Int).SetUint64(mask(w)))
		return c.BVc(w, v.Uint64())
	}
	if t.Op == OBV2Int && t.A[0].S.W == w {
		return t.A[0]
	}
	if t.Op == OIte {
		return c.Ite(t.A[0], c.ToBV(t.A[1], w), c.ToBV(t.A[2], w))
	}
	return c.intern(&Term{Op: OInt2BV, S: BV(w), A: []*Term{t}})
}

// WrapInt reduces an Int term to the range of a w-bit (un)signed type.
func (c *Ctx) WrapInt(t *Term, w int, signed bool) *Term {
	var lo, hi *big.Int
	if signed {
		hi = new(big.Int).Lsh(big.NewInt(1), uint(w-1))
		lo = new(big.Int).Neg(hi)
		hi = new(big.Int).Sub(hi, big.NewInt(1))
	} else {
		lo = new(big.Int)
		hi = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1))
	}
	l, h := c.bounds(t)
	if l != nil && h != nil && l.Cmp(new(big.Rat).SetInt(lo)) >= 0 && h.Cmp(new(big.Rat).SetInt(hi)) <= 0 {
		return t
	}
	m := c.Num(SInt, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(w))))
	if !signed {
		return c.IMod(t, m)
	}
	half := c.Num(SInt, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(w-1))))
	return c.Sub(c.IMod(c.Add(t, half), m), half)
}

// splitDiv splits p = k*q + r with integer coefs, r having the remaining terms.
func (c *Ctx) splitDiv(t *Term, k *big.Int) (*Term, *Term, bool) {
	p := c.toPoly(t)
	var q, r []pterm
	for _, x := range p.ts {
		if !x.c.IsInt() {
			return nil, nil, false
		}
		n := x.c.Num()
		if x.m == c.one {
			fq := floorDiv(n, k)
			fr := new(big.Int).Sub(n, new(big.Int).Mul(fq, k))
			if fq.Sign() != 0 {
				q = append(q, pterm{x.m, new(big.Rat).SetInt(fq)})
			}
			if fr.Sign() != 0 {
				r = append(r, pterm{x.m, new(big.Rat).SetInt(fr)})
			}
			continue
		}
		if new(big.Int).Rem(n, k).Sign() == 0 {
			q = append(q, pterm{x.m, new(big.Rat).SetInt(new(big.Int).Quo(n, k))})
		} else {
			r = append(r, x)
		}
	}
	return c.fromPoly(&Poly{q}, SInt), c.fromPoly(&Poly{r}, SInt), true
}

// IDiv, IMod: SMT-LIB (Euclidean) division by b.
func (c *Ctx) IDiv(a, b *Term) *Term {
	r := c.iDiv0(a, b)
	c.rec(stQuo, 0, a, b, nil, 0, 0, r)
	return r
}

func (c *Ctx) iDiv0(a, b *Term) *Term {
	if b.IsConst() && b.R.Sign() > 0 {
		if a.IsConst() {
			return c.Num(SInt, new(big.Rat).SetInt(floorDiv(a.R.Num(), b.R.Num())))
		}
		if b.R.Cmp(ratOne) == 0 {
			return a
		}
		if q, r, ok := c.splitDiv(a, b.R.Num()); ok {
			lo, hi := c.bounds(r)
			if lo != nil && hi != nil {
				k1 := floorDiv(floorOf(lo), b.R.Num())
				k2 := floorDiv(floorOf(hi), b.R.Num())
				if k1.Cmp(k2) == 0 {
					return c.Add(q, c.Num(SInt, new(big.Rat).SetInt(k1)))
				}
			}
			if !(q.IsConst() && q.R.Sign() == 0) {
				return c.Add(q, c.intern(&Term{Op: OIDiv, S: SInt, A: []*Term{r, b}}))
			}
		}
		if a.Op == OIte && constLeaves(a, 24) {
			return c.Ite(a.A[0], c.IDiv(a.A[1], b), c.IDiv(a.A[2], b))
		}
	} else if !b.IsConst() {
		// monomial split: a = b*q + r
		if q, r, ok := c.symSplit(a, b); ok {
			rl, _ := c.bounds(r)
			if rl != nil && rl.Sign() >= 0 {
				lt := c.NumCmp(OLt0, r, b)
				if lt.IsTrue() {
					return q
				}
			}
		}
	}
	return c.intern(&Term{Op: OIDiv, S: SInt, A: []*Term{a, b}})
}

func floorOf(r *big.Rat) *big.Int { return floorDiv(r.Num(), r.Denom()) }

func (c *Ctx) symSplit(a, b *Term) (*Term, *Term, bool) {
	pb := c.toPoly(b)
	if len(pb.ts) != 1 || pb.ts[0].c.Cmp(ratOne) != 0 {
		return nil, nil, false
	}
	pa := c.toPoly(a)
	var q, r []pterm
	for _, x := range pa.ts {
		if m, ok := c.divMono(x.m, pb.ts[0].m); ok {
			q = append(q, pterm{m, x.c})
		} else {
			r = append(r, x)
		}
	}
	sort.Slice(q, func(i, j int) bool { return q[i].m.id < q[j].m.id })
	return c.fromPoly(&Poly{q}, SInt), c.fromPoly(&Poly{r}, SInt), true
}

func (c *Ctx) IMod(a, b *Term) *Term {
	r := c.iMod0(a, b)
	c.rec(stMod, 0, a, b, nil, 0, 0, r)
	return r
}

func (c *Ctx) iMod0(a, b *Term) *Term {
	if b.IsConst() && b.R.Sign() > 0 {
		if a.IsConst() {
			q := floorDiv(a.R.Num(), b.R.Num())
			return c.Num(SInt, new(big.Rat).SetInt(new(big.Int).Sub(a.R.Num(), q.Mul(q, b.R.Num()))))
		}
		if b.R.Cmp(ratOne) == 0 {
			return c.IntC(0)
		}
		if _, r, ok := c.splitDiv(a, b.R.Num()); ok {
			lo, hi := c.bounds(r)
			if lo != nil && hi != nil {
				k1 := floorDiv(floorOf(lo), b.R.Num())
				k2 := floorDiv(floorOf(hi), b.R.Num())
				if k1.Cmp(k2) == 0 {
					return c.Sub(r, c.Num(SInt, new(big.Rat).SetInt(k1.Mul(k1, b.R.Num()))))
				}
			}
			if r != a {
				return c.IMod(r, b)
			}
		}
		if a.Op == OIte && constLeaves(a, 24) {
			return c.Ite(a.A[0], c.IMod(a.A[1], b), c.IMod(a.A[2], b))
		}
	} else if !b.IsConst() {
		if _, r, ok := c.symSplit(a, b); ok {
			rl, _ := c.bounds(r)
			if rl != nil && rl.Sign() >= 0 {
				if c.NumCmp(OLt0, r, b).IsTrue() {
					return r
				}
			}
		}
	}
	return c.intern(&Term{Op: OIMod, S: SInt, A: []*Term{a, b}})
}

// Floor of a Real term, as Int. w>0: result of a float->int conversion of width w.
func (c *Ctx) Floor(t *Term, w int) *Term {
	r := c.floor0(t, w)
	c.rec(stFlr, 0, t, nil, nil, w, 0, r)
	return r
}

func (c *Ctx) floor0(t *Term, w int) *Term {
	t = c.ToReal(t)
	if t.IsConst() {
		return c.Num(SInt, new(big.Rat).SetInt(floorOf(t.R)))
	}
	if t.Op == OIte {
		return c.Ite(t.A[0], c.Floor(t.A[1], w), c.Floor(t.A[2], w))
	}
	if t.Op == OFrac {
		return c.intern(&Term{Op: OFloor, S: SInt, A: []*Term{t}, P0: w})
	}
	p := c.toPoly(t)
	var ip, rp []pterm
	for _, x := range p.ts {
		isI := x.c.IsInt()
		for _, v := range x.m.vs {
			if v.t.S.K != KInt {
				isI = false
			}
		}
		if x.m == c.one {
			f := floorOf(x.c)
			if f.Sign() != 0 {
				ip = append(ip, pterm{x.m, new(big.Rat).SetInt(f)})
			}
			fr := new(big.Rat).Sub(x.c, new(big.Rat).SetInt(f))
			if fr.Sign() != 0 {
				rp = append(rp, pterm{x.m, fr})
			}
			continue
		}
		if isI {
			ip = append(ip, x)
		} else {
			rp = append(rp, x)
		}
	}
	it := c.fromPoly(&Poly{ip}, SInt)
	if len(rp) == 0 {
		return it
	}
	rt := c.fromPoly(&Poly{rp}, SReal)
	if rt.IsConst() {
		return c.Add(it, c.Num(SInt, new(big.Rat).SetInt(floorOf(rt.R))))
	}
	lo, hi := c.bounds(rt)
	if lo != nil && hi != nil && floorOf(lo).Cmp(floorOf(hi)) == 0 {
		return c.Add(it, c.Num(SInt, new(big.Rat).SetInt(floorOf(lo))))
	}
	f := c.intern(&Term{Op: OFloor, S: SInt, A: []*Term{rt}, P0: w})
	return c.Add(it, f)
}

func constLeaves(t *Term, depth int) bool {
	if t.IsConst() {
		return true
	}
	if t.Op != OIte || depth == 0 {
		return false
	}
	return constLeaves(t.A[1], depth-1) && constLeaves(t.A[2], depth-1)
}

// leafConsts returns constant leaves with guards of an ite tree, or nil.
type leaf struct {
	g *Term
	t *Term
}

func (c *Ctx) leaves(t *Term, max int) []leaf {
	var out []leaf
	idx := map[int]int{}
	ok := true
	var rec func(t, g *Term)
	rec = func(t, g *Term) {
		if !ok || g.IsFalse() {
			return
		}
		if t.IsConst() {
			if i, have := idx[t.ID]; have {
				out[i].g = c.Or(out[i].g, g)
				return
			}
			idx[t.ID] = len(out)
			out = append(out, leaf{g, t})
			if len(out) > max {
				ok = false
			}
			return
		}
		if t.Op == OIte {
			rec(t.A[1], c.And(g, t.A[0]))
			rec(t.A[2], c.And(g, c.Not(t.A[0])))
			return
		}
		ok = false
	}
	rec(t, c.True)
	if !ok {
		return nil
	}
	return out
}

// ---------- bit vectors

func (c *Ctx) BVop(op Op, a, b *Term) *Term {
	r := c.bVop0(op, a, b)
	c.rec(stBin, op, a, b, nil, 0, 0, r)
	return r
}

func (c *Ctx) bVop0(op Op, a, b *Term) *Term {
	w := a.S.W
	if a.S.K != KBV || b.S.K != KBV || a.S.W != b.S.W {
		panic(unsup("BVop sorts %v %v", a.S, b.S))
	}
	if a.IsConst() && b.IsConst() {
		x, y := a.U, b.U
		sx, sy := sext(x, w), sext(y, w)
		switch op {
		case OBAdd:
			return c.BVc(w, x+y)
		case OBSub:
			return c.BVc(w, x-y)
		case OBMul:
			return c.BVc(w, x*y)
		case OBUdiv:
			if y != 0 {
				return c.BVc(w, x/y)
			}
		case OBUrem:
			if y != 0 {
				return c.BVc(w, x%y)
			}
		case OBSdiv:
			if y != 0 {
				if sy == -1 {
					return c.BVc(w, uint64(-sx))
				}
				return c.BVc(w, uint64(sx/sy))
			}
		case OBSrem:
			if y != 0 {
				if sy == -1 {
					return c.BVc(w, 0)
				}
				return c.BVc(w, uint64(sx%sy))
			}
		case OBAnd:
			return c.BVc(w, x&y)
		case OBOr:
			return c.BVc(w, x|y)
		case OBXor:
			return c.BVc(w, x^y)
		case OBShl:
			if y >= uint64(w) {
				return c.BVc(w, 0)
			}
			return c.BVc(w, x<<y)
		case OBLshr:
			if y >= uint64(w) {
				return c.BVc(w, 0)
			}
			return c.BVc(w, x>>y)
		case OBAshr:
			if y >= uint64(w) {
				y = uint64(w - 1)
			}
			return c.BVc(w, uint64(sx>>y))
		}
	}
	zero := func(t *Term) bool { return t.IsConst() && t.U == 0 }
	ones := func(t *Term) bool { return t.IsConst() && t.U == mask(w) }
	// push constant op through constant-leaf ites
	if b.IsConst() && a.Op == OIte && constLeaves(a, 12) {
		return c.Ite(a.A[0], c.BVop(op, a.A[1], b), c.BVop(op, a.A[2], b))
	}
	if a.IsConst() && b.Op == OIte && constLeaves(b, 12) {
		return c.Ite(b.A[0], c.BVop(op, a, b.A[1]), c.BVop(op, a, b.A[2]))
	}
	switch op {
	case OBAdd:
		if zero(a) {
			return b
		}
		if zero(b) {
			return a
		}
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() && a.Op == OBAdd && a.A[1].IsConst() {
			return c.BVop(OBAdd, a.A[0], c.BVc(w, a.A[1].U+b.U))
		}
		if !b.IsConst() && a.ID > b.ID {
			a, b = b, a
		}
	case OBSub:
		if zero(b) {
			return a
		}
		if a == b {
			return c.BVc(w, 0)
		}
		if b.IsConst() {
			return c.BVop(OBAdd, a, c.BVc(w, -b.U))
		}
	case OBMul:
		if zero(a) || zero(b) {
			return c.BVc(w, 0)
		}
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() && b.U == 1 {
			return a
		}
		if b.IsConst() && b.U&(b.U-1) == 0 {
			return c.BVop(OBShl, a, c.BVc(w, uint64(bits.TrailingZeros64(b.U))))
		}
		if !b.IsConst() && a.ID > b.ID {
			a, b = b, a
		}
	case OBUdiv:
		if b.IsConst() && b.U == 1 {
			return a
		}
		if b.IsConst() && b.U != 0 && b.U&(b.U-1) == 0 {
			return c.BVop(OBLshr, a, c.BVc(w, uint64(bits.TrailingZeros64(b.U))))
		}
	case OBUrem:
		if b.IsConst() && b.U != 0 && b.U&(b.U-1) == 0 {
			return c.BVop(OBAnd, a, c.BVc(w, b.U-1))
		}
	case OBAnd:
		if a == b {
			return a
		}
		if zero(a) || zero(b) {
			return c.BVc(w, 0)
		}
		if ones(a) {
			return b
		}
		if ones(b) {
			return a
		}
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if k := bits.TrailingZeros64(^b.U); uint64(1)<<uint(k)-1 == b.U && k < w { // low mask
				return c.Zext(c.Extract(a, k-1, 0), w)
			}
		}
		if !b.IsConst() && a.ID > b.ID {
			a, b = b, a
		}
	case OBOr:
		if a == b {
			return a
		}
		if zero(a) {
			return b
		}
		if zero(b) {
			return a
		}
		if ones(a) || ones(b) {
			return c.BVc(w, mask(w))
		}
		if t := c.orConcat(a, b); t != nil {
			return t
		}
		if a.ID > b.ID {
			a, b = b, a
		}
	case OBXor:
		if a == b {
			return c.BVc(w, 0)
		}
		if zero(a) {
			return b
		}
		if zero(b) {
			return a
		}
		if a.ID > b.ID {
			a, b = b, a
		}
	case OBShl:
		if zero(b) {
			return a
		}
		if b.IsConst() {
			k := int(b.U)
			if b.U >= uint64(w) {
				return c.BVc(w, 0)
			}
			// (x << k): concat(extract(w-k-1..0), 0_k)
			return c.Concat(c.Extract(a, w-k-1, 0), c.BVc(k, 0))
		}
	case OBLshr:
		if zero(b) {
			return a
		}
		if b.IsConst() {
			k := int(b.U)
			if b.U >= uint64(w) {
				return c.BVc(w, 0)
			}
			return c.Zext(c.Extract(a, w-1, k), w)
		}
	case OBAshr:
		if zero(b) {
			return a
		}
	}
	return c.intern(&Term{Op: op, S: BV(w), A: []*Term{a, b}})
}

// segs decomposes a BV term into a list of (term, width) segments from high to low.
func (c *Ctx) segs(t *Term) []*Term {
	switch t.Op {
	case OBConcat:
		return append(append([]*Term{}, c.segs(t.A[0])...), c.segs(t.A[1])...)
	case OBZext:
		return append([]*Term{c.BVc(t.S.W-t.A[0].S.W, 0)}, c.segs(t.A[0])...)
	}
	return []*Term{t}
}

// orConcat merges a|b when their non-zero segments are disjoint.
func (c *Ctx) orConcat(a, b *Term) *Term {
	sa, sb := c.segs(a), c.segs(b)
	if len(sa) == 1 && len(sb) == 1 {
		return nil
	}
	// split both to common boundaries
	cut := func(ss []*Term) []int {
		pos := 0
		var out []int
		for i := len(ss) - 1; i >= 0; i-- {
			pos += ss[i].S.W
			out = append(out, pos)
		}
		return out
	}
	bs := map[int]bool{}
	for _, x := range cut(sa) {
		bs[x] = true
	}
	for _, x := range cut(sb) {
		bs[x] = true
	}
	var ps []int
	for x := range bs {
		ps = append(ps, x)
	}
	sort.Ints(ps)
	lo := 0
	var res *Term
	for _, p := range ps {
		x, y := c.Extract(a, p-1, lo), c.Extract(b, p-1, lo)
		var z *Term
		if x.IsConst() && x.U == 0 {
			z = y
		} else if y.IsConst() && y.U == 0 {
			z = x
		} else if x.IsConst() && y.IsConst() {
			z = c.BVc(x.S.W, x.U|y.U)
		} else {
			return nil
		}
		if res == nil {
			res = z
		} else {
			res = c.Concat(z, res)
		}
		lo = p
	}
	return res
}

func (c *Ctx) Concat(a, b *Term) *Term {
	r := c.concat0(a, b)
	c.rec(stCat, 0, a, b, nil, 0, 0, r)
	return r
}

func (c *Ctx) concat0(a, b *Term) *Term {
	w := a.S.W + b.S.W
	if w > 64 {
		panic(unsup("bit vector wider than 64"))
	}
	if a.IsConst() && b.IsConst() {
		return c.BVc(w, a.U<<uint(b.S.W)|b.U)
	}
	if a.IsConst() && a.U == 0 {
		return c.Zext(b, w)
	}
	// merge adjacent extracts
	if a.Op == OBExtract && b.Op == OBExtract && a.A[0] == b.A[0] && a.P1 == b.P0+1 {
		return c.Extract(a.A[0], a.P0, b.P1)
	}
	if a.Op == OBExtract && b.Op == OBConcat && b.A[0].Op == OBExtract && b.A[0].A[0] == a.A[0] && a.P1 == b.A[0].P0+1 {
		return c.Concat(c.Extract(a.A[0], a.P0, b.A[0].P1), b.A[1])
	}
	if b.Op == OBExtract && a.Op == OBConcat && a.A[1].Op == OBExtract && a.A[1].A[0] == b.A[0] && a.A[1].P1 == b.P0+1 {
		return c.Concat(a.A[0], c.Extract(b.A[0], a.A[1].P0, b.P1))
	}
	// right-assoc
	if a.Op == OBConcat {
		return c.Concat(a.A[0], c.Concat(a.A[1], b))
	}
	return c.intern(&Term{Op: OBConcat, S: BV(w), A: []*Term{a, b}})
}

func (c *Ctx) Extract(t *Term, hi, lo int) *Term {
	r := c.extract0(t, hi, lo)
	if hi >= lo {
		c.rec(stExt, 0, t, nil, nil, hi, lo, r)
	}
	return r
}

func (c *Ctx) extract0(t *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w == t.S.W {
		return t
	}
	if w <= 0 {
		return c.BVc(0, 0)
	}
	switch t.Op {
	case OConst:
		return c.BVc(w, t.U>>uint(lo))
	case OBExtract:
		return c.Extract(t.A[0], t.P1+hi, t.P1+lo)
	case OBConcat:
		lw := t.A[1].S.W
		if hi < lw {
			return c.Extract(t.A[1], hi, lo)
		}
		if lo >= lw {
			return c.Extract(t.A[0], hi-lw, lo-lw)
		}
		return c.Concat(c.Extract(t.A[0], hi-lw, 0), c.Extract(t.A[1], lw-1, lo))
	case OBZext:
		iw := t.A[0].S.W
		if lo >= iw {
			return c.BVc(w, 0)
		}
		if hi < iw {
			return c.Extract(t.A[0], hi, lo)
		}
		return c.Zext(c.Extract(t.A[0], iw-1, lo), w)
	case OBSext:
		iw := t.A[0].S.W
		if hi < iw {
			return c.Extract(t.A[0], hi, lo)
		}
	case OIte:
		if t.A[1].IsConst() || t.A[2].IsConst() || w <= 8 {
			return c.Ite(t.A[0], c.Extract(t.A[1], hi, lo), c.Extract(t.A[2], hi, lo))
		}
	case OBAnd, OBOr, OBXor:
		if w <= 8 || t.A[1].IsConst() || t.A[0].IsConst() {
			return c.BVop(t.Op, c.Extract(t.A[0], hi, lo), c.Extract(t.A[1], hi, lo))
		}
	case OBAdd, OBSub, OBMul:
		if lo == 0 && false {
			return c.BVop(t.Op, c.Extract(t.A[0], hi, 0), c.Extract(t.A[1], hi, 0))
		}
	}
	return c.intern(&Term{Op: OBExtract, S: BV(w), A: []*Term{t}, P0: hi, P1: lo})
}

func (c *Ctx) Zext(t *Term, w int) *Term {
	if w == t.S.W {
		return t
	}
	if t.IsConst() {
		return c.BVc(w, t.U)
	}
	if t.Op == OBZext {
		return c.Zext(t.A[0], w)
	}
	if t.Op == OIte && (t.A[1].IsConst() || t.A[2].IsConst()) {
		return c.Ite(t.A[0], c.Zext(t.A[1], w), c.Zext(t.A[2], w))
	}
	return c.intern(&Term{Op: OBZext, S: BV(w), A: []*Term{t}})
}

func (c *Ctx) Sext(t *Term, w int) *Term {
	if w == t.S.W {
		return t
	}
	if t.IsConst() {
		return c.BVc(w, uint64(sext(t.U, t.S.W)))
	}
	if _, h := ubounds(t); h <= mask(t.S.W-1) {
		return c.Zext(t, w)
	}
	if t.Op == OIte && (t.A[1].IsConst() || t.A[2].IsConst()) {
		return c.Ite(t.A[0], c.Sext(t.A[1], w), c.Sext(t.A[2], w))
	}
	return c.intern(&Term{Op: OBSext, S: BV(w), A: []*Term{t}})
}

func (c *Ctx) BVNot(t *Term) *Term {
	if t.IsConst() {
		return c.BVc(t.S.W, ^t.U)
	}
	if t.Op == OBNot {
		return t.A[0]
	}
	return c.intern(&Term{Op: OBNot, S: t.S, A: []*Term{t}})
}
func (c *Ctx) BVNeg(t *Term) *Term {
	return c.BVop(OBSub, c.BVc(t.S.W, 0), t)
}

func (c *Ctx) BVcmp(op Op, a, b *Term) *Term {
	r := c.bvcmp0(op, a, b)
	c.rec(stBin, op, a, b, nil, 0, 0, r)
	return r
}

func (c *Ctx) bvcmp0(op Op, a, b *Term) *Term { // OBUlt OBUle OBSlt OBSle
	w := a.S.W
	if a.S != b.S {
		panic(unsup("BVcmp sorts"))
	}
	if a == b {
		return c.BoolC(op == OBUle || op == OBSle)
	}
	if a.IsConst() && b.IsConst() {
		switch op {
		case OBUlt:
			return c.BoolC(a.U < b.U)
		case OBUle:
			return c.BoolC(a.U <= b.U)
		case OBSlt:
			return c.BoolC(sext(a.U, w) < sext(b.U, w))
		case OBSle:
			return c.BoolC(sext(a.U, w) <= sext(b.U, w))
		}
	}
	if b.IsConst() && a.Op == OIte && constLeaves(a, 24) {
		return c.Ite(a.A[0], c.BVcmp(op, a.A[1], b), c.BVcmp(op, a.A[2], b))
	}
	if a.IsConst() && b.Op == OIte && constLeaves(b, 24) {
		return c.Ite(b.A[0], c.BVcmp(op, a, b.A[1]), c.BVcmp(op, a, b.A[2]))
	}
	la, ha := ubounds(a)
	lb, hb := ubounds(b)
	if (op == OBSlt || op == OBSle) && ha <= mask(w-1) && hb <= mask(w-1) {
		if op == OBSlt {
			op = OBUlt
		} else {
			op = OBUle
		}
	}
	switch op {
	case OBUlt:
		if ha < lb {
			return c.True
		}
		if la >= hb {
			return c.False
		}
	case OBUle:
		if ha <= lb {
			return c.True
		}
		if la > hb {
			return c.False
		}
	}
	// canonical: a<=b  ==  !(b<a)
	switch op {
	case OBUle:
		return c.Not(c.intern(&Term{Op: OBUlt, S: SBool, A: []*Term{b, a}}))
	case OBSle:
		return c.Not(c.intern(&Term{Op: OBSlt, S: SBool, A: []*Term{b, a}}))
	}
	return c.intern(&Term{Op: op, S: SBool, A: []*Term{a, b}})
}

// ---------- floating point

func (c *Ctx) F64c(f float64) *Term {
	return c.intern(&Term{Op: OConst, S: SF64, U: math.Float64bits(f)})
}
func (c *Ctx) F32c(f float32) *Term {
	return c.intern(&Term{Op: OConst, S: SF32, U: uint64(math.Float32bits(f))})
}
func (c *Ctx) Fc(s Sort, f float64) *Term {
	if s.K == KF32 {
		return c.F32c(float32(f))
	}
	return c.F64c(f)
}

func fval(t *Term) float64 {
	if t.S.K == KF32 {
		return float64(math.Float32frombits(uint32(t.U)))
	}
	return math.Float64frombits(t.U)
}

func (c *Ctx) Fop(op Op, a, b *Term) *Term {
	if a.S != b.S {
		panic(unsup("Fop sorts"))
	}
	if a.IsConst() && b.IsConst() {
		if a.S.K == KF32 {
			x, y := math.Float32frombits(uint32(a.U)), math.Float32frombits(uint32(b.U))
			switch op {
			case OFAdd:
				return c.F32c(x + y)
			case OFSub:
				return c.F32c(x - y)
			case OFMul:
				return c.F32c(x * y)
			case OFDiv:
				return c.F32c(x / y)
			}
		} else {
			x, y := fval(a), fval(b)
			switch op {
			case OFAdd:
				return c.F64c(x + y)
			case OFSub:
				return c.F64c(x - y)
			case OFMul:
				return c.F64c(x * y)
			case OFDiv:
				return c.F64c(x / y)
			}
		}
	}
	return c.intern(&Term{Op: op, S: a.S, A: []*Term{a, b}})
}

func (c *Ctx) Fcmp(op Op, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		x, y := fval(a), fval(b)
		switch op {
		case OFLt:
			return c.BoolC(x < y)
		case OFLe:
			return c.BoolC(x <= y)
		case OFEq:
			return c.BoolC(x == y)
		}
	}
	return c.intern(&Term{Op: op, S: SBool, A: []*Term{a, b}})
}

func (c *Ctx) Fun(op Op, a *Term, p0 int) *Term {
	if a.IsConst() {
		x := fval(a)
		switch op {
		case OFNeg:
			return c.Fc(a.S, -x)
		case OFAbs:
			return c.Fc(a.S, math.Abs(x))
		case OFSqrt:
			return c.Fc(a.S, math.Sqrt(x))
		case OFIsNaN:
			return c.BoolC(x != x)
		case OFIsInf:
			return c.BoolC(math.IsInf(x, 0))
		case OFRound:
			switch p0 {
			case 1:
				return c.Fc(a.S, math.Trunc(x))
			case 2:
				return c.Fc(a.S, math.Floor(x))
			case 3:
				return c.Fc(a.S, math.Ceil(x))
			}
		}
	}
	s := a.S
	if op == OFIsNaN || op == OFIsInf {
		s = SBool
	}
	return c.intern(&Term{Op: op, S: s, A: []*Term{a}, P0: p0})
}

func (c *Ctx) FFromBits(t *Term, s Sort) *Term {
	if t.IsConst() {
		return c.intern(&Term{Op: OConst, S: s, U: t.U})
	}
	if t.Op == OFToBits && t.A[0].S == s {
		return t.A[0]
	}
	if t.Op == OIte {
		return c.Ite(t.A[0], c.FFromBits(t.A[1], s), c.FFromBits(t.A[2], s))
	}
	return c.intern(&Term{Op: OFFromBits, S: s, A: []*Term{t}})
}

func (c *Ctx) FToBits(t *Term) *Term {
	w := t.S.W
	if t.IsConst() {
		return c.BVc(w, t.U)
	}
	if t.Op == OFFromBits {
		return t.A[0]
	}
	if t.Op == OIte {
		return c.Ite(t.A[0], c.FToBits(t.A[1]), c.FToBits(t.A[2]))
	}
	return c.intern(&Term{Op: OFToBits, S: BV(w), A: []*Term{t}})
}

func (c *Ctx) FCvt(t *Term, s Sort) *Term {
	if t.S == s {
		return t
	}
	if t.IsConst() {
		return c.Fc(s, fval(t))
	}
	if t.Op == OFCvt && t.A[0].S == s && s.K == KF32 {
		return t.A[0] // f32 -> f64 -> f32 is the identity
	}
	return c.intern(&Term{Op: OFCvt, S: s, A: []*Term{t}})
}

func (c *Ctx) UF(name string, s Sort, args ...*Term) *Term {
	return c.intern(&Term{Op: OUF, S: s, Name: name, A: args})
}

func ratToFloat(r *big.Rat) float64 { f, _ := r.Float64(); return f }
