package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func (ex *Exec) constVal(k *ssa.Const) Value {
	if k.Value == nil {
		return ex.zero(k.Type())
	}
	ti := tinfoOf(k.Type())
	switch ti.k {
	case 'b':
		return ex.c.BoolC(constant.BoolVal(k.Value))
	case 'i':
		v := constant.ToInt(k.Value)
		if i, ok := constant.Int64Val(v); ok {
			return ex.c.BVc(ti.w, uint64(i))
		}
		if u, ok := constant.Uint64Val(v); ok {
			return ex.c.BVc(ti.w, u)
		}
	case 'f':
		v := constant.ToFloat(k.Value)
		f, _ := constant.Float64Val(v)
		if ti.w == 32 {
			g, _ := constant.Float32Val(v)
			f = float64(g)
		}
		return ex.fconst(f, ti.w)
	case 's':
		return &Str{S: constant.StringVal(k.Value)}
	}
	panic(unsup("constant %s of type %s", k.Value, k.Type()))
}

// ---------- arithmetic

func (ex *Exec) intBin(op token.Token, a, b *Term, ti tinfo) *Term {
	c := ex.c
	if a.S.K == KInt || b.S.K == KInt {
		return ex.intBinInt(op, a, b, ti)
	}
	switch op {
	case token.ADD:
		return c.BVop(OBAdd, a, b)
	case token.SUB:
		return c.BVop(OBSub, a, b)
	case token.MUL:
		return c.BVop(OBMul, a, b)
	case token.QUO:
		if ti.signed {
			return c.BVop(OBSdiv, a, b)
		}
		return c.BVop(OBUdiv, a, b)
	case token.REM:
		if ti.signed {
			return c.BVop(OBSrem, a, b)
		}
		return c.BVop(OBUrem, a, b)
	case token.AND:
		return c.BVop(OBAnd, a, b)
	case token.OR:
		return c.BVop(OBOr, a, b)
	case token.XOR:
		return c.BVop(OBXor, a, b)
	case token.AND_NOT:
		return c.BVop(OBAnd, a, c.BVNot(b))
	}
	panic(unsup("int op %s", op))
}

func (ex *Exec) isConstInt(t *Term, signed bool) (*big.Int, bool) {
	if !t.IsConst() {
		return nil, false
	}
	if t.R != nil {
		return t.R.Num(), true
	}
	if signed {
		return big.NewInt(sext(t.U, t.S.W)), true
	}
	return new(big.Int).SetUint64(t.U), true
}

// normConst turns constant Int results back into machine constants.
func (ex *Exec) normConst(t *Term, w int) *Term {
	if t.S.K == KInt && t.IsConst() {
		return ex.c.ToBV(t, w)
	}
	return t
}

func (ex *Exec) intBinInt(op token.Token, a, b *Term, ti tinfo) *Term {
	c := ex.c
	x, y := c.ToInt(a, ti.signed), c.ToInt(b, ti.signed)
	var r *Term
	switch op {
	case token.ADD:
		r = c.Add(x, y)
	case token.SUB:
		r = c.Sub(x, y)
	case token.MUL:
		r = c.Mul(x, y)
	case token.QUO, token.REM:
		// truncated division
		lx, _ := c.bounds(x)
		ly, _ := c.bounds(y)
		xn := lx != nil && lx.Sign() >= 0
		yp := ly != nil && ly.Sign() > 0
		if !yp && !y.IsConst() {
			panic(unsup("integer division by a symbolic value of unknown sign"))
		}
		neg := false
		if y.IsConst() && y.R.Sign() < 0 {
			y = c.Neg(y)
			neg = true
		}
		var q *Term
		if xn {
			q = c.IDiv(x, y)
			if op == token.REM {
				return ex.normConst(c.IMod(x, y), ti.w)
			}
		} else {
			isneg := c.NumCmp(OLt0, x, c.IntC(0))
			if op == token.REM {
				r = ex.sel(isneg, c.Neg(c.IMod(c.Neg(x), y)), c.IMod(x, y))
				return ex.normConst(r, ti.w)
			}
			q = ex.sel(isneg, c.Neg(c.IDiv(c.Neg(x), y)), c.IDiv(x, y))
		}
		if neg {
			q = c.Neg(q)
		}
		r = q
	case token.AND:
		if k, ok := ex.isConstInt(b, false); ok {
			k1 := new(big.Int).Add(k, big.NewInt(1))
			if k1.Sign() > 0 && new(big.Int).And(k1, k).Sign() == 0 { // low mask
				return ex.normConst(c.IMod(x, c.Num(SInt, new(big.Rat).SetInt(k1))), ti.w)
			}
		}
		if _, ok := ex.isConstInt(a, false); ok {
			if k1 := new(big.Int).Add(mustBig(ex.isConstInt(a, false)), big.NewInt(1)); new(big.Int).And(k1, mustBig(ex.isConstInt(a, false))).Sign() == 0 && k1.Sign() > 0 {
				return ex.intBinInt(op, b, a, ti)
			}
		}
		fallthrough
	default:
		av, bv := c.ToBV(a, ti.w), c.ToBV(b, ti.w)
		return ex.intBin(op, av, bv, ti)
	}
	return ex.normConst(c.WrapInt(r, ti.w, ti.signed), ti.w)
}

func mustBig(b *big.Int, ok bool) *big.Int { return b }

func (ex *Exec) shift(op token.Token, a, b *Term, ti, tb tinfo) *Term {
	c := ex.c
	if a.S.K == KInt {
		k, ok := ex.isConstInt(b, tb.signed)
		if ok && k.Sign() >= 0 && k.Cmp(big.NewInt(63)) <= 0 {
			p := c.Num(SInt, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(k.Int64()))))
			if op == token.SHL {
				return ex.normConst(c.WrapInt(c.Mul(a, p), ti.w, ti.signed), ti.w)
			}
			return ex.normConst(c.IDiv(a, p), ti.w)
		}
		a = c.ToBV(a, ti.w)
	}
	if b.S.K == KInt {
		b = c.ToBV(b, tb.w)
	}
	// bring the count to a's width, saturating
	w := ti.w
	var cnt *Term
	if b.S.W > w {
		over := c.Not(c.BVcmp(OBUle, b, c.BVc(b.S.W, uint64(w))))
		cnt = c.Ite(over, c.BVc(w, uint64(w)), c.Extract(b, w-1, 0))
	} else {
		cnt = c.Zext(b, w)
	}
	switch {
	case op == token.SHL:
		return c.BVop(OBShl, a, cnt)
	case ti.signed:
		return c.BVop(OBAshr, a, cnt)
	}
	return c.BVop(OBLshr, a, cnt)
}

func (ex *Exec) intCmp(op token.Token, a, b *Term, ti tinfo) *Term {
	c := ex.c
	if a.S.K == KInt || b.S.K == KInt {
		x, y := c.ToInt(a, ti.signed), c.ToInt(b, ti.signed)
		switch op {
		case token.LSS:
			return c.NumCmp(OLt0, x, y)
		case token.LEQ:
			return c.NumCmp(OLe0, x, y)
		case token.GTR:
			return c.NumCmp(OLt0, y, x)
		case token.GEQ:
			return c.NumCmp(OLe0, y, x)
		case token.EQL:
			return c.NumCmp(OEq0, x, y)
		case token.NEQ:
			return c.Not(c.NumCmp(OEq0, x, y))
		}
	}
	lt, le := OBUlt, OBUle
	if ti.signed {
		lt, le = OBSlt, OBSle
	}
	switch op {
	case token.LSS:
		return c.BVcmp(lt, a, b)
	case token.LEQ:
		return c.BVcmp(le, a, b)
	case token.GTR:
		return c.BVcmp(lt, b, a)
	case token.GEQ:
		return c.BVcmp(le, b, a)
	case token.EQL:
		return c.Eq(a, b)
	case token.NEQ:
		return c.Not(c.Eq(a, b))
	}
	panic(unsup("cmp %s", op))
}

func (ex *Exec) floatBin(op token.Token, a, b *Term) Value {
	c := ex.c
	if ex.fp {
		switch op {
		case token.ADD:
			return c.Fop(OFAdd, a, b)
		case token.SUB:
			return c.Fop(OFSub, a, b)
		case token.MUL:
			return c.Fop(OFMul, a, b)
		case token.QUO:
			return c.Fop(OFDiv, a, b)
		case token.LSS:
			return c.Fcmp(OFLt, a, b)
		case token.LEQ:
			return c.Fcmp(OFLe, a, b)
		case token.GTR:
			return c.Fcmp(OFLt, b, a)
		case token.GEQ:
			return c.Fcmp(OFLe, b, a)
		case token.EQL:
			return c.Fcmp(OFEq, a, b)
		case token.NEQ:
			return c.Not(c.Fcmp(OFEq, a, b))
		}
		panic(unsup("float op %s", op))
	}
	switch op {
	case token.ADD:
		return c.Add(a, b)
	case token.SUB:
		return c.Sub(a, b)
	case token.MUL:
		return c.Mul(a, b)
	case token.QUO:
		return ex.realDiv(a, b)
	case token.LSS:
		return c.NumCmp(OLt0, a, b)
	case token.LEQ:
		return c.NumCmp(OLe0, a, b)
	case token.GTR:
		return c.NumCmp(OLt0, b, a)
	case token.GEQ:
		return c.NumCmp(OLe0, b, a)
	case token.EQL:
		return c.NumCmp(OEq0, a, b)
	case token.NEQ:
		return c.Not(c.NumCmp(OEq0, a, b))
	}
	panic(unsup("float op %s", op))
}

func (ex *Exec) realDiv(a, b *Term) *Term {
	c := ex.c
	if b.Op == OIte && constLeaves(b, 24) && !ex.opt.Split {
		return c.Ite(b.A[0], ex.realDiv(a, b.A[1]), ex.realDiv(a, b.A[2]))
	}
	if b.IsConst() {
		if b.R.Sign() == 0 {
			ex.note("division by a zero constant (Inf/NaN) at " + ex.posStr(ex.nextPos))
		}
		return c.Div(a, b)
	}
	z := c.NumCmp(OEq0, b, c.RealC(0))
	if !z.IsFalse() {
		if ex.opt.Div == "check" {
			ex.raise(z, "div", "floating-point division by zero", ex.nextPos)
		} else if ex.opt.Div == "assume" {
			ex.addPC(c.Not(z))
			ex.assumed["divisor nonzero at "+ex.posStr(ex.nextPos)] = true
		}
	}
	return c.Div(a, b)
}

func (ex *Exec) binop(fr *Frame, x *ssa.BinOp) Value {
	a, b := ex.val(fr, x.X), ex.val(fr, x.Y)
	return ex.binopV(x.Op, a, b, x.X.Type(), x.Y.Type(), x.Pos())
}

func (ex *Exec) binopV(op token.Token, a, b Value, ta0, tb0 types.Type, pos token.Pos) Value {
	ti := tinfoOf(ta0)
	switch op {
	case token.EQL, token.NEQ:
		var r *Term
		if ti.k == 'i' {
			return ex.intCmp(op, a.(*Term), b.(*Term), ti)
		} else if ti.k == 'f' {
			r = ex.floatBin(token.EQL, a.(*Term), b.(*Term)).(*Term)
		} else {
			// interface vs concrete comparison
			_, ai := under(ta0).(*types.Interface)
			_, bi := under(tb0).(*types.Interface)
			if ai && !bi {
				b = &Iface{tb0, b}
			} else if bi && !ai {
				a = &Iface{ta0, a}
			}
			r = ex.valEq(a, b)
		}
		if op == token.NEQ {
			r = ex.c.Not(r)
		}
		return r
	}
	switch ti.k {
	case 'i':
		x, y := a.(*Term), b.(*Term)
		switch op {
		case token.SHL, token.SHR:
			tb := tinfoOf(tb0)
			if tb.signed {
				neg := ex.intCmp(token.LSS, y, ex.c.BVc(tb.w, 0), tb)
				ex.raise(neg, "panic", "negative shift amount", pos)
			}
			return ex.shift(op, x, y, ti, tb)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return ex.intCmp(op, x, y, ti)
		case token.QUO, token.REM:
			z := ex.intCmp(token.EQL, y, ex.c.BVc(ti.w, 0), ti)
			ex.raise(z, "panic", "integer divide by zero", pos)
			if z.IsTrue() {
				return ex.c.BVc(ti.w, 0)
			}
		}
		return ex.intBin(op, x, y, ti)
	case 'f':
		return ex.floatBin(op, a.(*Term), b.(*Term))
	case 'b':
		x, y := a.(*Term), b.(*Term)
		switch op {
		case token.AND, token.LAND:
			return ex.c.And(x, y)
		case token.OR, token.LOR:
			return ex.c.Or(x, y)
		case token.XOR:
			return ex.c.Not(ex.c.Eq(x, y))
		}
	case 's':
		return ex.each(a, func(a Value) Value {
			return ex.each(b, func(b Value) Value { return ex.strBin(op, a.(*Str), b.(*Str)) })
		})
	}
	panic(unsup("binop %s on %s", op, ta0))
}

func (ex *Exec) strBin(op token.Token, a, b *Str) Value {
	if op == token.ADD {
		if a.Op || b.Op {
			return &Str{Op: true}
		}
		if a.B == nil && b.B == nil {
			return &Str{S: a.S + b.S}
		}
		return ex.mkStr(append(append([]*Term{}, ex.strBytes(a)...), ex.strBytes(b)...))
	}
	if a.B != nil || b.B != nil || a.Op || b.Op {
		panic(unsup("ordering of symbolic strings"))
	}
	switch op {
	case token.LSS:
		return ex.c.BoolC(a.S < b.S)
	case token.LEQ:
		return ex.c.BoolC(a.S <= b.S)
	case token.GTR:
		return ex.c.BoolC(a.S > b.S)
	case token.GEQ:
		return ex.c.BoolC(a.S >= b.S)
	}
	panic(unsup("string op"))
}

// convInt converts between integer types.
func (ex *Exec) convInt(t *Term, from, to tinfo) *Term {
	c := ex.c
	if t.S.K == KInt {
		return ex.normConst(c.WrapInt(t, to.w, to.signed), to.w)
	}
	if to.w < from.w {
		return c.Extract(t, to.w-1, 0)
	}
	if to.w > from.w {
		if from.signed {
			return c.Sext(t, to.w)
		}
		return c.Zext(t, to.w)
	}
	return t
}

func (ex *Exec) intToFloat(t *Term, from tinfo, w int) *Term {
	c := ex.c
	if ex.fp {
		if t.S.K == KInt {
			t = c.ToBV(t, from.w)
		}
		s := ex.fsort(w)
		if t.IsConst() {
			if from.signed {
				if w == 32 {
					return c.F32c(float32(sext(t.U, t.S.W)))
				}
				return c.F64c(float64(sext(t.U, t.S.W)))
			}
			if w == 32 {
				return c.F32c(float32(t.U))
			}
			return c.F64c(float64(t.U))
		}
		if !from.signed {
			// exact narrowing helps the solver
			return c.intern(&Term{Op: OUBV2F, S: s, A: []*Term{t}})
		}
		if _, h := ubounds(t); h <= mask(t.S.W-1) {
			return c.intern(&Term{Op: OUBV2F, S: s, A: []*Term{t}})
		}
		return c.intern(&Term{Op: OSBV2F, S: s, A: []*Term{t}})
	}
	return c.ToReal(c.ToInt(t, from.signed))
}

func (ex *Exec) floatToInt(t *Term, to tinfo) *Term {
	c := ex.c
	if ex.fp {
		if t.IsConst() {
			f := fval(t)
			if to.signed {
				return c.BVc(to.w, uint64(int64(f)))
			}
			return c.BVc(to.w, uint64(f))
		}
		// amd64: out of range gives the "integer indefinite" value
		w := 64
		r := c.intern(&Term{Op: OF2SBV, S: BV(w), A: []*Term{t}})
		lim := c.Fc(t.S, 9223372036854775808.0)
		inr := c.And(c.Fcmp(OFLt, t, lim), c.Fcmp(OFLe, c.Fun(OFNeg, lim, 0), t))
		if !to.signed && to.w == 64 {
			ru := c.intern(&Term{Op: OF2UBV, S: BV(w), A: []*Term{t}})
			inu := c.And(c.Fcmp(OFLt, t, c.Fc(t.S, 18446744073709551616.0)), c.Fcmp(OFLe, c.Fc(t.S, 0), t))
			return c.Ite(inu, ru, r)
		}
		v := c.Ite(inr, r, c.BVc(64, 1<<63))
		return c.Extract(v, to.w-1, 0)
	}
	// trunc
	if t.IsConst() {
		q := new(big.Int).Quo(t.R.Num(), t.R.Denom())
		return c.ToBV(c.Num(SInt, new(big.Rat).SetInt(q)), to.w)
	}
	lo, hi := c.bounds(t)
	nn := lo != nil && lo.Sign() >= 0
	np := hi != nil && hi.Sign() <= 0
	w := to.w
	var r *Term
	switch {
	case nn:
		r = c.Floor(t, w)
	case np:
		r = c.Neg(c.Floor(c.Neg(t), w))
	default:
		pos := c.NumCmp(OLe0, c.RealC(0), t)
		if ex.opt.Split {
			if ex.decide(pos) {
				r = c.Floor(t, w)
			} else {
				r = c.Neg(c.Floor(c.Neg(t), w))
			}
		} else {
			r = c.Ite(pos, c.Floor(t, w), c.Neg(c.Floor(c.Neg(t), w)))
		}
	}
	ex.assumed["float to integer conversions are in range"] = true
	return ex.normConst(r, w)
}

func (ex *Exec) convert(v Value, from, to types.Type) Value {
	f, t := tinfoOf(from), tinfoOf(to)
	uf, ut := under(from), under(to)
	switch {
	case f.k == 'i' && t.k == 'i':
		return ex.convInt(v.(*Term), f, t)
	case f.k == 'i' && t.k == 'f':
		return ex.intToFloat(v.(*Term), f, t.w)
	case f.k == 'f' && t.k == 'i':
		return ex.floatToInt(v.(*Term), t)
	case f.k == 'f' && t.k == 'f':
		if ex.fp {
			return ex.c.FCvt(v.(*Term), ex.fsort(t.w))
		}
		return v
	case f.k == 's' && t.k == 's':
		return v
	case f.k == 'i' && t.k == 's':
		if k, ok := conc(v.(*Term)); ok {
			return &Str{S: string(rune(k))}
		}
	case f.k == 's':
		if sl, ok := ut.(*types.Slice); ok {
			if tinfoOf(sl.Elem()).w == 8 {
				b := ex.strBytes(v.(*Str))
				vs := make([]Value, len(b))
				for i := range b {
					vs[i] = b[i]
				}
				return ex.mkSlice(sl.Elem(), vs)
			}
			if s := v.(*Str); s.B == nil && !s.Op {
				var vs []Value
				for _, r := range s.S {
					vs = append(vs, ex.c.BVc(32, uint64(r)))
				}
				return ex.mkSlice(sl.Elem(), vs)
			}
		}
	case t.k == 's':
		if sl, ok := uf.(*types.Slice); ok && tinfoOf(sl.Elem()).w == 8 {
			return ex.each(v, func(v Value) Value {
				bs := ex.sliceVals(v.(*SliceV))
				o := make([]*Term, len(bs))
				for i := range bs {
					o[i] = ex.c.ToBV(bs[i].(*Term), 8)
				}
				return ex.mkStr(o)
			})
		}
	case t.k == 'u':
		if p, ok := v.(*Ptr); ok {
			q := *p
			if q.Cast == nil {
				q.T = uf.(*types.Pointer).Elem()
			}
			return &UPtr{&q}
		}
		return v
	case f.k == 'u':
		if pt, ok := ut.(*types.Pointer); ok {
			u := v.(*UPtr)
			if u.P == nil {
				return &Ptr{}
			}
			return ex.castPtr(u.P, pt.Elem())
		}
		return v
	}
	if types.Identical(uf, ut) {
		return v
	}
	if sl, ok := v.(*SliceV); ok && to.Underlying().String() == "string" && sl.View == nil {
		var rs []rune
		for _, e := range ex.sliceVals(sl) {
			rs = append(rs, rune(ex.concInt(e)))
		}
		return &Str{S: string(rs)}
	}
	panic(unsup("conversion %s -> %s", from, to))
}

// ---------- slices

func (ex *Exec) mkSlice(et types.Type, vs []Value) *SliceV {
	o := ex.newObj("slice", et, len(vs), true)
	for i, v := range vs {
		ex.st.set(ckey{o, i}, v)
	}
	n := ex.ic(len(vs))
	return &SliceV{Base: &Ptr{O: o}, Off: ex.ic(0), Len: n, Cap: n}
}

func (ex *Exec) makeSlice(et types.Type, n, cap int) *SliceV {
	if cap > 4000000 {
		panic(unsup("make of %d elements", cap))
	}
	o := ex.newObj("slice", et, cap, true)
	return &SliceV{Base: &Ptr{O: o}, Off: ex.ic(0), Len: ex.ic(n), Cap: ex.ic(cap)}
}

func (ex *Exec) sliceLen(s *SliceV) int {
	n, ok := conc(s.Len)
	if !ok {
		panic(unsup("symbolic slice length at %s", ex.posStr(ex.nextPos)))
	}
	return n
}

// sliceVals loads all elements of a slice of concrete length.
func (ex *Exec) sliceVals(s *SliceV) []Value {
	n := ex.sliceLen(s)
	out := make([]Value, n)
	for i := range out {
		out[i] = ex.load(ex.elemPtr(s, ex.ic(i)))
	}
	return out
}

func (ex *Exec) sliceInstr(fr *Frame, x *ssa.Slice) Value {
	base := ex.val(fr, x.X)
	return ex.each(base, func(base Value) Value { return ex.sliceOp(fr, x, base) })
}

func (ex *Exec) sliceOp(fr *Frame, x *ssa.Slice, base Value) Value {
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		ti := tinfoOf(v.Type())
		return ex.convInt(ex.val(fr, v).(*Term), ti, tinfo{'i', 64, true})
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	if s, ok := base.(*Str); ok {
		n := len(ex.strBytes(s))
		l, h := 0, n
		okk := true
		if lo != nil {
			l, okk = conc(lo)
		}
		if hi != nil && okk {
			h, okk = conc(hi)
		}
		if !okk {
			panic(unsup("symbolic string slice"))
		}
		if l < 0 || h > n || l > h {
			ex.raise(ex.c.True, "panic", "slice bounds out of range", x.Pos())
			return s
		}
		if s.B == nil {
			return &Str{S: s.S[l:h]}
		}
		return ex.mkStr(s.B[l:h])
	}
	var s *SliceV
	if p, ok := base.(*Ptr); ok {
		if p.O == nil {
			ex.raise(ex.c.True, "panic", "nil pointer dereference", x.Pos())
			return ex.zero(x.Type())
		}
		at := under(under(x.X.Type()).(*types.Pointer).Elem()).(*types.Array)
		n := ex.ic(int(at.Len()))
		s = &SliceV{Base: p, Off: ex.ic(0), Len: n, Cap: n}
	} else {
		s = base.(*SliceV)
	}
	if lo == nil {
		lo = ex.ic(0)
	}
	if hi == nil {
		hi = s.Len
	}
	cp := s.Cap
	if mx != nil {
		cp = mx
	}
	okc := ex.c.And(ex.ile(ex.ic(0), lo), ex.ile(lo, hi), ex.ile(hi, cp), ex.ile(cp, s.Cap))
	ex.raise(ex.c.Not(okc), "panic", "slice bounds out of range", x.Pos())
	if s.Base == nil {
		return s
	}
	return &SliceV{Base: s.Base, Off: ex.iadd(s.Off, lo), Len: ex.isub(hi, lo), Cap: ex.isub(cp, lo), View: s.View, Orig: s.Orig}
}

func (ex *Exec) copyOp(dst, src Value) Value {
	return ex.each(dst, func(dv Value) Value {
		return ex.each(src, func(sv Value) Value {
			d := dv.(*SliceV)
			if str, ok := sv.(*Str); ok {
				b := ex.strBytes(str)
				n := ex.sliceLen(d)
				if len(b) < n {
					n = len(b)
				}
				for i := 0; i < n; i++ {
					ex.store(ex.elemPtr(d, ex.ic(i)), b[i])
				}
				return ex.ic(n)
			}
			s := sv.(*SliceV)
			nt := ex.c.Ite(ex.ilt(d.Len, s.Len), d.Len, s.Len)
			return ex.withInt(nt, func(n int) Value {
				vs := make([]Value, n)
				for i := 0; i < n; i++ {
					vs[i] = ex.load(ex.elemPtr(s, ex.ic(i)))
				}
				for i := 0; i < n; i++ {
					ex.store(ex.elemPtr(d, ex.ic(i)), vs[i])
				}
				return ex.ic(n)
			})
		})
	})
}

func (ex *Exec) appendOp(t types.Type, a, b Value) Value {
	et := under(t).(*types.Slice).Elem()
	return ex.each(a, func(av Value) Value {
		return ex.each(b, func(bv Value) Value {
			s := av.(*SliceV)
			var add []Value
			if str, ok := bv.(*Str); ok {
				for _, x := range ex.strBytes(str) {
					add = append(add, x)
				}
			} else {
				bs := bv.(*SliceV)
				if _, ok := conc(bs.Len); !ok {
					return ex.withInt(bs.Len, func(n int) Value {
						return ex.appendOp(t, s, &SliceV{Base: bs.Base, Off: bs.Off, Len: ex.ic(n), Cap: bs.Cap, View: bs.View, Orig: bs.Orig})
					})
				}
				add = ex.sliceVals(bs)
			}
			if _, ok := conc(s.Len); !ok {
				return ex.withInt(s.Len, func(n int) Value {
					return ex.appendTo(et, &SliceV{Base: s.Base, Off: s.Off, Len: ex.ic(n), Cap: s.Cap, View: s.View, Orig: s.Orig}, add)
				})
			}
			return ex.appendTo(et, s, add)
		})
	})
}

func (ex *Exec) appendTo(et types.Type, s *SliceV, add []Value) Value {
	n := ex.sliceLen(s)
	if len(add) == 0 {
		return s
	}
	cp, ok := conc(s.Cap)
	if !ok {
		return ex.withInt(s.Cap, func(k int) Value {
			return ex.appendTo(et, &SliceV{Base: s.Base, Off: s.Off, Len: s.Len, Cap: ex.ic(k), View: s.View, Orig: s.Orig}, add)
		})
	}
	if n+len(add) <= cp {
		r := &SliceV{Base: s.Base, Off: s.Off, Len: ex.ic(n + len(add)), Cap: s.Cap, View: s.View, Orig: s.Orig}
		for i, v := range add {
			ex.store(ex.elemPtr(r, ex.ic(n+i)), v)
		}
		return r
	}
	nc := 2 * cp
	if nc < n+len(add) {
		nc = n + len(add)
	}
	r := ex.makeSlice(et, n+len(add), nc)
	for i := 0; i < n; i++ {
		ex.st.set(ckey{r.Base.O, i}, ex.load(ex.elemPtr(s, ex.ic(i))))
	}
	for i, v := range add {
		ex.st.set(ckey{r.Base.O, n + i}, v)
	}
	return r
}

// boundsCheck raises when idx is outside [0,n).
func (ex *Exec) boundsCheck(idx, n *Term, pos token.Pos) {
	ok := ex.c.And(ex.ile(ex.ic(0), idx), ex.ilt(idx, n))
	ex.raise(ex.c.Not(ok), "panic", "index out of range", pos)
}

func (ex *Exec) idxTerm(fr *Frame, v ssa.Value) *Term {
	t := ex.val(fr, v).(*Term)
	ti := tinfoOf(v.Type())
	return ex.convInt(t, ti, tinfo{'i', 64, true})
}

func (ex *Exec) nilCheck(p *Ptr, pos token.Pos) bool {
	if p.O == nil {
		ex.raise(ex.c.True, "panic", "nil pointer dereference", pos)
		return false
	}
	return true
}

func (ex *Exec) instr(fr *Frame, in ssa.Instruction) {
	c := ex.c
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		ex.setReg(fr, x, ex.alloc(x.Comment, t))
	case *ssa.BinOp:
		ex.setReg(fr, x, ex.binop(fr, x))
	case *ssa.UnOp:
		ex.setReg(fr, x, ex.unop(fr, x))
	case *ssa.ChangeType:
		ex.setReg(fr, x, ex.val(fr, x.X))
	case *ssa.ChangeInterface:
		ex.setReg(fr, x, ex.val(fr, x.X))
	case *ssa.Convert:
		ex.setReg(fr, x, ex.each(ex.val(fr, x.X), func(v Value) Value { return ex.convert(v, x.X.Type(), x.Type()) }))
	case *ssa.MultiConvert:
		ex.setReg(fr, x, ex.each(ex.val(fr, x.X), func(v Value) Value { return ex.convert(v, x.X.Type(), x.Type()) }))
	case *ssa.MakeInterface:
		v := ex.val(fr, x.X)
		if u, ok := v.(*Union); ok {
			as := make([]Alt, len(u.A))
			for i, a := range u.A {
				as[i] = Alt{a.g, &Iface{x.X.Type(), a.v}}
			}
			ex.setReg(fr, x, &Union{as})
		} else {
			ex.setReg(fr, x, &Iface{x.X.Type(), v})
		}
	case *ssa.FieldAddr:
		ex.setReg(fr, x, ex.each(ex.val(fr, x.X), func(v Value) Value {
			p := v.(*Ptr)
			if !ex.nilCheck(p, x.Pos()) {
				return &Ptr{}
			}
			return &Ptr{O: p.O, I: p.I, Path: append(append([]PathEl{}, p.Path...), PathEl{F: x.Field}), Cast: p.Cast, T: p.T}
		}))
	case *ssa.Field:
		ex.setReg(fr, x, ex.each(ex.val(fr, x.X), func(v Value) Value { return v.(*StructV).F[x.Field] }))
	case *ssa.IndexAddr:
		idx := ex.idxTerm(fr, x.Index)
		ex.setReg(fr, x, ex.each(ex.val(fr, x.X), func(v Value) Value {
			if p, ok := v.(*Ptr); ok {
				if !ex.nilCheck(p, x.Pos()) {
					return &Ptr{}
				}
				at := under(under(x.X.Type()).(*types.Pointer).Elem()).(*types.Array)
				ex.boundsCheck(idx, ex.ic(int(at.Len())), x.Pos())
				return ex.elemPtr(&SliceV{Base: p, Off: ex.ic(0)}, ex.forkIdx(idx, int(at.Len())))
			}
			s := v.(*SliceV)
			ex.boundsCheck(idx, s.Len, x.Pos())
			if ex.st.dead || s.Base == nil {
				ex.st.dead = true
				return &Ptr{}
			}
			if n, ok := conc(s.Len); ok {
				return ex.elemPtr(s, ex.forkIdx(idx, n))
			}
			return ex.elemPtr(s, idx)
		}))
	case *ssa.Index:
		idx := ex.idxTerm(fr, x.Index)
		ex.setReg(fr, x, ex.each(ex.val(fr, x.X), func(v Value) Value {
			switch a := v.(type) {
			case *ArrV:
				ex.boundsCheck(idx, ex.ic(len(a.E)), x.Pos())
				if ex.st.dead {
					return ex.zero(x.Type())
				}
				return ex.getPath(a, []PathEl{{F: -1, Idx: idx}})
			case *Str:
				b := ex.strBytes(a)
				ex.boundsCheck(idx, ex.ic(len(b)), x.Pos())
				if ex.st.dead {
					return ex.zero(x.Type())
				}
				return ex.iteChain(ex.candidates(idx, len(b)), func(k int) Value { return b[k] })
			}
			panic(unsup("index of %T", v))
		}))
	case *ssa.Lookup:
		ex.setReg(fr, x, ex.lookup(fr, x))
	case *ssa.Store:
		v := ex.val(fr, x.Val)
		ex.each(ex.val(fr, x.Addr), func(a Value) Value {
			p := a.(*Ptr)
			if ex.nilCheck(p, x.Pos()) {
				ex.store(p, v)
			}
			return &Tuple{}
		})
	case *ssa.Slice:
		ex.setReg(fr, x, ex.sliceInstr(fr, x))
	case *ssa.MakeSlice:
		et := under(x.Type()).(*types.Slice).Elem()
		ln, cp := ex.idxTerm(fr, x.Len), ex.idxTerm(fr, x.Cap)
		ex.raise(c.Not(c.And(ex.ile(ex.ic(0), ln), ex.ile(ln, cp))), "panic", "makeslice: len out of range", x.Pos())
		if ex.st.dead {
			return
		}
		ex.setReg(fr, x, ex.withInt(ln, func(n int) Value {
			return ex.withInt(cp, func(k int) Value { return ex.makeSlice(et, n, k) })
		}))
	case *ssa.MakeClosure:
		cl := &Closure{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			cl.Bind = append(cl.Bind, ex.val(fr, b))
		}
		ex.setReg(fr, x, cl)
	case *ssa.MakeMap:
		o := ex.newObj("map", nil, 1, false)
		ex.st.set(ckey{o, 0}, &MapData{})
		ex.setReg(fr, x, &MapRef{o})
	case *ssa.MapUpdate:
		ex.mapSet(ex.val(fr, x.Map), ex.val(fr, x.Key), ex.val(fr, x.Value), x.Pos())
	case *ssa.MakeChan:
		o := ex.newObj("chan", nil, 1, false)
		ex.st.set(ckey{o, 0}, &ChanData{})
		ex.setReg(fr, x, &ChanRef{o})
	case *ssa.Send:
		ex.chanSend(ex.val(fr, x.Chan).(*ChanRef), ex.val(fr, x.X))
	case *ssa.Extract:
		v := ex.val(fr, x.Tuple)
		ex.setReg(fr, x, ex.each(v, func(v Value) Value {
			t := v.(*Tuple)
			return t.E[x.Index]
		}))
	case *ssa.TypeAssert:
		v := ex.val(fr, x.X)
		ex.setReg(fr, x, ex.each(v, func(v Value) Value { return ex.typeAssert(x, v.(*Iface)) }))
	case *ssa.Call:
		v := ex.doCall(fr, &x.Call, x.Pos())
		if ex.st.dead {
			return
		}
		ex.setReg(fr, x, v)
	case *ssa.Go:
		ex.spawn(fr, x)
	case *ssa.Defer:
		ex.deferCall(fr, x)
	case *ssa.RunDefers:
		ex.runDefers(fr)
	case *ssa.Range:
		v := ex.val(fr, x.X)
		o := ex.newObj("iter", nil, 1, false)
		switch y := v.(type) {
		case *Str:
			ex.st.set(ckey{o, 0}, &iterV{s: y})
		case *MapRef:
			var md *MapData
			if y.O != nil {
				md = ex.cell(y.O, 0).(*MapData)
				ex.trackMap(y, false)
			} else {
				md = &MapData{}
			}
			ex.st.set(ckey{o, 0}, &iterV{m: md})
		default:
			panic(unsup("range over %T", v))
		}
		ex.setReg(fr, x, &MapRef{o})
	case *ssa.Next:
		ex.setReg(fr, x, ex.next(fr, x))
	case *ssa.Select:
		ex.setReg(fr, x, ex.selectOp(fr, x))
	case *ssa.SliceToArrayPointer:
		v := ex.val(fr, x.X)
		at := under(x.Type().(*types.Pointer).Elem()).(*types.Array)
		ex.setReg(fr, x, ex.each(v, func(v Value) Value {
			s := v.(*SliceV)
			ex.raise(ex.ilt(s.Len, ex.ic(int(at.Len()))), "panic", "slice to array conversion", x.Pos())
			if off, ok := conc(s.Off); ok && off == 0 && s.View == nil && s.Base != nil && s.Base.O.n == int(at.Len()) {
				return s.Base
			}
			panic(unsup("slice to array pointer"))
		}))
	default:
		panic(unsup("instruction %T", in))
	}
}

func (ex *Exec) unop(fr *Frame, x *ssa.UnOp) Value {
	v := ex.val(fr, x.X)
	switch x.Op {
	case token.MUL:
		return ex.each(v, func(v Value) Value {
			p, ok := v.(*Ptr)
			if !ok {
				panic(unsup("load from %T", v))
			}
			if !ex.nilCheck(p, x.Pos()) {
				return ex.zero(x.Type())
			}
			return ex.load(p)
		})
	case token.NOT:
		return ex.c.Not(v.(*Term))
	case token.SUB:
		ti := tinfoOf(x.Type())
		t := v.(*Term)
		if ti.k == 'f' {
			if ex.fp {
				return ex.c.Fun(OFNeg, t, 0)
			}
			return ex.c.Neg(t)
		}
		return ex.intBin(token.SUB, ex.c.BVc(ti.w, 0), t, ti)
	case token.XOR:
		ti := tinfoOf(x.Type())
		t := v.(*Term)
		if t.S.K == KInt {
			return ex.intBin(token.SUB, ex.intBin(token.SUB, ex.c.BVc(ti.w, 0), t, ti), ex.c.BVc(ti.w, 1), ti)
		}
		return ex.c.BVNot(t)
	case token.ARROW:
		r, ok := ex.chanRecv(v.(*ChanRef), under(x.X.Type()).(*types.Chan).Elem(), x.Pos())
		if x.CommaOk {
			return &Tuple{[]Value{r, ex.c.BoolC(ok)}}
		}
		return r
	}
	panic(unsup("unop %s", x.Op))
}

func (ex *Exec) typeAssert(x *ssa.TypeAssert, v *Iface) Value {
	ok := false
	if v.T != nil {
		if it, isI := under(x.AssertedType).(*types.Interface); isI {
			ok = types.Implements(v.T, it)
		} else {
			ok = types.Identical(v.T, x.AssertedType)
		}
	}
	var r Value
	if ok {
		if _, isI := under(x.AssertedType).(*types.Interface); isI {
			r = v
		} else {
			r = v.V
		}
	} else {
		r = ex.zero(x.AssertedType)
	}
	if x.CommaOk {
		return &Tuple{[]Value{r, ex.c.BoolC(ok)}}
	}
	if !ok {
		ex.raise(ex.c.True, "panic", "interface conversion", x.Pos())
	}
	return r
}

func (ex *Exec) mapFind(md *MapData, k Value) (int, bool) {
	for i := len(md.K) - 1; i >= 0; i-- {
		e := ex.valEq(md.K[i], k)
		if e.IsTrue() {
			return i, true
		}
		if !e.IsFalse() {
			panic(unsup("map with symbolic keys"))
		}
	}
	return -1, false
}

func (ex *Exec) mapSet(m, k, v Value, pos token.Pos) {
	ex.each(m, func(mv Value) Value {
		mr := mv.(*MapRef)
		if mr.O == nil {
			ex.raise(ex.c.True, "panic", "assignment to entry in nil map", pos)
			return &Tuple{}
		}
		md, ok := ex.cell(mr.O, 0).(*MapData)
		if !ok {
			panic(unsup("map merged under different keys"))
		}
		n := &MapData{append([]Value{}, md.K...), append([]Value{}, md.V...)}
		if i, ok := ex.mapFind(md, k); ok {
			n.V[i] = v
		} else {
			n.K = append(n.K, k)
			n.V = append(n.V, v)
		}
		ex.st.set(ckey{mr.O, 0}, n)
		ex.trackMap(mr, true)
		return &Tuple{}
	})
}

func (ex *Exec) lookup(fr *Frame, x *ssa.Lookup) Value {
	v := ex.val(fr, x.X)
	k := ex.val(fr, x.Index)
	if s, ok := v.(*Str); ok {
		idx := ex.idxTerm(fr, x.Index)
		b := ex.strBytes(s)
		ex.boundsCheck(idx, ex.ic(len(b)), x.Pos())
		if ex.st.dead {
			return ex.zero(x.Type())
		}
		return ex.iteChain(ex.candidates(idx, len(b)), func(k int) Value { return b[k] })
	}
	return ex.each(v, func(v Value) Value {
		mr := v.(*MapRef)
		et := under(x.X.Type()).(*types.Map).Elem()
		var r Value
		found := false
		if mr.O != nil {
			md, ok := ex.cell(mr.O, 0).(*MapData)
			if !ok {
				panic(unsup("map merged under different keys"))
			}
			ex.trackMap(mr, false)
			if i, ok := ex.mapFind(md, k); ok {
				r, found = md.V[i], true
			}
		}
		if !found {
			r = ex.zero(et)
		}
		if x.CommaOk {
			return &Tuple{[]Value{r, ex.c.BoolC(found)}}
		}
		return r
	})
}

func (ex *Exec) next(fr *Frame, x *ssa.Next) Value {
	o := ex.val(fr, x.Iter).(*MapRef).O
	it := ex.cell(o, 0).(*iterV)
	c := ex.c
	if it.s != nil {
		if it.s.B != nil || it.s.Op {
			panic(unsup("range over symbolic string"))
		}
		if it.pos >= len(it.s.S) {
			return &Tuple{[]Value{c.False, ex.ic(0), c.BVc(32, 0)}}
		}
		var r rune
		n := 0
		for i, q := range it.s.S[it.pos:] {
			if i == 0 {
				r = q
				n = len(string(q))
			}
			break
		}
		ex.st.set(ckey{o, 0}, &iterV{s: it.s, pos: it.pos + n})
		return &Tuple{[]Value{c.True, ex.ic(it.pos), c.BVc(32, uint64(r))}}
	}
	tt := x.Type().(*types.Tuple)
	if it.pos >= len(it.m.K) {
		kz, vz := Value(&Tuple{}), Value(&Tuple{})
		if tt.At(1).Type() != nil && tinfoOf(tt.At(1).Type()).k != 0 {
			kz = ex.zero(tt.At(1).Type())
		}
		return &Tuple{[]Value{c.False, kz, vz}}
	}
	ex.st.set(ckey{o, 0}, &iterV{m: it.m, pos: it.pos + 1})
	return &Tuple{[]Value{c.True, it.m.K[it.pos], it.m.V[it.pos]}}
}
