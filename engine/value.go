package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"os"
	"runtime/debug"

	"golang.org/x/tools/go/ssa"
)

type Unsup struct{ msg string }

func (u *Unsup) Error() string { return u.msg }
func unsup(f string, a ...interface{}) *Unsup {
	if os.Getenv("VX_STACK") != "" {
		debug.PrintStack()
	}
	return &Unsup{fmt.Sprintf(f, a...)}
}

type Value interface{}

type StructV struct{ F []Value }
type ArrV struct{ E []Value }

type Object struct {
	id   int
	name string
	arr  bool
	n    int        // cells
	et   types.Type // type of a cell
	zero Value
	fr   *Frame // register file of a frame
}

type PathEl struct {
	F   int
	Idx *Term // non-nil: array index
}

type Ptr struct {
	O    *Object
	I    *Term // cell index for array objects; nil = whole object
	Path []PathEl
	Cast types.Type // reinterpretation through unsafe: pointee type
	T    types.Type // pointee type of the uncast location (when Cast set)
}

type SliceV struct {
	Base          *Ptr // pointer to an array; nil for a nil slice
	Off, Len, Cap *Term
	View          types.Type // element type seen by the program when reinterpreted
	Orig          types.Type // stored element type when View != nil (Off, Len, Cap in units of View)
}

type Iface struct {
	T types.Type // nil: nil interface
	V Value
}

type Closure struct {
	Fn   *ssa.Function // nil: nil func
	Bind []Value
	Intr string // intrinsic method value
	Recv Value
	Bi   *ssa.Builtin
}

type Str struct {
	S  string
	B  []*Term // non-nil when some byte is symbolic
	Op bool    // opaque: contents unknown
}

type MapRef struct{ O *Object }
type MapData struct {
	K []Value
	V []Value
}
type ChanRef struct{ O *Object }
type ChanData struct {
	Q      []Value
	Closed bool
	VC     []vclock // what each sender knew
	CVC    vclock   // what the closer knew
}

type Tuple struct{ E []Value }

type FileH struct { // value of an *os.File cell
	F      *Object
	Off    int
	Closed bool
	Name   string
	Append bool
}
type FileData struct {
	Exists bool
	B      []*Term
}
type DataRef struct { // reflect.SliceHeader.Data
	S *SliceV
	T types.Type // element type of S
}
type UPtr struct{ P *Ptr } // unsafe.Pointer / opaque
type NativeV struct{ X interface{} }

type Alt struct {
	g *Term
	v Value
}
type Union struct{ A []Alt }

type iterV struct { // string / map range iterator
	s    *Str
	m    *MapData
	pos  int
	cell *Object
}

func under(t types.Type) types.Type { return t.Underlying() }

type tinfo struct {
	k      byte // 'b' bool 'i' int 'f' float 's' string 'u' unsafe pointer 0 other
	w      int
	signed bool
}

func tinfoOf(t types.Type) tinfo {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return tinfo{}
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return tinfo{'b', 1, false}
	case types.Int, types.Int64, types.UntypedInt:
		return tinfo{'i', 64, true}
	case types.Int32, types.UntypedRune:
		return tinfo{'i', 32, true}
	case types.Int16:
		return tinfo{'i', 16, true}
	case types.Int8:
		return tinfo{'i', 8, true}
	case types.Uint, types.Uint64, types.Uintptr:
		return tinfo{'i', 64, false}
	case types.Uint32:
		return tinfo{'i', 32, false}
	case types.Uint16:
		return tinfo{'i', 16, false}
	case types.Uint8:
		return tinfo{'i', 8, false}
	case types.Float64, types.UntypedFloat:
		return tinfo{'f', 64, true}
	case types.Float32:
		return tinfo{'f', 32, true}
	case types.String, types.UntypedString:
		return tinfo{'s', 0, false}
	case types.UnsafePointer:
		return tinfo{'u', 64, false}
	}
	return tinfo{}
}

func (ex *Exec) fsort(w int) Sort {
	if ex.fp {
		if w == 32 {
			return SF32
		}
		return SF64
	}
	return SReal
}

func (ex *Exec) zero(t types.Type) Value {
	c := ex.c
	switch u := under(t).(type) {
	case *types.Basic:
		ti := tinfoOf(t)
		switch ti.k {
		case 'b':
			return c.False
		case 'i':
			return c.BVc(ti.w, 0)
		case 'f':
			return ex.fconst(0, ti.w)
		case 's':
			return &Str{}
		case 'u':
			return &UPtr{}
		}
		if u.Kind() == types.UntypedNil {
			return &Iface{}
		}
		return &NativeV{nil}
	case *types.Pointer:
		return &Ptr{}
	case *types.Slice:
		z := c.BVc(64, 0)
		return &SliceV{Off: z, Len: z, Cap: z}
	case *types.Interface:
		return &Iface{}
	case *types.Signature:
		return &Closure{}
	case *types.Map:
		return &MapRef{}
	case *types.Chan:
		return &ChanRef{}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = ex.zero(u.Field(i).Type())
		}
		return &StructV{f}
	case *types.Array:
		n := int(u.Len())
		if n > 200000 {
			panic(unsup("array value of %d elements", n))
		}
		e := make([]Value, n)
		z := ex.zero(u.Elem())
		for i := range e {
			e[i] = z
		}
		return &ArrV{e}
	case *types.Tuple:
		f := make([]Value, u.Len())
		for i := range f {
			f[i] = ex.zero(u.At(i).Type())
		}
		return &Tuple{f}
	}
	return &NativeV{nil}
}

// fconst gives the constant for a Go float value.
func (ex *Exec) fconst(f float64, w int) *Term {
	if ex.fp {
		return ex.c.Fc(ex.fsort(w), f)
	}
	if math.IsInf(f, 1) {
		r := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(400), nil))
		return ex.c.Num(SReal, r)
	}
	if math.IsInf(f, -1) {
		r := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(400), nil))
		return ex.c.Num(SReal, r.Neg(r))
	}
	if math.IsNaN(f) {
		return ex.c.UF("NaN", SReal)
	}
	return ex.c.Num(SReal, simplestRat(f, w))
}

// simplestRat is the simplest rational that rounds to f in the given width.
func simplestRat(f float64, w int) *big.Rat {
	if f == math.Trunc(f) && math.Abs(f) < 1e15 {
		return new(big.Rat).SetInt64(int64(f))
	}
	if f < 0 {
		r := simplestRat(-f, w)
		return r.Neg(r)
	}
	var lo, hi float64
	x := new(big.Rat).SetFloat64(f)
	if w == 32 {
		g := float32(f)
		lo = float64(math.Nextafter32(g, 0))
		hi = float64(math.Nextafter32(g, math.MaxFloat32))
		x = new(big.Rat).SetFloat64(float64(g))
	} else {
		lo = math.Nextafter(f, 0)
		hi = math.Nextafter(f, math.MaxFloat64)
	}
	half := big.NewRat(1, 2)
	l := new(big.Rat).Add(x, new(big.Rat).SetFloat64(lo))
	l.Mul(l, half)
	h := new(big.Rat).Add(x, new(big.Rat).SetFloat64(hi))
	h.Mul(h, half)
	// shrink slightly towards x
	q := big.NewRat(1, 8)
	l.Add(l, new(big.Rat).Mul(q, new(big.Rat).Sub(x, l)))
	h.Sub(h, new(big.Rat).Mul(q, new(big.Rat).Sub(h, x)))
	return simplestBetween(l, h)
}

func simplestBetween(l, h *big.Rat) *big.Rat {
	fl := floorOf(l)
	if new(big.Rat).SetInt(fl).Cmp(l) == 0 {
		return new(big.Rat).SetInt(fl)
	}
	f1 := new(big.Rat).SetInt(new(big.Int).Add(fl, big.NewInt(1)))
	if f1.Cmp(h) <= 0 {
		return f1
	}
	fr := new(big.Rat).SetInt(fl)
	l2 := new(big.Rat).Inv(new(big.Rat).Sub(h, fr))
	h2 := new(big.Rat).Inv(new(big.Rat).Sub(l, fr))
	r := simplestBetween(l2, h2)
	r = new(big.Rat).Inv(r)
	return r.Add(r, fr)
}

func conc(t *Term) (int, bool) {
	if t.IsConst() {
		if t.R != nil {
			if !t.R.IsInt() {
				return 0, false
			}
			return int(t.R.Num().Int64()), true
		}
		return int(sext(t.U, t.S.W)), true
	}
	return 0, false
}

// ---------- merging of values

func (ex *Exec) mergeVal(g *Term, a, b Value) Value {
	if a == b {
		return a
	}
	if g.IsTrue() {
		return a
	}
	if g.IsFalse() {
		return b
	}
	c := ex.c
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return c.Ite(g, x, y)
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.F) == len(y.F) {
			f := make([]Value, len(x.F))
			for i := range f {
				f[i] = ex.mergeVal(g, x.F[i], y.F[i])
			}
			return &StructV{f}
		}
	case *ArrV:
		if y, ok := b.(*ArrV); ok && len(x.E) == len(y.E) {
			f := make([]Value, len(x.E))
			for i := range f {
				f[i] = ex.mergeVal(g, x.E[i], y.E[i])
			}
			return &ArrV{f}
		}
	case *Tuple:
		if y, ok := b.(*Tuple); ok && len(x.E) == len(y.E) {
			f := make([]Value, len(x.E))
			for i := range f {
				f[i] = ex.mergeVal(g, x.E[i], y.E[i])
			}
			return &Tuple{f}
		}
	case *Ptr:
		if y, ok := b.(*Ptr); ok {
			if m := ex.mergePtr(g, x, y); m != nil {
				return m
			}
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok {
			if x.Base == nil && y.Base == nil && x.Len == y.Len {
				return x
			}
			if x.Base != nil && y.Base != nil && x.View == y.View {
				if bp := ex.mergePtr(g, x.Base, y.Base); bp != nil {
					return &SliceV{Base: bp, Off: c.Ite(g, x.Off, y.Off), Len: c.Ite(g, x.Len, y.Len), Cap: c.Ite(g, x.Cap, y.Cap), View: x.View, Orig: x.Orig}
				}
			}
		}
	case *Iface:
		if y, ok := b.(*Iface); ok {
			if x.T == nil && y.T == nil {
				return x
			}
			if x.T != nil && y.T != nil && types.Identical(x.T, y.T) {
				m := ex.mergeVal(g, x.V, y.V)
				if u, ok := m.(*Union); ok {
					as := make([]Alt, len(u.A))
					for i, al := range u.A {
						as[i] = Alt{al.g, &Iface{x.T, al.v}}
					}
					return &Union{as}
				}
				return &Iface{x.T, m}
			}
		}
	case *Closure:
		if y, ok := b.(*Closure); ok && x.Fn == y.Fn && x.Intr == y.Intr && x.Bi == y.Bi && len(x.Bind) == len(y.Bind) {
			f := make([]Value, len(x.Bind))
			okk := true
			for i := range f {
				f[i] = ex.mergeVal(g, x.Bind[i], y.Bind[i])
			}
			if okk {
				return &Closure{Fn: x.Fn, Bind: f, Intr: x.Intr, Bi: x.Bi}
			}
		}
	case *Str:
		if y, ok := b.(*Str); ok {
			if !x.Op && !y.Op {
				if x.B == nil && y.B == nil && x.S == y.S {
					return x
				}
				xb, yb := ex.strBytes(x), ex.strBytes(y)
				if len(xb) == len(yb) {
					o := make([]*Term, len(xb))
					for i := range o {
						o[i] = c.Ite(g, xb[i], yb[i])
					}
					return ex.mkStr(o)
				}
			} else if x.Op && y.Op {
				return x
			}
		}
	case *MapRef:
		if y, ok := b.(*MapRef); ok && x.O == y.O {
			return x
		}
	case *ChanRef:
		if y, ok := b.(*ChanRef); ok && x.O == y.O {
			return x
		}
	case *UPtr:
		if y, ok := b.(*UPtr); ok {
			if x.P == nil && y.P == nil {
				return x
			}
			if x.P != nil && y.P != nil {
				if m := ex.mergePtr(g, x.P, y.P); m != nil {
					return &UPtr{m}
				}
			}
		}
	case *FileH:
		if y, ok := b.(*FileH); ok && *x == *y {
			return x
		}
	case *FileData:
		if y, ok := b.(*FileData); ok && x.Exists == y.Exists && len(x.B) == len(y.B) {
			o := make([]*Term, len(x.B))
			for i := range o {
				o[i] = c.Ite(g, x.B[i], y.B[i])
			}
			return &FileData{x.Exists, o}
		}
	case *MapData:
		if y, ok := b.(*MapData); ok && len(x.K) == len(y.K) {
			same := true
			for i := range x.K {
				if e := ex.valEq(x.K[i], y.K[i]); !e.IsTrue() {
					same = false
				}
			}
			if same {
				v := make([]Value, len(x.V))
				for i := range v {
					v[i] = ex.mergeVal(g, x.V[i], y.V[i])
				}
				return &MapData{x.K, v}
			}
		}
	case *NativeV:
		if y, ok := b.(*NativeV); ok && x.X == y.X {
			return x
		}
	}
	// general union
	var alts []Alt
	add := func(gg *Term, v Value) {
		if u, ok := v.(*Union); ok {
			for _, al := range u.A {
				ng := c.And(gg, al.g)
				if !ng.IsFalse() {
					alts = append(alts, Alt{ng, al.v})
				}
			}
			return
		}
		alts = append(alts, Alt{gg, v})
	}
	add(g, a)
	add(c.Not(g), b)
	// combine mergeable alternatives
	var out []Alt
	for _, al := range alts {
		done := false
		for i := range out {
			if out[i].v == al.v || ex.sameKind(out[i].v, al.v) {
				out[i].v = ex.mergeVal(al.g, al.v, out[i].v)
				out[i].g = c.Or(out[i].g, al.g)
				done = true
				break
			}
		}
		if !done {
			out = append(out, al)
		}
	}
	if len(out) == 1 {
		return out[0].v
	}
	if len(out) > 600 {
		panic(unsup("value union too large"))
	}
	return &Union{out}
}

// sameKind tells whether mergeVal of a and b would not create a union.
func (ex *Exec) sameKind(a, b Value) bool {
	switch x := a.(type) {
	case *Ptr:
		if y, ok := b.(*Ptr); ok {
			return ptrMergeable(x, y)
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok {
			if x.Base == nil || y.Base == nil {
				return x.Base == nil && y.Base == nil && x.Len == y.Len
			}
			return x.View == y.View && ptrMergeable(x.Base, y.Base)
		}
	case *Iface:
		if y, ok := b.(*Iface); ok {
			if x.T == nil || y.T == nil {
				return x.T == nil && y.T == nil
			}
			return types.Identical(x.T, y.T) && ex.sameKind(x.V, y.V)
		}
	case *Term:
		_, ok := b.(*Term)
		return ok
	case *Str:
		if y, ok := b.(*Str); ok {
			return x.Op == y.Op && (x.Op || len(ex.strBytes(x)) == len(ex.strBytes(y)))
		}
	case *Closure:
		if y, ok := b.(*Closure); ok {
			return x.Fn == y.Fn && x.Intr == y.Intr && x.Bi == y.Bi && len(x.Bind) == len(y.Bind)
		}
	case *FileH:
		if y, ok := b.(*FileH); ok {
			return *x == *y
		}
	}
	return false
}

func ptrMergeable(x, y *Ptr) bool {
	if x.O != y.O || (x.I == nil) != (y.I == nil) || len(x.Path) != len(y.Path) || x.Cast != y.Cast {
		return false
	}
	for i := range x.Path {
		if (x.Path[i].Idx == nil) != (y.Path[i].Idx == nil) || x.Path[i].F != y.Path[i].F {
			return false
		}
	}
	return true
}

func (ex *Exec) mergePtr(g *Term, x, y *Ptr) *Ptr {
	if !ptrMergeable(x, y) {
		return nil
	}
	r := &Ptr{O: x.O, Cast: x.Cast, T: x.T}
	if x.I != nil {
		r.I = ex.c.Ite(g, x.I, y.I)
	}
	for i := range x.Path {
		p := x.Path[i]
		if p.Idx != nil {
			p.Idx = ex.c.Ite(g, p.Idx, y.Path[i].Idx)
		}
		r.Path = append(r.Path, p)
	}
	return r
}

// ---------- strings

func (ex *Exec) strBytes(s *Str) []*Term {
	if s.Op {
		panic(unsup("contents of a symbolic formatted string"))
	}
	if s.B != nil {
		return s.B
	}
	o := make([]*Term, len(s.S))
	for i := range o {
		o[i] = ex.c.BVc(8, uint64(s.S[i]))
	}
	return o
}

func (ex *Exec) mkStr(b []*Term) *Str {
	all := true
	for _, t := range b {
		if !t.IsConst() {
			all = false
		}
	}
	if all {
		bs := make([]byte, len(b))
		for i, t := range b {
			bs[i] = byte(t.U)
		}
		return &Str{S: string(bs)}
	}
	return &Str{B: b}
}

// valEq compares two values of the same Go type.
func (ex *Exec) valEq(a, b Value) *Term {
	c := ex.c
	if u, ok := a.(*Union); ok {
		var or []*Term
		for _, al := range u.A {
			or = append(or, c.And(al.g, ex.valEq(al.v, b)))
		}
		return c.Or(or...)
	}
	if u, ok := b.(*Union); ok {
		return ex.valEq(u, a)
	}
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		if x.S.K == KF32 || x.S.K == KF64 {
			return c.Fcmp(OFEq, x, y)
		}
		return c.Eq(x, y)
	case *Str:
		y := b.(*Str)
		if x == y {
			return c.True
		}
		xb, yb := ex.strBytes(x), ex.strBytes(y)
		if len(xb) != len(yb) {
			return c.False
		}
		var cs []*Term
		for i := range xb {
			cs = append(cs, c.Eq(xb[i], yb[i]))
		}
		return c.And(cs...)
	case *StructV:
		y := b.(*StructV)
		var cs []*Term
		for i := range x.F {
			cs = append(cs, ex.valEq(x.F[i], y.F[i]))
		}
		return c.And(cs...)
	case *ArrV:
		y := b.(*ArrV)
		var cs []*Term
		for i := range x.E {
			cs = append(cs, ex.valEq(x.E[i], y.E[i]))
		}
		return c.And(cs...)
	case *Iface:
		y, ok := b.(*Iface)
		if !ok {
			return c.False
		}
		if x.T == nil || y.T == nil {
			return c.BoolC(x.T == nil && y.T == nil)
		}
		if !types.Identical(x.T, y.T) {
			return c.False
		}
		return ex.valEq(x.V, y.V)
	case *Ptr:
		y := b.(*Ptr)
		if x.O == nil || y.O == nil {
			return c.BoolC(x.O == nil && y.O == nil)
		}
		if !ptrMergeable(x, y) {
			return c.False
		}
		var cs []*Term
		if x.I != nil {
			cs = append(cs, c.Eq(x.I, y.I))
		}
		for i := range x.Path {
			if x.Path[i].Idx != nil {
				cs = append(cs, c.Eq(x.Path[i].Idx, y.Path[i].Idx))
			}
		}
		return c.And(cs...)
	case *SliceV: // only comparison with nil
		y := b.(*SliceV)
		if y.Base == nil {
			return c.BoolC(x.Base == nil)
		}
		if x.Base == nil {
			return c.BoolC(y.Base == nil)
		}
		panic(unsup("slice comparison"))
	case *Closure:
		y := b.(*Closure)
		if y.Fn == nil && y.Intr == "" && y.Bi == nil {
			return c.BoolC(x.Fn == nil && x.Intr == "" && x.Bi == nil)
		}
		return c.BoolC(x.Fn == y.Fn)
	case *MapRef:
		return c.BoolC(x.O == b.(*MapRef).O)
	case *ChanRef:
		return c.BoolC(x.O == b.(*ChanRef).O)
	case *UPtr:
		y := b.(*UPtr)
		if x.P == nil || y.P == nil {
			return c.BoolC(x.P == nil && y.P == nil)
		}
		return ex.valEq(x.P, y.P)
	case *NativeV:
		if y, ok := b.(*NativeV); ok {
			return c.BoolC(x.X == y.X)
		}
		return c.False
	}
	panic(unsup("comparison of %T", a))
}
