package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type deferNode struct {
	prev *deferNode
	call *ssa.CallCommon
	fn   Value
	args []Value
	pos  token.Pos
}

func (ex *Exec) doCall(fr *Frame, cc *ssa.CallCommon, pos token.Pos) Value {
	var args []Value
	for _, a := range cc.Args {
		args = append(args, ex.val(fr, a))
	}
	fv := ex.val(fr, cc.Value)
	return ex.callVal(cc, fv, args, pos)
}

func (ex *Exec) callVal(cc *ssa.CallCommon, fv Value, args []Value, pos token.Pos) Value {
	if cc != nil && cc.IsInvoke() {
		return ex.each(fv, func(v Value) Value {
			i, ok := v.(*Iface)
			if !ok {
				panic(unsup("invoke on %T", v))
			}
			if i.T == nil {
				ex.raise(ex.c.True, "panic", "nil interface method call", pos)
				return ex.resZero(cc.Signature())
			}
			fn := ex.eng.lookupMethod(i.T, cc.Method)
			if fn == nil {
				panic(unsup("no method %s on %s", cc.Method.Name(), i.T))
			}
			return ex.call(fn, append([]Value{i.V}, args...), nil, pos)
		})
	}
	return ex.each(fv, func(v Value) Value {
		cl, ok := v.(*Closure)
		if !ok {
			panic(unsup("call of %T", v))
		}
		if cl.Bi != nil {
			return ex.builtin(cl.Bi, cc, args, pos)
		}
		if cl.Intr == "swap" {
			s := cl.Recv.(*SliceV)
			p, q := ex.elemPtr(s, args[0].(*Term)), ex.elemPtr(s, args[1].(*Term))
			a, b := ex.load(p), ex.load(q)
			ex.store(p, b)
			ex.store(q, a)
			return &Tuple{}
		}
		if cl.Fn == nil {
			ex.raise(ex.c.True, "panic", "call of nil function", pos)
			if cc != nil {
				return ex.resZero(cc.Signature())
			}
			return &Tuple{}
		}
		return ex.call(cl.Fn, args, cl.Bind, pos)
	})
}

func (ex *Exec) resZero(sig *types.Signature) Value {
	r := sig.Results()
	if r.Len() == 1 {
		return ex.zero(r.At(0).Type())
	}
	return ex.zero(r)
}

func (ex *Exec) deferCall(fr *Frame, x *ssa.Defer) {
	var args []Value
	for _, a := range x.Call.Args {
		args = append(args, ex.val(fr, a))
	}
	fv := ex.val(fr, x.Call.Value)
	k := ckey{fr.obj, -2}
	var prev *deferNode
	if v, ok := ex.st.get(k); ok {
		n, isN := v.(*NativeV)
		if !isN {
			panic(unsup("conditional defers"))
		}
		prev, _ = n.X.(*deferNode)
	}
	ex.st.set(k, &NativeV{&deferNode{prev, &x.Call, fv, args, x.Pos()}})
}

func (ex *Exec) runDefers(fr *Frame) {
	k := ckey{fr.obj, -2}
	v, ok := ex.st.get(k)
	if !ok {
		return
	}
	ex.each(v, func(v Value) Value {
		d, _ := v.(*NativeV).X.(*deferNode)
		for d != nil && !ex.st.dead {
			ex.callVal(d.call, d.fn, d.args, d.pos)
			d = d.prev
		}
		return &Tuple{}
	})
	if !ex.st.dead {
		ex.st.set(k, &NativeV{(*deferNode)(nil)})
	}
}

func (ex *Exec) builtin(b *ssa.Builtin, cc *ssa.CallCommon, args []Value, pos token.Pos) Value {
	c := ex.c
	switch b.Name() {
	case "len":
		return ex.each(args[0], func(v Value) Value {
			switch x := v.(type) {
			case *SliceV:
				return x.Len
			case *Str:
				if x.Op {
					panic(unsup("length of symbolic string"))
				}
				if x.B != nil {
					return ex.ic(len(x.B))
				}
				return ex.ic(len(x.S))
			case *MapRef:
				if x.O == nil {
					return ex.ic(0)
				}
				return ex.ic(len(ex.cell(x.O, 0).(*MapData).K))
			case *ArrV:
				return ex.ic(len(x.E))
			case *ChanRef:
				return ex.ic(len(ex.cell(x.O, 0).(*ChanData).Q))
			case *Ptr:
				return ex.ic(int(under(under(cc.Args[0].Type()).(*types.Pointer).Elem()).(*types.Array).Len()))
			}
			panic(unsup("len of %T", v))
		})
	case "cap":
		return ex.each(args[0], func(v Value) Value {
			if s, ok := v.(*SliceV); ok {
				return s.Cap
			}
			if a, ok := v.(*ArrV); ok {
				return ex.ic(len(a.E))
			}
			panic(unsup("cap of %T", v))
		})
	case "append":
		t := b.Type().(*types.Signature).Params().At(0).Type()
		return ex.appendOp(t, args[0], args[1])
	case "copy":
		return ex.copyOp(args[0], args[1])
	case "panic":
		ex.raise(c.True, "panic", ex.describe(args[0]), pos)
		return &Tuple{}
	case "print", "println":
		return &Tuple{}
	case "recover":
		return &Iface{}
	case "delete":
		mr := args[0].(*MapRef)
		if mr.O != nil {
			md := ex.cell(mr.O, 0).(*MapData)
			if i, ok := ex.mapFind(md, args[1]); ok {
				n := &MapData{}
				for j := range md.K {
					if j != i {
						n.K = append(n.K, md.K[j])
						n.V = append(n.V, md.V[j])
					}
				}
				ex.st.set(ckey{mr.O, 0}, n)
			}
			ex.trackMap(mr, true)
		}
		return &Tuple{}
	case "close":
		ch := args[0].(*ChanRef)
		cd := ex.cell(ch.O, 0).(*ChanData)
		ex.st.set(ckey{ch.O, 0}, &ChanData{cd.Q, true, cd.VC, ex.release()})
		return &Tuple{}
	case "min", "max":
		t := cc.Args[0].Type()
		r := args[0].(*Term)
		op := token.LSS
		if b.Name() == "max" {
			op = token.GTR
		}
		for _, a := range args[1:] {
			g := ex.binopV(op, a, r, t, t, pos).(*Term)
			r = ex.sel(g, a.(*Term), r)
		}
		return r
	case "clear":
		if s, ok := args[0].(*SliceV); ok {
			n := ex.sliceLen(s)
			z := ex.zero(under(cc.Args[0].Type()).(*types.Slice).Elem())
			for i := 0; i < n; i++ {
				ex.store(ex.elemPtr(s, ex.ic(i)), z)
			}
			return &Tuple{}
		}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Ptr); ok && p.O == nil {
			ex.raise(c.True, "panic", "nil pointer dereference", pos)
		}
		return args[0]
	case "Slice": // unsafe.Slice
		return ex.unsafeSlice(args[0].(*Ptr), args[1].(*Term), cc)
	case "SliceData":
		s := args[0].(*SliceV)
		if s.Base == nil {
			return &Ptr{}
		}
		return ex.elemPtr(s, ex.ic(0))
	case "String":
		p := args[0].(*Ptr)
		s := ex.unsafeSlice(p, args[1].(*Term), nil)
		bs := ex.sliceVals(s)
		o := make([]*Term, len(bs))
		for i := range bs {
			o[i] = bs[i].(*Term)
		}
		return ex.mkStr(o)
	case "StringData":
		b := ex.strBytes(args[0].(*Str))
		vs := make([]Value, len(b))
		for i := range b {
			vs[i] = b[i]
		}
		sl := ex.mkSlice(types.Typ[types.Uint8], vs)
		return ex.elemPtr(sl, ex.ic(0))
	}
	if b.Name() == "Sizeof" {
		return ex.ic(int(types.SizesFor("gc", "amd64").Sizeof(cc.Args[0].Type())))
	}
	panic(unsup("builtin %s", b.Name()))
}

// ---------- goroutines and channels

func (ex *Exec) spawn(fr *Frame, x *ssa.Go) {
	var args []Value
	for _, a := range x.Call.Args {
		args = append(args, ex.val(fr, a))
	}
	ex.ngor++
	g := &goro{id: ex.ngor, fn: ex.val(fr, x.Call.Value), args: args, call: &x.Call, vc: ex.release()}
	g.vc[g.id] = 1
	if len(ex.pcList()) > 0 && ex.pending > 0 {
		panic(unsup("goroutine started under a symbolic condition"))
	}
	ex.gor = append(ex.gor, g)
	if ex.opt.Race {
		ex.race.live++
	}
}

// runOne runs one pending goroutine to completion; the choice is a decision of the schedule.
func (ex *Exec) runOne() bool {
	if len(ex.gor) == 0 {
		return false
	}
	k := 0
	if ex.opt.Sched == "" {
		k = ex.pick(len(ex.gor))
	}
	if ex.opt.Sched == "lifo" {
		k = len(ex.gor) - 1
	}
	g := ex.gor[k]
	ex.gor = append(append([]*goro{}, ex.gor[:k]...), ex.gor[k+1:]...)
	saved := ex.curg
	ex.curg = g
	ex.callVal(g.call, g.fn, g.args, token.NoPos)
	ex.curg = saved
	ex.race.done = append(ex.race.done, g)
	return true
}

func (ex *Exec) chanSend(ch *ChanRef, v Value) {
	if ch.O == nil {
		panic(unsup("send on nil channel"))
	}
	cd, ok := ex.cell(ch.O, 0).(*ChanData)
	if !ok {
		panic(unsup("channel state merged"))
	}
	ex.st.set(ckey{ch.O, 0}, &ChanData{append(append([]Value{}, cd.Q...), v), cd.Closed, append(append([]vclock{}, cd.VC...), ex.release()), cd.CVC})
}

func (ex *Exec) chanRecv(ch *ChanRef, et types.Type, pos token.Pos) (Value, bool) {
	for {
		cd, ok := ex.cell(ch.O, 0).(*ChanData)
		if !ok {
			panic(unsup("channel state merged"))
		}
		if len(cd.Q) > 0 {
			ex.st.set(ckey{ch.O, 0}, &ChanData{append([]Value{}, cd.Q[1:]...), cd.Closed, append([]vclock{}, cd.VC[1:]...), cd.CVC})
			ex.acquire(cd.VC[0])
			return cd.Q[0], true
		}
		if cd.Closed {
			ex.acquire(cd.CVC)
			return ex.zero(et), false
		}
		if !ex.runOne() {
			ex.raise(ex.c.True, "deadlock", "receive with no runnable sender", pos)
			return ex.zero(et), false
		}
		if ex.st.dead {
			return ex.zero(et), false
		}
	}
}

func (ex *Exec) selectOp(fr *Frame, x *ssa.Select) Value {
	for {
		for i, s := range x.States {
			ch := ex.val(fr, s.Chan).(*ChanRef)
			if ch.O == nil {
				continue
			}
			if s.Dir == types.SendOnly {
				ex.chanSend(ch, ex.val(fr, s.Send))
			} else {
				cd := ex.cell(ch.O, 0).(*ChanData)
				if len(cd.Q) == 0 && !cd.Closed {
					continue
				}
			}
			out := []Value{ex.ic(i), ex.c.False}
			for j, s2 := range x.States {
				if s2.Dir == types.SendOnly {
					continue
				}
				et := under(s2.Chan.Type()).(*types.Chan).Elem()
				if j == i {
					v, ok := ex.chanRecv(ch, et, x.Pos())
					out[1] = ex.c.BoolC(ok)
					out = append(out, v)
				} else {
					out = append(out, ex.zero(et))
				}
			}
			return &Tuple{out}
		}
		if !x.Blocking {
			out := []Value{ex.ic(-1), ex.c.False}
			for _, s2 := range x.States {
				if s2.Dir != types.SendOnly {
					out = append(out, ex.zero(under(s2.Chan.Type()).(*types.Chan).Elem()))
				}
			}
			return &Tuple{out}
		}
		if !ex.runOne() {
			ex.raise(ex.c.True, "deadlock", "select with no runnable goroutine", x.Pos())
			return &Tuple{[]Value{ex.ic(0), ex.c.False}}
		}
	}
}

// ---------- memory reinterpretation

var stdSizes = types.SizesFor("gc", "amd64")

func (ex *Exec) floatBits(t *Term, w int) *Term {
	if ex.fp {
		return ex.c.FToBits(t)
	}
	if t.Op == OUF && t.Name == fmt.Sprintf("f%d_of_bits", w) {
		return t.A[0]
	}
	if t.Op == OIte && bitsLeaves(t, fmt.Sprintf("f%d_of_bits", w)) {
		return ex.c.Ite(t.A[0], ex.floatBits(t.A[1], w), ex.floatBits(t.A[2], w))
	}
	if t.IsConst() {
		f := ratToFloat(t.R)
		if w == 32 {
			return ex.c.BVc(32, ex.eng.f32bits(f))
		}
		return ex.c.BVc(64, ex.eng.f64bits(f))
	}
	return ex.c.UF(fmt.Sprintf("bits_of_f%d", w), BV(w), t)
}

// bitsLeaves reports whether the bits of every branch of t are known: otherwise the bits of the whole are
// kept together, so that taking them apart into bytes and joining them again gives t back.
func bitsLeaves(t *Term, uf string) bool {
	if t.Op == OIte {
		return bitsLeaves(t.A[1], uf) && bitsLeaves(t.A[2], uf)
	}
	return t.IsConst() || t.Op == OUF && t.Name == uf
}

func (ex *Exec) bitsFloat(b *Term, w int) *Term {
	if ex.fp {
		return ex.c.FFromBits(b, ex.fsort(w))
	}
	if b.IsConst() {
		if w == 32 {
			return ex.fconst(float64(f32frombits(uint32(b.U))), 32)
		}
		return ex.fconst(f64frombits(b.U), 64)
	}
	if b.Op == OUF && b.Name == fmt.Sprintf("bits_of_f%d", w) {
		return b.A[0]
	}
	if b.Op == OIte {
		return ex.c.Ite(b.A[0], ex.bitsFloat(b.A[1], w), ex.bitsFloat(b.A[2], w))
	}
	return ex.c.UF(fmt.Sprintf("f%d_of_bits", w), SReal, b)
}

// toBytes flattens a value; pad selects in-memory layout (little endian) as opposed to packed.
func (ex *Exec) toBytes(v Value, t types.Type, little, pad bool) []*Term {
	c := ex.c
	if u, ok := v.(*Union); ok {
		_ = u
		panic(unsup("bytes of a union"))
	}
	switch u := under(t).(type) {
	case *types.Basic:
		ti := tinfoOf(t)
		var b *Term
		switch ti.k {
		case 'b':
			b = c.Ite(v.(*Term), c.BVc(8, 1), c.BVc(8, 0))
		case 'i':
			b = c.ToBV(v.(*Term), ti.w)
		case 'f':
			b = ex.floatBits(v.(*Term), ti.w)
		default:
			panic(unsup("bytes of %s", t))
		}
		n := b.S.W / 8
		out := make([]*Term, n)
		for i := 0; i < n; i++ {
			j := i
			if !little {
				j = n - 1 - i
			}
			out[j] = c.Extract(b, 8*i+7, 8*i)
		}
		return out
	case *types.Array:
		var out []*Term
		for _, e := range v.(*ArrV).E {
			out = append(out, ex.toBytes(e, u.Elem(), little, pad)...)
		}
		return out
	case *types.Struct:
		var out []*Term
		var offs []int64
		if pad {
			var fs []*types.Var
			for i := 0; i < u.NumFields(); i++ {
				fs = append(fs, u.Field(i))
			}
			offs = stdSizes.Offsetsof(fs)
		}
		for i, e := range v.(*StructV).F {
			if pad {
				for int64(len(out)) < offs[i] {
					out = append(out, c.BVc(8, 0))
				}
			}
			out = append(out, ex.toBytes(e, u.Field(i).Type(), little, pad)...)
		}
		if pad {
			for int64(len(out)) < stdSizes.Sizeof(t) {
				out = append(out, c.BVc(8, 0))
			}
		}
		return out
	case *types.Slice:
		var out []*Term
		for _, e := range ex.sliceVals(v.(*SliceV)) {
			out = append(out, ex.toBytes(e, u.Elem(), little, pad)...)
		}
		return out
	}
	panic(unsup("bytes of %s", t))
}

func packedSize(t types.Type) int {
	switch u := under(t).(type) {
	case *types.Basic:
		ti := tinfoOf(t)
		if ti.k == 'b' {
			return 1
		}
		if ti.k == 's' || ti.k == 'u' || ti.k == 0 {
			return -1
		}
		if u.Kind() == types.Int || u.Kind() == types.Uint || u.Kind() == types.Uintptr {
			return -1
		}
		return ti.w / 8
	case *types.Array:
		n := packedSize(u.Elem())
		if n < 0 {
			return -1
		}
		return n * int(u.Len())
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			k := packedSize(u.Field(i).Type())
			if k < 0 {
				return -1
			}
			n += k
		}
		return n
	}
	return -1
}

func (ex *Exec) fromBytes(b []*Term, t types.Type, little, pad bool) Value {
	v, _ := ex.fromBytes1(b, t, little, pad)
	return v
}

func (ex *Exec) fromBytes1(b []*Term, t types.Type, little, pad bool) (Value, int) {
	c := ex.c
	switch u := under(t).(type) {
	case *types.Basic:
		ti := tinfoOf(t)
		n := ti.w / 8
		if ti.k == 'b' {
			n = 1
		}
		if n == 0 {
			panic(unsup("decode %s", t))
		}
		var x *Term
		for i := 0; i < n; i++ {
			j := i
			if !little {
				j = n - 1 - i
			}
			if x == nil {
				x = b[j]
			} else {
				x = c.Concat(b[j], x)
			}
		}
		switch ti.k {
		case 'b':
			return c.Not(c.Eq(x, c.BVc(8, 0))), 1
		case 'i':
			return x, n
		case 'f':
			return ex.bitsFloat(x, ti.w), n
		}
	case *types.Array:
		out := &ArrV{}
		k := 0
		for i := 0; i < int(u.Len()); i++ {
			e, n := ex.fromBytes1(b[k:], u.Elem(), little, pad)
			out.E = append(out.E, e)
			k += n
		}
		return out, k
	case *types.Struct:
		out := &StructV{}
		k := 0
		var offs []int64
		if pad {
			var fs []*types.Var
			for i := 0; i < u.NumFields(); i++ {
				fs = append(fs, u.Field(i))
			}
			offs = stdSizes.Offsetsof(fs)
		}
		for i := 0; i < u.NumFields(); i++ {
			if pad {
				k = int(offs[i])
			}
			e, n := ex.fromBytes1(b[k:], u.Field(i).Type(), little, pad)
			out.F = append(out.F, e)
			k += n
		}
		if pad {
			k = int(stdSizes.Sizeof(t))
		}
		return out, k
	}
	panic(unsup("decode %s", t))
}

func isSliceHeader(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "SliceHeader"
}

func (ex *Exec) castPtr(p *Ptr, to types.Type) *Ptr {
	if p.O == nil {
		return &Ptr{}
	}
	q := *p
	if q.Cast == nil {
		if q.T == nil || types.Identical(q.T, to) {
			q.T = nil
			return &q
		}
	} else if types.Identical(q.T, to) {
		q.Cast, q.T = nil, nil
		return &q
	}
	q.Cast = to
	return &q
}

func (ex *Exec) castValue(v Value, from, to types.Type) Value {
	if types.Identical(from, to) {
		return v
	}
	if fs, ok := under(from).(*types.Slice); ok && isSliceHeader(to) {
		s := v.(*SliceV)
		return &StructV{[]Value{&DataRef{s, fs.Elem()}, s.Len, s.Cap}}
	}
	if ts, ok := under(to).(*types.Slice); ok && isSliceHeader(from) {
		h := v.(*StructV)
		d, ok := h.F[0].(*DataRef)
		if !ok {
			return &SliceV{Off: ex.ic(0), Len: h.F[1].(*Term), Cap: h.F[2].(*Term)}
		}
		return ex.viewSlice(d.S, d.T, ts.Elem(), h.F[1].(*Term), h.F[2].(*Term))
	}
	if fs, ok := under(from).(*types.Slice); ok {
		if ts, ok := under(to).(*types.Slice); ok { // *(*[]T)(unsafe.Pointer(&[]U)): same len/cap
			s := v.(*SliceV)
			return ex.viewSlice(s, fs.Elem(), ts.Elem(), s.Len, s.Cap)
		}
	}
	if stdSizes.Sizeof(from) >= stdSizes.Sizeof(to) {
		b := ex.toBytes(v, from, true, true)
		return ex.fromBytes(b, to, true, true)
	}
	panic(unsup("unsafe cast %s -> %s", from, to))
}

func (ex *Exec) viewSlice(s *SliceV, from, to types.Type, ln, cp *Term) *SliceV {
	if s.Base == nil {
		return &SliceV{Off: ex.ic(0), Len: ln, Cap: cp}
	}
	orig := from
	if s.View != nil {
		orig = s.Orig
	}
	if types.Identical(under(orig), under(to)) {
		off := s.Off
		if s.View != nil {
			o, ok := conc(off)
			if !ok {
				panic(unsup("symbolic view offset"))
			}
			off = ex.ic(o * int(stdSizes.Sizeof(s.View)) / int(stdSizes.Sizeof(orig)))
		}
		return &SliceV{Base: s.Base, Off: off, Len: ln, Cap: cp}
	}
	o, ok := conc(s.Off)
	if !ok {
		panic(unsup("symbolic view offset"))
	}
	ob := o * int(stdSizes.Sizeof(from))
	ts := int(stdSizes.Sizeof(to))
	if ob%ts != 0 {
		panic(unsup("misaligned view"))
	}
	return &SliceV{Base: s.Base, Off: ex.ic(ob / ts), Len: ln, Cap: cp, View: to, Orig: orig}
}

func (ex *Exec) unsafeSlice(p *Ptr, n *Term, cc *ssa.CallCommon) *SliceV {
	if p.O == nil {
		return &SliceV{Off: ex.ic(0), Len: n, Cap: n}
	}
	n = ex.c.ToBV(n, 64)
	q := *p
	// view element pointer
	if len(q.Path) > 0 && q.Path[len(q.Path)-1].F == -2 {
		last := q.Path[len(q.Path)-1]
		return &SliceV{Base: &Ptr{O: q.O, I: q.I, Path: q.Path[:len(q.Path)-1]}, Off: last.Idx, Len: n, Cap: n, View: q.Cast, Orig: q.T}
	}
	orig := q.T
	// strip zero indices into nested arrays at the end of the path
	for len(q.Path) > 0 {
		l := q.Path[len(q.Path)-1]
		k, ok := 0, true
		if l.Idx != nil {
			k, ok = conc(l.Idx)
		} else {
			break
		}
		if !ok || k != 0 || !q.O.arr {
			break
		}
		q.Path = q.Path[:len(q.Path)-1]
		orig = q.O.et
	}
	if q.O.arr && q.I != nil && len(q.Path) == 0 {
		if q.Cast == nil && orig == nil {
			return &SliceV{Base: &Ptr{O: q.O}, Off: q.I, Len: n, Cap: n}
		}
		to := q.Cast
		if to == nil {
			to = p.T
		}
		if to == nil && cc != nil {
			to = under(cc.Args[0].Type()).(*types.Pointer).Elem()
		}
		return ex.viewSlice(&SliceV{Base: &Ptr{O: q.O}, Off: q.I, Len: n, Cap: n}, q.O.et, to, n, n)
	}
	panic(unsup("unsafe.Slice of this pointer"))
}

func splitCast(p *Ptr) int {
	// index in Path where the cast applies: view element paths carry F == -2
	for i, e := range p.Path {
		if e.F == -2 {
			return i
		}
	}
	return -1
}

func (ex *Exec) loadCast(p *Ptr) Value {
	i := splitCast(p)
	if i < 0 {
		base := &Ptr{O: p.O, I: p.I, Path: p.Path}
		var extra []PathEl
		// fields selected after the cast
		n := ex.castDepth(p)
		extra = p.Path[n:]
		base.Path = p.Path[:n]
		v := ex.load(base)
		return ex.getPath(ex.castValue(v, p.T, p.Cast), extra)
	}
	vs := int(stdSizes.Sizeof(p.Cast))
	os := int(stdSizes.Sizeof(p.T))
	k, ok := conc(p.Path[i].Idx)
	if !ok {
		panic(unsup("symbolic index into a reinterpreted slice"))
	}
	base := &SliceV{Base: &Ptr{O: p.O, I: p.I, Path: p.Path[:i]}, Off: ex.ic(0)}
	var bs []*Term
	for b := k * vs; b < (k+1)*vs; {
		e := b / os
		fb := ex.toBytes(ex.load(ex.elemPtr(base, ex.ic(e))), p.T, true, true)
		for b < (k+1)*vs && b/os == e {
			bs = append(bs, fb[b%os])
			b++
		}
	}
	return ex.getPath(ex.fromBytes(bs, p.Cast, true, true), p.Path[i+1:])
}

// castDepth: number of path elements that belong to the uncast location.
func (ex *Exec) castDepth(p *Ptr) int {
	// path elements after the cast are fields of p.Cast; the location itself has type p.T.
	// Walk from the object's cell type.
	var t types.Type = p.O.et
	if p.O.arr && p.I == nil {
		t = types.NewArray(p.O.et, int64(p.O.n))
	}
	if types.Identical(t, p.T) {
		return 0
	}
	for i, e := range p.Path {
		switch u := under(t).(type) {
		case *types.Struct:
			t = u.Field(e.F).Type()
		case *types.Array:
			t = u.Elem()
		}
		if types.Identical(t, p.T) {
			return i + 1
		}
	}
	panic(unsup("cast location"))
}

func (ex *Exec) storeCast(p *Ptr, v Value) {
	i := splitCast(p)
	if i < 0 {
		n := ex.castDepth(p)
		base := &Ptr{O: p.O, I: p.I, Path: p.Path[:n]}
		old := ex.castValue(ex.load(base), p.T, p.Cast)
		nv := ex.setPath(old, p.Path[n:], v)
		ex.store(base, ex.castValue(nv, p.Cast, p.T))
		return
	}
	vs := int(stdSizes.Sizeof(p.Cast))
	os := int(stdSizes.Sizeof(p.T))
	k, ok := conc(p.Path[i].Idx)
	if !ok {
		panic(unsup("symbolic index into a reinterpreted slice"))
	}
	if len(p.Path) > i+1 {
		q := *p
		q.Path = p.Path[:i+1]
		v = ex.setPath(ex.loadCast(&q), p.Path[i+1:], v)
	}
	bs := ex.toBytes(v, p.Cast, true, true)
	base := &SliceV{Base: &Ptr{O: p.O, I: p.I, Path: p.Path[:i]}, Off: ex.ic(0)}
	for b := k * vs; b < (k+1)*vs; {
		e := b / os
		ep := ex.elemPtr(base, ex.ic(e))
		fb := ex.toBytes(ex.load(ep), p.T, true, true)
		for b < (k+1)*vs && b/os == e {
			fb[b%os] = bs[b-k*vs]
			b++
		}
		ex.store(ep, ex.fromBytes(fb, p.T, true, true))
	}
}

func isRepoFn(fn *ssa.Function, prefix string) bool {
	return fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), prefix)
}
