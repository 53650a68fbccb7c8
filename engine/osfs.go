package main

import (
	"go/token"
	"go/types"
	"path"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An in-memory file system stands in for the operating system.

func (ex *Exec) fileObj(name string) *Object {
	name = path.Clean(name)
	if o, ok := ex.fs[name]; ok {
		return o
	}
	root := ex.st
	for root.parent != nil {
		root = root.parent
	}
	o := &Object{id: ex.nextID(), name: "file " + name, n: 1, zero: &FileData{}}
	root.cells[ckey{o, -1}] = o
	ex.fs[name] = o
	return o
}

// dirObj is the record of a directory; its key cannot be the one of a file.
func (ex *Exec) dirObj(p string) *Object {
	key := p + "/"
	if o, ok := ex.fs[key]; ok {
		return o
	}
	root := ex.st
	for root.parent != nil {
		root = root.parent
	}
	o := &Object{id: ex.nextID(), name: "directory " + p, n: 1, zero: &FileData{}}
	root.cells[ckey{o, -1}] = o
	ex.fs[key] = o
	return o
}

func (ex *Exec) hasDir(p string) bool {
	switch p {
	case "/", ".", "/vxtmp", "/tmp":
		return true
	}
	return ex.fdata(ex.dirObj(p)).Exists
}

func (ex *Exec) fileStatType() types.Type {
	p := ex.eng.pkgs["os"]
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup("fileStat")
	if o == nil {
		return nil
	}
	return o.Type()
}

func (ex *Exec) fileInfo(t types.Type, file string) Value {
	if t == nil {
		panic(unsup("file information"))
	}
	v := ex.zero(t).(*StructV)
	st := under(t).(*types.Struct)
	f := append([]Value{}, v.F...)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "name" {
			f[i] = &Str{S: path.Base(file)}
		}
		if o, ok := ex.fs[file]; ok && st.Field(i).Name() == "size" {
			f[i] = ex.ic(len(ex.fdata(o).B))
		}
		if st.Field(i).Name() == "mode" {
			m := uint64(0644)
			if ex.hasDir(path.Clean(file)) {
				m = 1<<31 | 0755
			}
			f[i] = ex.c.BVc(32, m)
		}
	}
	return &Iface{T: types.NewPointer(t), V: ex.allocVal("os.fileStat", t, &StructV{f})}
}

func (ex *Exec) fdata(o *Object) *FileData {
	d, ok := ex.cell(o, 0).(*FileData)
	if !ok {
		panic(unsup("file contents of symbolic length"))
	}
	return d
}

func (ex *Exec) newHandle(h *FileH) *Ptr {
	o := ex.newObj("*os.File", nil, 1, false)
	ex.st.set(ckey{o, 0}, h)
	return &Ptr{O: o}
}

func (ex *Exec) byteSlice(b []*Term) *SliceV {
	vs := make([]Value, len(b))
	for i := range b {
		vs[i] = b[i]
	}
	return ex.mkSlice(types.Typ[types.Uint8], vs)
}

func (ex *Exec) sliceBytes(v Value) []*Term {
	vs := ex.sliceVals(v.(*SliceV))
	o := make([]*Term, len(vs))
	for i := range vs {
		o[i] = ex.c.ToBV(vs[i].(*Term), 8)
	}
	return o
}

func (ex *Exec) errTuple(vs ...Value) Value { return &Tuple{vs} }

func noErr() *Iface { return &Iface{} }

func (ex *Exec) osFn(fn *ssa.Function, recv, name string, args []Value, pos token.Pos) (Value, bool) {
	if recv == "fileStat" {
		return nil, false
	}
	if recv == "File" {
		return ex.fileOp(fn, name, args, pos), true
	}
	missing := func(p string) *Iface { return ex.mkErr("open " + p + ": no such file or directory") }
	switch name {
	case "Exit":
		ex.raise(ex.c.True, "exit", "os.Exit", pos)
		return &Tuple{}, true
	case "Create":
		p := strArg(args[0])
		if !ex.hasDir(path.Dir(path.Clean(p))) {
			return &Tuple{[]Value{&Ptr{}, missing(p)}}, true
		}
		o := ex.fileObj(p)
		ex.st.set(ckey{o, 0}, &FileData{Exists: true})
		return &Tuple{[]Value{ex.newHandle(&FileH{F: o, Name: p}), noErr()}}, true
	case "Open":
		p := strArg(args[0])
		o := ex.fileObj(p)
		if !ex.fdata(o).Exists {
			return &Tuple{[]Value{&Ptr{}, missing(p)}}, true
		}
		return &Tuple{[]Value{ex.newHandle(&FileH{F: o, Name: p}), noErr()}}, true
	case "OpenFile":
		p := strArg(args[0])
		fl := ex.concInt(args[1])
		o := ex.fileObj(p)
		d := ex.fdata(o)
		if !d.Exists && (fl&0x40 == 0 || !ex.hasDir(path.Dir(path.Clean(p)))) {
			return &Tuple{[]Value{&Ptr{}, missing(p)}}, true
		}
		if !d.Exists || fl&0x200 != 0 {
			ex.st.set(ckey{o, 0}, &FileData{Exists: true})
		}
		return &Tuple{[]Value{ex.newHandle(&FileH{F: o, Name: p, Append: fl&0x400 != 0}), noErr()}}, true
	case "ReadFile":
		p := strArg(args[0])
		o := ex.fileObj(p)
		d := ex.fdata(o)
		if !d.Exists {
			return &Tuple{[]Value{ex.zero(fn.Signature.Results().At(0).Type()), missing(p)}}, true
		}
		return &Tuple{[]Value{ex.byteSlice(d.B), noErr()}}, true
	case "WriteFile":
		if p := strArg(args[0]); !ex.hasDir(path.Dir(path.Clean(p))) {
			return missing(p), true
		}
		o := ex.fileObj(strArg(args[0]))
		ex.st.set(ckey{o, 0}, &FileData{true, ex.sliceBytes(args[1])})
		return noErr(), true
	case "Remove", "RemoveAll":
		p := strArg(args[0])
		o := ex.fileObj(p)
		if !ex.fdata(o).Exists && name == "Remove" {
			return missing(p), true
		}
		ex.st.set(ckey{o, 0}, &FileData{})
		if name == "RemoveAll" {
			for n, o := range ex.fs {
				if strings.HasPrefix(n, path.Clean(p)+"/") {
					ex.st.set(ckey{o, 0}, &FileData{})
				}
			}
		}
		return noErr(), true
	case "Rename":
		from, to := ex.fileObj(strArg(args[0])), ex.fileObj(strArg(args[1]))
		d := ex.fdata(from)
		if ex.hasDir(path.Clean(strArg(args[0]))) {
			panic(unsup("os.Rename of a directory"))
		}
		if !d.Exists || !ex.hasDir(path.Dir(path.Clean(strArg(args[1])))) {
			return missing(strArg(args[0])), true
		}
		if from != to {
			ex.st.set(ckey{to, 0}, d)
			ex.st.set(ckey{from, 0}, &FileData{})
		}
		return noErr(), true
	case "Truncate":
		p := strArg(args[0])
		o := ex.fileObj(p)
		d := ex.fdata(o)
		if !d.Exists {
			return missing(p), true
		}
		ex.st.set(ckey{o, 0}, &FileData{true, ex.trunc(d.B, ex.concInt(args[1]))})
		return noErr(), true
	case "MkdirAll", "Mkdir":
		p := path.Clean(strArg(args[0]))
		if name == "Mkdir" && (ex.hasDir(p) || !ex.hasDir(path.Dir(p))) {
			return ex.mkErr("mkdir " + p), true
		}
		for ; !ex.hasDir(p); p = path.Dir(p) {
			ex.st.set(ckey{ex.dirObj(p), 0}, &FileData{Exists: true})
		}
		return noErr(), true
	case "ReadDir":
		p := path.Clean(strArg(args[0]))
		rt := fn.Signature.Results().At(0).Type()
		if !ex.hasDir(p) {
			return &Tuple{[]Value{ex.zero(rt), missing(p)}}, true
		}
		ft := ex.fileStatType()
		if ft == nil || path.Base(fn.Pkg.Pkg.Path()) != "ioutil" {
			panic(unsup("os.ReadDir"))
		}
		var names []string
		for n, o := range ex.fs {
			d := strings.TrimSuffix(n, "/")
			if path.Dir(d) == p && d != p && ex.fdata(o).Exists {
				names = append(names, path.Base(d))
			}
		}
		sort.Strings(names)
		var es []Value
		for _, n := range names {
			es = append(es, ex.fileInfo(ft, path.Join(p, n)))
		}
		return &Tuple{[]Value{ex.mkSlice(under(rt).(*types.Slice).Elem(), es), noErr()}}, true
	case "Stat", "Lstat":
		p := path.Clean(strArg(args[0]))
		o := ex.fileObj(p)
		if !ex.fdata(o).Exists && !ex.hasDir(p) {
			return &Tuple{[]Value{&Iface{}, missing(p)}}, true
		}
		return &Tuple{[]Value{ex.fileInfo(ex.fileStatType(), p), noErr()}}, true
	case "Getenv":
		return &Str{}, true
	case "IsNotExist", "IsExist":
		i := args[0].(*Iface)
		return ex.c.BoolC(i.T != nil && name == "IsNotExist"), true
	case "TempDir":
		return &Str{S: "/vxtmp"}, true
	}
	if name == "init" {
		return &Tuple{}, true
	}
	if name == "ReadAll" {
		return nil, false
	}
	panic(unsup("os.%s", name))
}

func (ex *Exec) trunc(b []*Term, n int) []*Term {
	o := append([]*Term{}, b...)
	for len(o) < n {
		o = append(o, ex.c.BVc(8, 0))
	}
	return o[:n]
}

func (ex *Exec) fileOp(fn *ssa.Function, name string, args []Value, pos token.Pos) Value {
	return ex.each(args[0], func(v Value) Value {
		p, ok := v.(*Ptr)
		if !ok || p.O == nil {
			switch r := fn.Signature.Results(); r.Len() {
			case 1:
				return ex.mkErr("invalid argument")
			case 2:
				return &Tuple{[]Value{ex.zero(r.At(0).Type()), ex.mkErr("invalid argument")}}
			}
			panic(unsup("method %s of nil file", name))
		}
		h, ok := ex.cell(p.O, 0).(*FileH)
		if !ok {
			panic(unsup("merged file handle"))
		}
		if strings.HasPrefix(h.Name, "/dev/") {
			return ex.retZero(fn)
		}
		if h.Closed {
			switch r := fn.Signature.Results(); r.Len() {
			case 1:
				if name == "Name" {
					return &Str{S: h.Name}
				}
				return ex.mkErr("file already closed")
			case 2:
				return &Tuple{[]Value{ex.zero(r.At(0).Type()), ex.mkErr("file already closed")}}
			}
		}
		set := func(off int) {
			n := *h
			n.Off = off
			ex.st.set(ckey{p.O, 0}, &n)
		}
		read := func(buf *SliceV, off int) Value {
			return ex.withInt(buf.Len, func(n int) Value {
				d := ex.fdata(h.F)
				if n == 0 {
					return &Tuple{[]Value{ex.ic(0), noErr()}}
				}
				if off >= len(d.B) {
					return &Tuple{[]Value{ex.ic(0), ex.eof()}}
				}
				k := n
				if off+k > len(d.B) {
					k = len(d.B) - off
				}
				for i := 0; i < k; i++ {
					ex.store(ex.elemPtr(buf, ex.ic(i)), d.B[off+i])
				}
				if name == "Read" {
					set(off + k)
				}
				e := Value(noErr())
				if k < n && name == "ReadAt" {
					e = ex.eof()
				}
				return &Tuple{[]Value{ex.ic(k), e}}
			})
		}
		write := func(b []*Term, off int) {
			d := ex.fdata(h.F)
			nb := append([]*Term{}, d.B...)
			for len(nb) < off {
				nb = append(nb, ex.c.BVc(8, 0))
			}
			for i, t := range b {
				if off+i < len(nb) {
					nb[off+i] = t
				} else {
					nb = append(nb, t)
				}
			}
			ex.st.set(ckey{h.F, 0}, &FileData{true, nb})
		}
		switch name {
		case "Close":
			n := *h
			n.Closed = true
			ex.st.set(ckey{p.O, 0}, &n)
			return noErr()
		case "Sync":
			return noErr()
		case "Name":
			return &Str{S: h.Name}
		case "Read":
			return read(args[1].(*SliceV), h.Off)
		case "ReadAt":
			return ex.withInt(args[2].(*Term), func(o int) Value { return read(args[1].(*SliceV), o) })
		case "Write", "WriteString":
			var b []*Term
			if name == "Write" {
				b = ex.sliceBytes(args[1])
			} else {
				b = ex.strBytes(args[1].(*Str))
			}
			off := h.Off
			if h.Append {
				off = len(ex.fdata(h.F).B)
			}
			write(b, off)
			set(off + len(b))
			return &Tuple{[]Value{ex.ic(len(b)), noErr()}}
		case "WriteAt":
			b := ex.sliceBytes(args[1])
			write(b, ex.concInt(args[2]))
			return &Tuple{[]Value{ex.ic(len(b)), noErr()}}
		case "Truncate":
			d := ex.fdata(h.F)
			ex.st.set(ckey{h.F, 0}, &FileData{true, ex.trunc(d.B, ex.concInt(args[1]))})
			return noErr()
		case "Seek":
			return ex.withInt(args[1].(*Term), func(o int) Value {
				w := ex.concInt(args[2])
				switch w {
				case 1:
					o += h.Off
				case 2:
					o += len(ex.fdata(h.F).B)
				}
				if o < 0 {
					return &Tuple{[]Value{ex.ic(0), ex.mkErr("invalid argument")}}
				}
				set(o)
				return &Tuple{[]Value{ex.ic(o), noErr()}}
			})
		}
		panic(unsup("(*os.File).%s", name))
	})
}

// ---------- encoding/binary

func littleOf(v Value) bool {
	i, ok := v.(*Iface)
	if !ok || i.T == nil {
		panic(unsup("byte order"))
	}
	n, ok := i.T.(*types.Named)
	if !ok {
		panic(unsup("byte order %s", i.T))
	}
	switch n.Obj().Name() {
	case "littleEndian", "nativeEndian":
		return true
	case "bigEndian":
		return false
	}
	panic(unsup("byte order %s", i.T))
}

func (ex *Exec) readFull(r Value, n int, pos token.Pos) (*SliceV, Value) {
	buf := ex.makeSlice(types.Typ[types.Uint8], n, n)
	if n == 0 {
		return buf, noErr()
	}
	iop := ex.eng.pkgs["io"]
	t := ex.call(iop.Func("ReadFull"), []Value{r, buf}, nil, pos)
	if ex.st.dead {
		return buf, noErr()
	}
	tt, ok := t.(*Tuple)
	if !ok {
		panic(unsup("merged read result"))
	}
	return buf, tt.E[1]
}

func (ex *Exec) isNilErr(e Value) *Term {
	return ex.valEq(e, &Iface{})
}

func (ex *Exec) binFn(fn *ssa.Function, name string, args []Value, pos token.Pos) (Value, bool) {
	switch name {
	case "Read":
		return ex.each(args[1], func(ord Value) Value {
			return ex.each(args[2], func(dv Value) Value {
				little := littleOf(ord)
				d := dv.(*Iface)
				if d.T == nil {
					return ex.mkErr("binary.Read: invalid type nil")
				}
				switch u := under(d.T).(type) {
				case *types.Pointer:
					n := packedSize(u.Elem())
					if sl, ok := under(u.Elem()).(*types.Slice); ok {
						_ = sl
						inner := ex.load(d.V.(*Ptr))
						return ex.binReadSlice(args[0], little, inner, sl.Elem(), pos)
					}
					if n < 0 {
						return ex.mkErr("binary.Read: invalid type " + d.T.String())
					}
					buf, err := ex.readFull(args[0], n, pos)
					if ex.st.dead {
						return noErr()
					}
					return ex.fork2(ex.isNilErr(err), func() Value {
						ex.store(d.V.(*Ptr), ex.fromBytes(ex.sliceBytes(buf), u.Elem(), little, false))
						return noErr()
					}, func() Value { return err })
				case *types.Slice:
					return ex.binReadSlice(args[0], little, d.V, u.Elem(), pos)
				}
				return ex.mkErr("binary.Read: invalid type " + d.T.String())
			})
		}), true
	case "Write":
		return ex.each(args[1], func(ord Value) Value {
			return ex.each(args[2], func(dv Value) Value {
				little := littleOf(ord)
				d := dv.(*Iface)
				if d.T == nil {
					return ex.mkErr("binary.Write: invalid type nil")
				}
				t, v := d.T, d.V
				if p, ok := under(t).(*types.Pointer); ok {
					t = p.Elem()
					pp := v.(*Ptr)
					if pp.O == nil {
						ex.raise(ex.c.True, "panic", "binary.Write of nil pointer", pos)
						return noErr()
					}
					v = ex.load(pp)
				}
				if sl, ok := under(t).(*types.Slice); ok {
					if packedSize(sl.Elem()) < 0 {
						return ex.mkErr("binary.Write: some values are not fixed-sized in type " + t.String())
					}
				} else if packedSize(t) < 0 {
					return ex.mkErr("binary.Write: some values are not fixed-sized in type " + t.String())
				}
				b := ex.toBytes(v, t, little, false)
				r := ex.ifCall(args[0], "Write", []Value{ex.byteSlice(b)}, pos)
				if ex.st.dead {
					return noErr()
				}
				return ex.each(r, func(r Value) Value { return r.(*Tuple).E[1] })
			})
		}), true
	case "Size":
		d := args[0].(*Iface)
		t := d.T
		if p, ok := under(t).(*types.Pointer); ok {
			t = p.Elem()
		}
		if sl, ok := under(t).(*types.Slice); ok {
			return ex.ic(ex.sliceLen(d.V.(*SliceV)) * packedSize(sl.Elem())), true
		}
		return ex.ic(packedSize(t)), true
	}
	return nil, false
}

func (ex *Exec) fork2(g *Term, a, b func() Value) Value {
	if g.IsTrue() {
		return a()
	}
	if g.IsFalse() {
		return b()
	}
	return ex.fork([]*Term{g, ex.c.Not(g)}, func(i int) Value {
		if i == 0 {
			return a()
		}
		return b()
	})
}

func (ex *Exec) binReadSlice(r Value, little bool, sv Value, et types.Type, pos token.Pos) Value {
	return ex.each(sv, func(v Value) Value {
		s := v.(*SliceV)
		n := ex.sliceLen(s)
		es := packedSize(et)
		if es < 0 {
			return ex.mkErr("binary.Read: invalid type []" + et.String())
		}
		buf, err := ex.readFull(r, n*es, pos)
		if ex.st.dead {
			return noErr()
		}
		return ex.fork2(ex.isNilErr(err), func() Value {
			b := ex.sliceBytes(buf)
			for i := 0; i < n; i++ {
				ex.store(ex.elemPtr(s, ex.ic(i)), ex.fromBytes(b[i*es:(i+1)*es], et, little, false))
			}
			return noErr()
		}, func() Value { return err })
	})
}
