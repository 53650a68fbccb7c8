package main

import (
	"go/types"
	"strconv"
	"strings"
)

// gcfgRead stands in for gcfg.ReadFileInto: it understands [section] and [section "name"] headers
// and name = value lines with strings, booleans and numbers.
func (ex *Exec) gcfgRead(cfg Value, file string) Value {
	fail := func(msg string) Value { return ex.mkErr(file + ": " + msg) }
	o := ex.fileObj(file)
	d := ex.fdata(o)
	if !d.Exists {
		return fail("no such file")
	}
	b := make([]byte, len(d.B))
	for i, t := range d.B {
		k, ok := conc(t)
		if !ok {
			panic(unsup("configuration file of symbolic contents"))
		}
		b[i] = byte(k)
	}
	i := cfg.(*Iface)
	top, ok := i.V.(*Ptr)
	if i.T == nil || !ok || top.O == nil {
		return fail("invalid config")
	}
	tt := under(i.T).(*types.Pointer).Elem()
	field := func(t types.Type, name string) (int, types.Type) {
		return gcfgField(under(t).(*types.Struct), name)
	}
	var cur *Ptr
	var curT types.Type
	for _, line := range strings.Split(string(b), "\n") {
		if k := strings.IndexAny(line, "#;"); k >= 0 {
			line = line[:k]
		}
		line = strings.TrimSpace(line)
		if line == "" {
			continue
		}
		if line[0] == '[' {
			h := strings.TrimSpace(strings.TrimSuffix(line[1:], "]"))
			sub := ""
			hasSub := false
			if k := strings.Index(h, "\""); k >= 0 {
				sub, hasSub = strings.Trim(h[k:], "\""), true
				h = strings.TrimSpace(h[:k])
			}
			f, ft := field(tt, h)
			if f < 0 {
				return fail("unknown section " + h)
			}
			p := &Ptr{O: top.O, I: top.I, Path: append(append([]PathEl{}, top.Path...), PathEl{F: f})}
			if mt, ok := under(ft).(*types.Map); ok {
				et := under(mt.Elem()).(*types.Pointer).Elem()
				m := ex.load(p).(*MapRef)
				if m.O == nil {
					mo := &Object{id: ex.nextID(), name: "map", n: 1, zero: &MapData{}}
					ex.st.set(ckey{mo, -1}, mo)
					ex.st.set(ckey{mo, 0}, &MapData{})
					m = &MapRef{mo}
					ex.store(p, m)
				}
				md := ex.cell(m.O, 0).(*MapData)
				if k, ok := ex.mapFind(md, &Str{S: sub}); ok {
					cur = md.V[k].(*Ptr)
				} else {
					cur = ex.alloc("gcfg."+sub, et)
					ex.mapSet(m, &Str{S: sub}, cur, 0)
				}
				curT = et
				continue
			}
			if hasSub {
				return fail("unexpected subsection")
			}
			cur, curT = p, ft
			continue
		}
		k := strings.Index(line, "=")
		name, val, blank := line, "", true
		if k >= 0 {
			name, val, blank = strings.TrimSpace(line[:k]), strings.TrimSpace(line[k+1:]), false
		}
		val = strings.Trim(val, "\"")
		if cur == nil {
			return fail("no section")
		}
		path, ft := gcfgPath(under(curT).(*types.Struct), name)
		if path == nil {
			return fail("unknown variable " + name)
		}
		p := &Ptr{O: cur.O, I: cur.I, Path: append(append([]PathEl{}, cur.Path...), path...)}
		ti := tinfoOf(ft)
		switch ti.k {
		case 's':
			ex.store(p, &Str{S: val})
		case 'b':
			v := strings.ToLower(val)
			switch {
			case blank, v == "true", v == "yes", v == "on", v == "1":
				ex.store(p, ex.c.True)
			case v == "false", v == "no", v == "off", v == "0":
				ex.store(p, ex.c.False)
			default:
				return fail("bad bool " + val)
			}
		case 'i':
			n, err := strconv.ParseInt(val, 10, 64)
			if err != nil {
				return fail(err.Error())
			}
			ex.store(p, ex.c.BVc(ti.w, uint64(n)))
		case 'f':
			x, err := strconv.ParseFloat(val, 64)
			if err != nil {
				return fail(err.Error())
			}
			ex.store(p, ex.fconst(x, ti.w))
		default:
			panic(unsup("configuration variable of type %s", ft))
		}
	}
	return noErr()
}

func gcfgField(st *types.Struct, name string) (int, types.Type) {
	for i := 0; i < st.NumFields(); i++ {
		if strings.EqualFold(st.Field(i).Name(), name) {
			return i, st.Field(i).Type()
		}
	}
	return -1, nil
}

// gcfgPath finds a field, also of embedded structures.
func gcfgPath(st *types.Struct, name string) ([]PathEl, types.Type) {
	if i, t := gcfgField(st, name); i >= 0 && !st.Field(i).Embedded() {
		return []PathEl{{F: i}}, t
	}
	for i := 0; i < st.NumFields(); i++ {
		if e, ok := under(st.Field(i).Type()).(*types.Struct); ok && st.Field(i).Embedded() {
			if p, t := gcfgPath(e, name); p != nil {
				return append([]PathEl{{F: i}}, p...), t
			}
		}
	}
	return nil, nil
}
