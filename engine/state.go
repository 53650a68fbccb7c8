package main

type ckey struct {
	o *Object
	i int
}

// State is one layer of symbolic program state (memory, registers, path condition).
type State struct {
	parent *State
	depth  int
	cells  map[ckey]Value
	pc     []*Term
	frozen bool
	dead   bool
	full   *Term // cached full path condition of the parent chain
}

func newState(p *State) *State {
	s := &State{parent: p, cells: map[ckey]Value{}}
	if p != nil {
		p.frozen = true
		s.depth = p.depth + 1
	}
	return s
}

func (s *State) get(k ckey) (Value, bool) {
	for t := s; t != nil; t = t.parent {
		if v, ok := t.cells[k]; ok {
			return v, true
		}
	}
	return nil, false
}

func (s *State) set(k ckey, v Value) {
	if s.frozen {
		panic("write to frozen state")
	}
	s.cells[k] = v
}

func (ex *Exec) pcFull(s *State) *Term {
	if s == nil {
		return ex.c.True
	}
	if s.frozen && s.full != nil {
		return s.full
	}
	t := ex.c.And(append([]*Term{ex.pcFull(s.parent)}, s.pc...)...)
	if s.frozen {
		s.full = t
	}
	return t
}

func (ex *Exec) addPC(t *Term) {
	if t.IsTrue() {
		return
	}
	if t.IsFalse() {
		ex.st.dead = true
		return
	}
	if t.Op == OAnd {
		ex.st.pc = append(ex.st.pc, t.A...)
	} else {
		ex.st.pc = append(ex.st.pc, t)
	}
	// cheap contradiction detection within this layer chain
	if ex.pcFull(ex.st).IsFalse() {
		ex.st.dead = true
	}
}

func lca(a, b *State) *State {
	for a.depth > b.depth {
		a = a.parent
	}
	for b.depth > a.depth {
		b = b.parent
	}
	for a != b {
		a, b = a.parent, b.parent
	}
	return a
}

// merge joins two live states; keep decides which register cells survive.
func (ex *Exec) merge(s1 *State, v1 Value, s2 *State, v2 Value, keep func(k ckey) bool) (*State, Value) {
	if s1 == nil || s1.dead {
		return s2, v2
	}
	if s2 == nil || s2.dead {
		return s1, v1
	}
	if s1 == s2 {
		return s1, v1
	}
	ex.nmerge++
	anc := lca(s1, s2)
	if anc == s1 || anc == s2 {
		panic("merge: state is an ancestor of the other")
	}
	var p1, p2 []*Term
	keys := map[ckey]bool{}
	var order []ckey
	collect := func(s *State, ps *[]*Term) {
		for t := s; t != anc; t = t.parent {
			*ps = append(*ps, t.pc...)
			for k := range t.cells {
				if !keys[k] {
					keys[k] = true
					order = append(order, k)
				}
			}
		}
	}
	collect(s1, &p1)
	collect(s2, &p2)
	g1, g2 := ex.c.And(p1...), ex.c.And(p2...)
	m := newState(anc)
	pc := ex.c.Or(g1, g2)
	if !pc.IsTrue() {
		if pc.Op == OAnd {
			m.pc = append(m.pc, pc.A...)
		} else {
			m.pc = []*Term{pc}
		}
	}
	g := g1
	a, b := s1, s2
	va, vb := v1, v2
	if termSize(g2) < termSize(g1) {
		g = g2
		a, b = s2, s1
		va, vb = v2, v1
	}
	sortKeys(order)
	for _, k := range order {
		if k.o.fr != nil {
			if k.o.fr.done || (keep != nil && !keep(k)) {
				continue
			}
		}
		x, okx := a.get(k)
		y, oky := b.get(k)
		switch {
		case okx && oky:
			if k.i == -1 {
				m.cells[k] = x
				continue
			}
			if k.o.fr != nil && (x == nil || y == nil) {
				continue
			}
			m.cells[k] = ex.mergeVal(g, x, y)
		case okx:
			m.cells[k] = ex.mergeMissing(g, x, b, k, true)
		case oky:
			m.cells[k] = ex.mergeMissing(g, y, a, k, false)
		}
		if m.cells[k] == nil {
			delete(m.cells, k)
		}
	}
	var v Value
	if va != nil && vb != nil {
		v = ex.mergeVal(g, va, vb)
	}
	// collapse when this is the only live state
	if ex.solo() && anc.parent != nil && len(ex.catches) == 0 {
		for m.depth > 12 {
			// fold m into its parent copy-wise
			p := m.parent
			n := &State{parent: p.parent, depth: p.depth, cells: p.cells, pc: append(append([]*Term{}, p.pc...), m.pc...)}
			for k, x := range m.cells {
				n.cells[k] = x
			}
			m = n
		}
	}
	return m, v
}

func (ex *Exec) mergeMissing(g *Term, x Value, other *State, k ckey, first bool) Value {
	if k.o.fr != nil {
		return nil // register defined on one side only: dead afterwards
	}
	if _, born := other.get(ckey{k.o, -1}); !born {
		return x // object does not exist on the other side
	}
	z := k.o.zero
	if first {
		return ex.mergeVal(g, x, z)
	}
	return ex.mergeVal(g, z, x)
}

func termSize(t *Term) int {
	switch t.Op {
	case OAnd, OOr:
		n := 1
		for _, a := range t.A {
			n += termSizeShallow(a)
		}
		return n
	}
	return 1
}
func termSizeShallow(t *Term) int {
	if t.Op == OAnd || t.Op == OOr {
		return len(t.A)
	}
	return 1
}

func sortKeys(ks []ckey) {
	// deterministic order: by object id then cell
	sortSlice(ks, func(a, b ckey) bool {
		if a.o.id != b.o.id {
			return a.o.id < b.o.id
		}
		return a.i < b.i
	})
}
