package main

// Happens-before over the accesses of goroutines, with the conditions under which the accesses are made.

type vclock map[int]int

func (a vclock) join(b vclock) vclock {
	n := vclock{}
	for k, v := range a {
		n[k] = v
	}
	for k, v := range b {
		if v > n[k] {
			n[k] = v
		}
	}
	return n
}

type access struct {
	g, clk int
	wr     bool
	i      *Term // index in an array object; nil: all of it
	path   []PathEl
	guard  *Term
	where  string
}

type raceState struct {
	main *goro
	live int                          // goroutines that the spawning code has not synchronised with
	acc  map[*Object]map[int][]access // by concrete index; -1 otherwise
	sync map[*Object]vclock
	done []*goro
	n    int
}

func (ex *Exec) cur() *goro {
	if ex.curg != nil {
		return ex.curg
	}
	if ex.race.main == nil {
		ex.race.main = &goro{vc: vclock{0: 1}}
	}
	return ex.race.main
}

func (ex *Exec) tracking() bool { return ex.race.live > 0 }

// release returns what another goroutine learns from the current one.
func (ex *Exec) release() vclock {
	g := ex.cur()
	v := g.vc.join(nil)
	g.vc[g.id]++
	return v
}

func (ex *Exec) acquire(v vclock) {
	g := ex.cur()
	g.vc = g.vc.join(v)
	if ex.curg == nil && ex.race.live > 0 && len(ex.gor) == 0 {
		for _, h := range ex.race.done {
			if g.vc[h.id] < h.last {
				return
			}
		}
		// everything so far is in the past
		ex.race.live, ex.race.done, ex.race.acc = 0, nil, map[*Object]map[int][]access{}
	}
}

func (ex *Exec) syncOn(p *Ptr, acq, rel bool) {
	if p == nil || p.O == nil {
		return
	}
	if acq {
		ex.acquire(ex.race.sync[p.O])
	}
	if rel {
		ex.race.sync[p.O] = ex.race.sync[p.O].join(ex.release())
	}
}

func samePlace(ex *Exec, a, b access) *Term {
	c := ex.c
	t := c.True
	if a.i != nil && b.i != nil {
		t = c.Eq(a.i, b.i)
	}
	for k := 0; k < len(a.path) && k < len(b.path); k++ {
		x, y := a.path[k], b.path[k]
		if x.Idx != nil && y.Idx != nil {
			t = c.And(t, c.Eq(x.Idx, y.Idx))
		} else if x.Idx == nil && y.Idx == nil && x.F != y.F {
			return c.False
		}
	}
	return t
}

func (ex *Exec) track(p *Ptr, i *Term, wr bool) {
	if p.O.fr != nil {
		return
	}
	g := ex.cur()
	g.last = g.vc[g.id]
	a := access{g: g.id, clk: g.vc[g.id], wr: wr, i: i, path: p.Path, guard: ex.pcFull(ex.st)}
	if n := len(ex.stack); n > 0 {
		a.where = ex.stack[n-1].fn.String()
	}
	key := -1
	if i != nil {
		if k, ok := conc(i); ok {
			key = k
		}
	}
	m := ex.race.acc[p.O]
	if m == nil {
		m = map[int][]access{}
		ex.race.acc[p.O] = m
	}
	check := func(l []access) {
		for _, b := range l {
			if b.g == a.g || !a.wr && !b.wr || g.vc[b.g] >= b.clk || ex.race.n > 2000 {
				continue
			}
			bad := ex.c.And(ex.c.And(a.guard, b.guard), samePlace(ex, a, b))
			if bad.IsFalse() {
				continue
			}
			ex.race.n++
			w := map[bool]string{true: "written", false: "read"}
			ex.obls = append(ex.obls, Obligation{Bad: bad, Msg: "race on " + p.O.name + ": " + w[b.wr] + " by " + b.where + ", " + w[a.wr] + " by " + a.where,
				Pos: p.O.name, Kind: "race", Path: ex.path, Fixed: ex.fixedCopy(), Names: ex.varsCopy()})
		}
	}
	if key >= 0 {
		check(m[key])
		check(m[-1])
	} else {
		for _, l := range m {
			check(l)
		}
	}
	for _, b := range m[key] {
		if b.g == a.g && b.clk == a.clk && b.wr == a.wr && b.guard == a.guard && b.i == a.i && samePath(a.path, b.path) {
			return
		}
	}
	m[key] = append(m[key], a)
}

func (ex *Exec) trackMap(m *MapRef, wr bool) {
	if ex.tracking() && m.O != nil {
		ex.track(&Ptr{O: m.O}, nil, wr)
	}
}

func samePath(a, b []PathEl) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if a[k].F != b[k].F || a[k].Idx != b[k].Idx {
			return false
		}
	}
	return true
}
