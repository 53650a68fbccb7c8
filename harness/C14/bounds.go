//vx:pkg render/geom
package geom

import vx "github.com/phil-mansfield/gotetra/zzvx"

func c14mod(x, n int) int {
	m := x % n
	if m < 0 {
		m += n
	}
	return m
}

// c14box draws cell bounds of a periodic grid; origins go up to one box width below and
// above the box, widths up to the box.
func c14box(name string, n, lo, hi int) CellBounds {
	var cb CellBounds
	for i := 0; i < 3; i++ {
		cb.Origin[i] = vx.Int(name+"o", lo*n, hi*n)
		cb.Width[i] = vx.Int(name+"w", 1, n)
	}
	return cb
}

// Two boxes share a cell exactly if the first cell of one is inside the other, on each axis.
func c14share(o1, w1, o2, w2, n int) bool {
	d := c14mod(o2-o1, n)
	return vx.Or(d < w1, d+w2 > n)
}

func c14in(c, o, w, n int) bool { return c14mod(c-o, n) < w }

// Periodic intersection, every box of the grid.
//vx: mode=real split timeout=300
func VX_C14_intersect() {
	n := []int{1, 2, 3, 8, 100, 1000}[vx.Choose("cells", 0, 5)]
	var a, b CellBounds
	want := true
	ax := vx.Choose("axis", 0, 2)
	for i := 0; i < 3; i++ {
		// Two axes that meet and one arbitrary axis.
		a.Width[i], b.Width[i] = 1, 1
		if i == ax {
			a.Origin[i], a.Width[i] = vx.Int("ao", 0, n), vx.Int("aw", 1, n)
			b.Origin[i], b.Width[i] = vx.Int("bo", -n, n), vx.Int("bw", 1, n)
			vx.Assume(a.Origin[i] < n)
			want = c14share(a.Origin[i], a.Width[i], b.Origin[i], b.Width[i], n)
			vx.Assume(a.Origin[i]-b.Origin[i] <= n)
			// the oracle against the definition, for an arbitrary cell
			c := vx.Int("c", 0, n)
			both := vx.And(c14in(c, a.Origin[i], a.Width[i], n), c14in(c, b.Origin[i], b.Width[i], n))
			vx.Assert(vx.Implies(both, want), "bounds that share a cell are found (oracle)")
		}
	}
	vx.Assert(a.Intersect(&b, n) == want, "bounds intersect exactly if they share a cell")
	vx.Assert(b.Intersect(&a, n) == want, "intersection is symmetric")
	vx.ObsI("o", vx.IfI(want, 1, 0))
}

// All three axes together.
//vx: mode=real split timeout=300 maxpath=60000
func VX_C14_axes() {
	n := []int{3, 64}[vx.Choose("cells", 0, 1)]
	a, b := c14box("a", n, 0, 1), c14box("b", n, 0, 1)
	want := true
	for i := 0; i < 3; i++ {
		vx.Assume(vx.And(a.Origin[i] < n, b.Origin[i] < n))
		want = vx.And(want, c14share(a.Origin[i], a.Width[i], b.Origin[i], b.Width[i], n))
	}
	vx.Assert(a.Intersect(&b, n) == want, "bounds intersect exactly if they share a cell")
}

// Without periodicity.
//vx: mode=real split timeout=300
func VX_C14_unbounded() {
	a, b := c14box("a", 50, -1, 1), c14box("b", 50, -1, 1)
	want := true
	for i := 0; i < 3; i++ {
		want = vx.And(want, vx.And(a.Origin[i] < b.Origin[i]+b.Width[i], b.Origin[i] < a.Origin[i]+a.Width[i]))
	}
	vx.Assert(a.IntersectUnbounded(&b) == want, "bounds intersect exactly if they share a cell")
	vx.Assert(b.IntersectUnbounded(&a) == want, "intersection is symmetric")
}

// Positions are scaled to cells relative to the segment: the local position is the distance
// above the segment's origin, modulo the box, so a position of the segment's own cells keeps
// its place in its cell and lies below the segment's width.
//vx: mode=real split timeout=300
func VX_C14_segment() {
	n := []int{1, 4, 100}[vx.Choose("cells", 0, 2)]
	L := []float64{1, 62.5, 1000}[vx.Choose("box", 0, 2)]
	var cb CellBounds
	ax := vx.Choose("axis", 0, 2)
	cb.Origin[ax], cb.Width[ax] = vx.Int("o", 0, n), vx.Int("w", 1, n)
	vx.Assume(cb.Origin[ax] < n)
	m := vx.Choose("len", 1, 2)
	vs := make([]Vec, m)
	xs := make([]float64, m)
	for k := range vs {
		// cell and place in the cell
		c, f := vx.Int("cell", 0, n), vx.F64("frac", 0, 1)
		vx.Assume(vx.And(c < n, f < 1))
		xs[k] = float64(c) + f
		vs[k][ax] = float32(xs[k] * L / float64(n))
		in := append([]Vec{}, vs...)
		cb.ScaleVecsSegment(in[k:k+1], n, L)
		got := float64(in[k][ax])
		want := float64(c14mod(c-cb.Origin[ax], n)) + f
		vx.Assert(vx.EqR(got, want), "positions are measured from the origin of the segment, periodically")
		vx.Assert((got < float64(cb.Width[ax])) == c14in(c, cb.Origin[ax], cb.Width[ax], n),
			"a position is below the width exactly if its cell is in the segment")
		for i := 0; i < 3; i++ {
			if i != ax {
				vx.Assert(in[k][i] == 0, "the other axes are not affected")
			}
		}
	}
	all := append([]Vec{}, vs...)
	cb.ScaleVecsSegment(all, n, L)
	for k := range vs {
		one := append([]Vec{}, vs[k])
		cb.ScaleVecsSegment(one, n, L)
		vx.Assert(all[k] == one[0], "each position is scaled by itself")
	}
	vx.Obs("x", float64(all[0][ax]))
}

// Relative to a domain, positions differ from the distance above the domain's origin by a
// multiple of the box.
//vx: mode=real split timeout=300
func VX_C14_domain() {
	n := []int{1, 4, 9, 100}[vx.Choose("cells", 0, 3)]
	L := []float64{1, 62.5}[vx.Choose("box", 0, 1)]
	var cb, dom CellBounds
	ax := vx.Choose("axis", 0, 2)
	cb.Origin[ax], cb.Width[ax] = vx.Int("o", 0, n), vx.Int("w", 1, n)
	dom.Origin[ax], dom.Width[ax] = vx.Int("do", 0, n), vx.Int("dw", 1, n)
	vx.Assume(vx.And(cb.Origin[ax] < n, dom.Origin[ax] < n))
	c, f := vx.Int("cell", 0, n), vx.F64("frac", 0, 1)
	vx.Assume(vx.And(c < n, f < 1))
	vs := []Vec{{}}
	vs[0][ax] = float32((float64(c) + f) * L / float64(n))
	cb.ScaleVecsDomain(&dom, vs, n, L)
	got := float64(vs[0][ax])
	want := float64(c14mod(c-dom.Origin[ax], n)) + f
	k := float64(n)
	vx.Assert(vx.Or(vx.EqR(got, want), vx.Or(vx.EqR(got, want-k), vx.EqR(got, want+k))),
		"positions are measured from the origin of the domain, up to a period")
	vx.Assert(vx.And(got >= -k/2, got < 3*k/2), "positions are at most one period away from the domain")
	for i := 0; i < 3; i++ {
		if i != ax {
			vx.Assert(vs[0][i] == 0, "the other axes are not affected")
		}
	}
	vx.Obs("x", got)
}
