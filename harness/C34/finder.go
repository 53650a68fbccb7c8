//vx:pkg render/halo
package halo

import (
	vx "github.com/phil-mansfield/gotetra/zzvx"
)

// c34place is a place in the given cell of a box that is width wide.
func c34place(name string, cell int, cw float64) float64 {
	f := vx.F64(name, 0, 1)
	vx.Assume(f < 1)
	return (float64(cell) + f) * cw
}

func c34dist(d, width float64) float64 {
	a := vx.IfF(d < 0, -d, d)
	return vx.IfF(a > width/2, width-a, a)
}

type c34halos struct {
	xs, ys, zs, rs []float64
	width          float64
	cells          int
	again          bool
}

func (h *c34halos) overlap(i, j int, mult float64) bool {
	dx, dy, dz := c34dist(h.xs[i]-h.xs[j], h.width), c34dist(h.ys[i]-h.ys[j], h.width), c34dist(h.zs[i]-h.zs[j], h.width)
	r, d := (h.rs[i]+h.rs[j])*mult, dx*dx+dy*dy+dz*dz
	if i != j { // Rounding decides for spheres that just touch.
		vx.Assume(vx.Or(d < r*r*(1-1.0/(1<<20)), d > r*r*(1+1.0/(1<<20))))
	}
	return d <= r*r
}

// c34count tells how often each halo is in a list.
func c34count(is []int, n int) []int {
	count := make([]int, n)
	for j := range count {
		for _, k := range is {
			count[j] += vx.IfI(j == k, 1, 0)
		}
	}
	for _, k := range is {
		vx.Assert(vx.And(k >= 0, k < n), "halos are in the catalog")
	}
	return count
}

// check compares what is found with the overlaps of all pairs.
func (h *c34halos) check(mult float64) {
	n := len(h.xs)
	rs := append([]float64{}, h.rs...)
	g := NewGrid(h.cells, h.width, n)
	g.Insert(h.xs, h.ys, h.zs)
	sf := NewSubhaloFinder(g)
	if h.again {
		// Finders can be used again, with other radii.
		sf.FindSubhalos(h.xs, h.ys, h.zs, make([]float64, n), 1)
		sf.FindSubhalos(h.xs, h.ys, h.zs, h.rs, 3*mult)
	}
	sf.FindSubhalos(h.xs, h.ys, h.zs, h.rs, mult)
	for i := 0; i < n; i++ {
		vx.Assert(vx.EqR(rs[i], h.rs[i]), "the radii are left alone")
		hosts, subs := c34count(sf.Hosts(i), n), c34count(sf.Subhalos(i), n)
		vx.Assert(sf.HostCount(i) == len(sf.Hosts(i)) && sf.SubhaloCount(i) == len(sf.Subhalos(i)) &&
			sf.IntersectCount(i) == len(sf.Intersects(i)) && len(sf.Intersects(i)) == sf.HostCount(i)+sf.SubhaloCount(i), "counts agree")
		for j := 0; j < n; j++ {
			over := h.overlap(i, j, mult)
			switch {
			case j < i:
				vx.Assert(vx.And(subs[j] == 0, hosts[j] == vx.IfI(over, 1, 0)), "the earlier of two halos that overlap is the host")
			case j > i:
				vx.Assert(vx.And(hosts[j] == 0, subs[j] == vx.IfI(over, 1, 0)), "the later of two halos that overlap is the subhalo")
			default:
				vx.Assert(vx.And(hosts[j] == 0, subs[j] == 0), "no halo is linked with itself")
			}
		}
	}
}

// c34pair has two halos anywhere along an axis, of any radii.
func c34pair(cells, k, off, c0, c1 int) {
	h := &c34halos{cells: cells, width: []float64{1, 100}[cells%2]}
	cw := h.width / float64(h.cells)
	for i, c := range []int{c0, c1} {
		var p [3]float64
		for j := 0; j < 3; j++ {
			p[j] = h.width * (0.25 + float64(i*off)/16)
		}
		p[k] = c34place("x", c, cw)
		h.xs, h.ys, h.zs = append(h.xs, p[0]), append(h.ys, p[1]), append(h.zs, p[2])
		h.rs = append(h.rs, vx.F64("r", 0, 1)*h.width)
	}
	vx.Assume(h.rs[0]+h.rs[1] <= h.width)
	h.check(1)
}

//vx: mode=real split timeout=700 maxpath=40000 unwind=4000
func VX_C34_pair1() {
	c34pair(1, vx.Choose("axis", 0, 2), vx.Choose("off", 0, 1), 0, 0)
}

//vx: mode=real split timeout=700 maxpath=40000 unwind=4000
func VX_C34_pair2() {
	c := vx.Choose("cells", 0, 1+2*vx.Tier())
	c34pair(2, 0, 1, c%2, []int{1, 1, 0, 0}[c])
}

//vx: mode=real split timeout=700 maxpath=40000 unwind=4000
func VX_C34_pair3() {
	c := vx.Choose("cells", 0, 1+4*vx.Tier())
	c34pair(3, 0, 0, []int{0, 2, 1, 2, 0, 1}[c], []int{2, 0, 1, 1, 1, 0}[c])
}

//vx: mode=real split timeout=700 maxpath=40000 unwind=4000
func VX_C34_pairyz() {
	k := 1 + vx.Choose("axis", 0, 1)
	c := vx.Choose("order", 0, vx.Tier()) + k%2
	c34pair(2, k, 0, c%2, 1-c%2)
}

//vx: mode=real split timeout=800 maxpath=40000 unwind=4000 tier=thorough
func VX_C34_pair5() {
	c := vx.Choose("cells", 0, 4)
	c34pair(5, 0, 1, c, (c+2+vx.Choose("by", 0, 1))%5)
}

// Three halos on a plane: hosts of hosts, and a factor for all radii.
//vx: mode=real split timeout=700 maxpath=40000 unwind=4000
func VX_C34_three() {
	h := &c34halos{cells: 2 + vx.Choose("cells", 0, vx.Tier()), width: 12}
	cw := h.width / float64(h.cells)
	for i := 0; i < 3; i++ {
		x, y := vx.Choose("cell", 0, h.cells-1), vx.Choose("cell", 0, h.cells-1)
		vx.Assume(vx.Tier() == 1 || i < 1 && y == 0 || i == 1 || i == 2 && x == 0 && y == h.cells-1)
		px, py := (float64(x)+0.5)*cw, (float64(y)+0.25)*cw
		if i < 2 {
			px = c34place("x", x, cw)
		}
		h.xs, h.ys, h.zs = append(h.xs, px), append(h.ys, py), append(h.zs, 1+5*float64(i))
		h.rs = append(h.rs, []float64{3, 0.5, 2.5}[i])
	}
	h.rs[1] = vx.F64("r", 0, 4)
	h.check([]float64{1, 0.5}[vx.Choose("mult", 0, 1)])
}

// The grid holds every halo once, in the cell that it is in; halos beyond the edge are wrapped.
//vx: mode=real split timeout=300 unwind=4000
func VX_C34_grid() {
	cells := vx.Choose("cells", 1, 3+vx.Tier())
	width := []float64{1, 60}[vx.Choose("width", 0, 1)]
	cw := width / float64(cells)
	g := NewGrid(cells, width, 3)
	var at [3][3]int
	var ps [3][]float64
	for i := range at {
		for k := range ps {
			at[i][k] = (i*k + 1) % cells
			ps[k] = append(ps[k], (float64(at[i][k])+0.5)*cw)
		}
	}
	k := vx.Choose("axis", 0, 2)
	for i := 0; i < 2; i++ {
		c := vx.Choose("cell", -cells, 2*cells-1)
		at[i][k] = (c + cells) % cells
		ps[k][i] = c34place("x", c, cw)
	}
	g.Insert(ps[0], ps[1], ps[2])
	vx.Assert(g.TotalCells() == cells*cells*cells, "as many cells as asked for")
	longest := 0
	for idx := 0; idx < g.TotalCells(); idx++ {
		is := g.ReadIndexes(idx, make([]int, 3))
		vx.Assert(g.Length(idx) == len(is), "lengths are those of the lists")
		if len(is) > longest {
			longest = len(is)
		}
		count := c34count(is, 3)
		for i := range at {
			in := at[i][0]+at[i][1]*cells+at[i][2]*cells*cells == idx
			vx.Assert(count[i] == vx.IfI(in, 1, 0), "every halo is once in the cell that it is in, and nowhere else")
		}
	}
	vx.Assert(g.MaxLength() == longest, "lengths are those of the lists")
}

// No halos, and a single one.
//vx: mode=real split timeout=300
func VX_C34_few() {
	h := &c34halos{cells: 3, width: 3}
	if vx.Choose("n", 0, 1) == 1 {
		h.xs, h.ys, h.zs, h.rs = []float64{vx.F64("x", 0, 0.5)}, []float64{1.5}, []float64{2.5}, []float64{vx.F64("r", 0, 2)}
	}
	h.check(1)
}

// The cells around a sphere contain the sphere.
//vx: mode=real split timeout=300 maxpath=40000
func VX_C34_bounds() {
	cells := vx.Choose("cells", 1, 4)
	width := 8.0
	cw := width / float64(cells)
	k := vx.Choose("axis", 0, 2)
	pos := [3]float64{1, 2, 3}
	pos[k] = c34place("x", vx.Choose("cell", 0, cells-1), cw)
	r := vx.F64("r", 0, 8)
	b := &Bounds{}
	b.SphereBounds(pos, r, cw, width)
	// A point of the sphere: in cell c, once wrapped into the box.
	c := vx.Choose("c", 0, cells-1)
	q := c34place("q", c, cw)
	vx.Assume(c34dist(q-pos[k], width) < r)
	in := false
	for d := 0; d < 2; d++ {
		at := c + d*cells
		in = vx.Or(in, vx.And(at >= b.Origin[k], at < b.Origin[k]+b.Span[k]))
	}
	vx.Assert(in, "the cells around a sphere contain it")
	vx.Assert(b.Inside(c, cells, k), "the cells around a sphere contain it")
	vx.Assert(vx.And(b.Origin[k] >= 0, b.Span[k] >= 1), "bounds start in the box")
}

// Three halos in a row; a halo of less mass can have the larger radius.
//vx: mode=real split timeout=700 maxpath=40000 unwind=8000
func VX_C34_row() {
	h := &c34halos{cells: 3, width: 6}
	far, near := []float64{2, 4.25}[vx.Choose("far", 0, 1)], []float64{1.25, 5}[vx.Choose("near", 0, vx.Tier())]
	h.xs, h.ys, h.zs = []float64{0.5, near, 0.5 + far}, []float64{3, 3, 3}, []float64{1, 1, 1}
	h.rs = []float64{[]float64{0.25, 1}[vx.Choose("r0", 0, vx.Tier())], 0.125, vx.F64("r", 0, 1.875)}
	h.check(1)
}

//vx: mode=real split timeout=700 maxpath=40000 unwind=8000
func VX_C34_again() {
	h := &c34halos{cells: 2, width: 6, again: true}
	h.xs, h.ys, h.zs = []float64{0.5, 1.25, 4.5}, []float64{3, 3, 3}, []float64{1, 1, 1}
	h.rs = []float64{0.25, 0.625, vx.F64("r", 0, 0.875)}
	h.check(1)
}
