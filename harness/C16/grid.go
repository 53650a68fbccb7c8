//vx:pkg render/geom
package geom

import vx "github.com/phil-mansfield/gotetra/zzvx"

// c16grid draws a grid; widths come from a list and origins are arbitrary.
func c16grid() (g *Grid, o, w [3]int) {
	ws := [][3]int{{1, 1, 1}, {2, 3, 5}, {5, 3, 2}, {7, 1, 4}, {1, 64, 3}, {100, 100, 100}, {1000, 13, 257}}
	w = ws[vx.Choose("shape", 0, len(ws)-1)]
	for i := range o {
		o[i] = vx.Int("o", -5000, 5000)
	}
	// Grids can be used again, whatever they were before.
	before := [][2][3]int{{{1, -2, 3}, {9, 8, 7}}, {{4, 0, -1}, w}, {o, {9, 8, 7}}}
	if k := vx.Choose("reused", 0, len(before)); k > 0 {
		g = NewGrid(before[k-1][0], before[k-1][1])
		g.Init(o, w)
		return g, o, w
	}
	return NewGrid(o, w), o, w
}

// Indices of coordinates and coordinates of indices are inverse to each other.
//vx: mode=real split timeout=300
func VX_C16_coords() {
	g, o, w := c16grid()
	var c [3]int
	for i := range c {
		c[i] = o[i] + vx.Int("d", 0, w[i]-1)
	}
	idx := g.Idx(c[0], c[1], c[2])
	vx.Assert(vx.And(idx >= 0, idx < w[0]*w[1]*w[2]), "the index is in range")
	x, y, z := g.Coords(idx)
	vx.Assert(vx.And(x == c[0], vx.And(y == c[1], z == c[2])), "the coordinates of the index are the coordinates")
	vx.Assert(g.BoundsCheck(c[0], c[1], c[2]), "the coordinates are inside")
	i2, ok := g.IdxCheck(c[0], c[1], c[2])
	vx.Assert(vx.And(ok, i2 == idx), "the checked index is the index")
	vx.Assert(g.Length == w[0] && g.Area == w[0]*w[1] && g.Volume == w[0]*w[1]*w[2], "sizes")
	vx.ObsI("i", idx)
}

//vx: mode=real split timeout=300
func VX_C16_index() {
	g, o, w := c16grid()
	idx := vx.Int("idx", 0, w[0]*w[1]*w[2]-1)
	x, y, z := g.Coords(idx)
	vx.Assert(vx.And(x >= o[0], x < o[0]+w[0]), "x is inside")
	vx.Assert(vx.And(y >= o[1], y < o[1]+w[1]), "y is inside")
	vx.Assert(vx.And(z >= o[2], z < o[2]+w[2]), "z is inside")
	vx.Assert(g.Idx(x, y, z) == idx, "the index of the coordinates is the index")
	// x is the fastest axis, z the slowest
	vx.Assert(idx == (x-o[0])+(y-o[1])*w[0]+(z-o[2])*w[0]*w[1], "x varies fastest")
}

// Coordinates outside are recognised.
//vx: mode=real split timeout=300
func VX_C16_outside() {
	g, o, w := c16grid()
	c := [3]int{vx.Int("x", -9000, 9000), vx.Int("y", -9000, 9000), vx.Int("z", -9000, 9000)}
	in := true
	for i := range c {
		in = vx.And(in, vx.And(c[i] >= o[i], c[i] < o[i]+w[i]))
	}
	vx.Assert(g.BoundsCheck(c[0], c[1], c[2]) == in, "exactly the coordinates of the grid are inside")
	idx, ok := g.IdxCheck(c[0], c[1], c[2])
	vx.Assert(ok == in, "exactly the coordinates of the grid have an index")
	if !ok {
		vx.Assert(idx < 0, "no index outside")
	}
}

// Locations share the grid's arithmetic.
//vx: mode=real split timeout=300
func VX_C16_location() {
	o := [3]int{vx.Int("ox", -50, 50), vx.Int("oy", -50, 50), vx.Int("oz", -50, 50)}
	w := [3]int{3, 4, 5}
	bw := vx.F64("bw", 1, 1000)
	cells := vx.Int("cells", 1, 1000)
	g := NewGridLocation(o, w, bw, cells)
	vx.Assert(g.Cells == cells && g.BoxWidth == bw, "box")
	x, y, z := o[0]+vx.Int("dx", 0, 2), o[1]+vx.Int("dy", 0, 3), o[2]+vx.Int("dz", 0, 4)
	a, b, c := g.Coords(g.Idx(x, y, z))
	vx.Assert(vx.And(a == x, vx.And(b == y, c == z)), "coordinates round trip")
	vx.Assert(g.Origin == o && g.Width == w, "bounds")
}
