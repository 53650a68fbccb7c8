//vx:pkg render/geom
package geom

import vx "github.com/phil-mansfield/gotetra/zzvx"

func c36vec(name string) Vec {
	return Vec{vx.F32(name+"0", -100, 100), vx.F32(name+"1", -100, 100), vx.F32(name+"2", -100, 100)}
}

func c36tet(used bool) *Tetra {
	a, b, c, d := c36vec("a"), c36vec("b"), c36vec("c"), c36vec("d")
	if !used {
		return NewTetra(&a, &b, &c, &d)
	}
	// A tetrahedron that was another one before.
	o := Vec{}
	t := NewTetra(&o, &Vec{1, 0, 0}, &Vec{0, 1, 0}, &Vec{0, 0, 1})
	t.Volume()
	t.Barycenter()
	t.Contains(&Vec{.5, .5, .5})
	return t.Init(&a, &b, &c, &d)
}

func c36triple(t *Tetra) float64 {
	var e [3][3]float64
	for k := 0; k < 3; k++ {
		for i := 0; i < 3; i++ {
			e[k][i] = float64(t.Corners[k+1][i]) - float64(t.Corners[0][i])
		}
	}
	return e[0][0]*(e[1][1]*e[2][2]-e[1][2]*e[2][1]) -
		e[0][1]*(e[1][0]*e[2][2]-e[1][2]*e[2][0]) +
		e[0][2]*(e[1][0]*e[2][1]-e[1][1]*e[2][0])
}

// Volume and barycentre, also after the tetrahedron was used for another one.
//vx: mode=real split timeout=200
func VX_C36_volume() {
	t := c36tet(vx.Choose("used", 0, 1) == 1)
	tr := c36triple(t)
	for rep := 0; rep < 2; rep++ {
		v := t.Volume()
		vx.Assert(v >= 0, "the volume is not negative")
		vx.Assert(vx.Or(vx.EqR(6*v, tr), vx.EqR(6*v, -tr)), "the volume is a sixth of the triple product")
		b := t.Barycenter()
		for i := 0; i < 3; i++ {
			sum := t.Corners[0][i] + t.Corners[1][i] + t.Corners[2][i] + t.Corners[3][i]
			vx.Assert(vx.EqR32(4*b[i], sum), "the barycentre is the mean of the corners")
		}
	}
	vx.Obs("v", t.Volume())
}

// c36contains: the point with the given barycentric weights.
func c36contains(t *Tetra, w [4]float32, in bool) {
	var p Vec
	for i := 0; i < 3; i++ {
		p[i] = w[0]*t.Corners[0][i] + w[1]*t.Corners[1][i] + w[2]*t.Corners[2][i] + w[3]*t.Corners[3][i]
	}
	got := t.Contains(&p)
	if in {
		vx.Assert(got, "points inside are contained")
	} else {
		vx.Assert(!got, "points outside are not contained")
	}
}

var c36tets = [][4]Vec{
	{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}},
	{{0, 0, 0}, {0, 1, 0}, {1, 0, 0}, {0, 0, 1}},
	{{1, 2, 3}, {4, 2, 5}, {-3, 0.5, 1}, {2, -7, 0.25}},
	{{1, 2, 3}, {-3, 0.5, 1}, {4, 2, 5}, {2, -7, 0.25}},
	{{-8, 1, 1}, {8, 1, 1.5}, {0, 1.5, 1}, {0, 1, 1.75}},
}

// Every point strictly inside a listed tetrahedron is contained, in both orientations.
//vx: mode=real split timeout=300
func VX_C36_inside() {
	c := c36tets[vx.Choose("tet", 0, len(c36tets)-1)]
	t := NewTetra(&c[0], &c[1], &c[2], &c[3])
	var w [4]float32
	w[0], w[1], w[2] = vx.F32("w0", 0, 1), vx.F32("w1", 0, 1), vx.F32("w2", 0, 1)
	w[3] = 1 - w[0] - w[1] - w[2]
	const m = 1.0 / 256
	vx.Assume(vx.And(vx.And(w[0] >= m, w[1] >= m), vx.And(w[2] >= m, w[3] >= m)))
	c36contains(t, w, true)
}

// Every point outside is not contained.
//vx: mode=real split timeout=300
func VX_C36_outside() {
	c := c36tets[vx.Choose("tet", 0, len(c36tets)-1)]
	t := NewTetra(&c[0], &c[1], &c[2], &c[3])
	var w [4]float32
	w[0], w[1], w[2] = vx.F32("w0", -50, 50), vx.F32("w1", -50, 50), vx.F32("w2", -50, 50)
	w[3] = 1 - w[0] - w[1] - w[2]
	const m = 1.0 / 256
	neg := vx.Or(vx.Or(w[0] <= -m, w[1] <= -m), vx.Or(w[2] <= -m, w[3] <= -m))
	vx.Assume(neg)
	c36contains(t, w, false)
}

// Arbitrary tetrahedra with the first corner at the origin, listed weights inside and outside.
//vx: mode=real split timeout=300
func VX_C36_shapes() {
	var c [4]Vec
	c[1], c[2], c[3] = c36vec("b"), c36vec("c"), c36vec("d")
	t := NewTetra(&c[0], &c[1], &c[2], &c[3])
	vx.Assume(t.Volume() > 1)
	w := [][4]float32{
		{.25, .25, .25, .25}, {.0625, .125, .3125, .5}, {.75, .125, .0625, .0625},
		{-.25, .5, .5, .25}, {.25, -.25, .5, .5}, {.5, .5, -.25, .25}, {.25, .5, .5, -.25}, {2, -.5, -.25, -.25},
	}
	k := vx.Choose("w", 0, len(w)-1)
	c36contains(t, w[k], k < 3)
}

// Cell bounds contain every corner and have no layer without one.
//vx: mode=real split timeout=300
func VX_C36_bounds() {
	cw := []float64{1, 0.5, 3}[vx.Choose("cell", 0, 2)]
	var c [4]Vec
	axis := vx.Choose("axis", 0, 2)
	for k := range c {
		c[k] = Vec{1, 2, 3}
		c[k][axis] = vx.F32("x", -20, 20)
	}
	t := NewTetra(&c[0], &c[1], &c[2], &c[3])
	cb := *t.CellBounds(cw)
	lo, hi := float64(cb.Origin[axis])*cw, float64(cb.Origin[axis]+cb.Width[axis])*cw
	first, last := false, false
	for k := range c {
		x := float64(c[k][axis])
		vx.Assert(vx.And(lo <= x, x < hi), "every corner is inside the cell bounds")
		first = vx.Or(first, x < lo+cw)
		last = vx.Or(last, x >= hi-cw)
	}
	vx.Assert(vx.And(first, last), "the outermost layers of cells hold a corner")
	for i := 0; i < 3; i++ {
		if i != axis {
			vx.Assert(cb.Width[i] == 1 && float64(cb.Origin[i])*cw <= float64(i+1) && float64(i+1) < float64(cb.Origin[i]+1)*cw,
				"the other axes are not affected")
		}
	}
	vx.ObsI("w", cb.Width[axis])
}

// The same in floating point, where rounding decides whether a corner is in or out.
//vx: mode=fp split timeout=300
func VX_C36_boundsfp() {
	var c [4]Vec
	c[1][0], c[3][0] = vx.F32("x1", -8192, 8192), vx.F32("x3", -8192, 8192)
	t := NewTetra(&c[0], &c[1], &c[2], &c[3])
	cb := *t.CellBounds(1)
	lo, hi := cb.Origin[0], cb.Origin[0]+cb.Width[0]
	for k := range c {
		x := float64(c[k][0])
		vx.Assert(float64(lo) <= x, "no corner is below the cell bounds")
		vx.Assert(x < float64(hi), "no corner is above the cell bounds")
	}
}
