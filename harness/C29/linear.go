//vx:pkg math/interpolate
package interpolate

import vx "github.com/phil-mansfield/gotetra/zzvx"

// c29axis makes a table of n strictly monotone values with arbitrary spacing.
func c29axis(n int, decr bool) []float64 {
	xs := make([]float64, n)
	xs[0] = vx.F64("x0", -100, 100)
	for i := 1; i < n; i++ {
		g := vx.F64("gap", 0.125, 10)
		if decr {
			xs[i] = xs[i-1] - g
		} else {
			xs[i] = xs[i-1] + g
		}
	}
	return xs
}

func c29vals(n int) []float64 {
	v := make([]float64, n)
	for i := range v {
		v[i] = vx.F64("v", -1000, 1000)
	}
	return v
}

// c29in asserts that x lies between a and b in either order.
func c29in(x, a, b float64) bool {
	return vx.Or(vx.And(a <= x, x <= b), vx.And(b <= x, x <= a))
}

func c29copy(xs []float64) []float64 { return append([]float64{}, xs...) }

func c29same(a, b []float64, msg string) {
	vx.Assert(len(a) == len(b), msg)
	for i := range a {
		vx.Assert(vx.Same(a[i], b[i]), msg)
	}
}

// c29lerp: r is the value at x of the line through (x1,v1), (x2,v2).
func c29lerp(r, x, x1, x2, v1, v2 float64, msg string) {
	vx.Assert(vx.EqR((r-v1)*(x2-x1), (v2-v1)*(x-x1)), msg)
}

// Every cell of every table with two to four arbitrary nodes.
//vx: mode=real split forkidx timeout=300
func VX_C29_table() {
	n := vx.Choose("n", 2, 4)
	decr := vx.Choose("decr", 0, 1) == 1
	j := vx.Choose("cell", 0, 2)
	vx.Assume(j < n-1)
	xs, vals := c29axis(n, decr), c29vals(n)
	x := vx.F64("x", -200, 200)
	vx.Assume(c29in(x, xs[j], xs[j+1]))
	in, vin := c29copy(xs), c29copy(vals)
	lin := NewLinear(xs, vals)
	r := lin.Eval(x)
	c29lerp(r, x, xs[j], xs[j+1], vals[j], vals[j+1], "the value is the linear interpolant of the cell containing x")
	c29same(xs, in, "the table is left alone")
	c29same(vals, vin, "the table is left alone")
	vx.Obs("r", r)
}

// Exactly at a node the tabulated value comes back, bit for bit or up to one rounding.
//vx: mode=real split forkidx timeout=300
func VX_C29_nodes() {
	n := vx.Choose("n", 2, 5)
	decr := vx.Choose("decr", 0, 1) == 1
	k := vx.Choose("k", 0, 4)
	vx.Assume(k < n)
	xs, vals := c29axis(n, decr), c29vals(n)
	vx.Assert(vx.EqR(NewLinear(xs, vals).Eval(xs[k]), vals[k]), "a node returns its tabulated value")
}

// Outside the table evaluation panics; inside it does not.
//vx: mode=real split forkidx timeout=300
func VX_C29_bounds() {
	n := vx.Choose("n", 2, 4)
	decr := vx.Choose("decr", 0, 1) == 1
	xs, vals := c29axis(n, decr), c29vals(n)
	x := vx.F64("x", -200, 200)
	inside := c29in(x, xs[0], xs[n-1])
	lin := NewLinear(xs, vals)
	p := vx.Catch(func() { lin.Eval(x) })
	vx.Assert(p != inside, "points are refused exactly when they are outside the table")
}

// Uniform tables.
//vx: mode=real split forkidx timeout=300
func VX_C29_uniform() {
	n := vx.Choose("n", 2, 5)
	decr := vx.Choose("decr", 0, 1) == 1
	j := vx.Choose("cell", 0, 3)
	vx.Assume(j < n-1)
	x0 := vx.F64("x0", -100, 100)
	dx := vx.F64("dx", 0.125, 10)
	if decr {
		dx = -dx
	}
	vals := c29vals(n)
	x := vx.F64("x", -200, 200)
	x1, x2 := x0+float64(j)*dx, x0+float64(j+1)*dx
	vx.Assume(c29in(x, x1, x2))
	lin := NewUniformLinear(x0, dx, vals)
	r := lin.Eval(x)
	c29lerp(r, x, x1, x2, vals[j], vals[j+1], "the value is the linear interpolant of the cell containing x")
	vx.Obs("r", r)
}

//vx: mode=real split forkidx timeout=300
func VX_C29_ubounds() {
	n := vx.Choose("n", 2, 4)
	decr := vx.Choose("decr", 0, 1) == 1
	x0 := vx.F64("x0", -100, 100)
	dx := vx.F64("dx", 0.125, 10)
	if decr {
		dx = -dx
	}
	vals := c29vals(n)
	x := vx.F64("x", -200, 200)
	inside := c29in(x, x0, x0+float64(n-1)*dx)
	lin := NewUniformLinear(x0, dx, vals)
	p := vx.Catch(func() { lin.Eval(x) })
	vx.Assert(p != inside, "points are refused exactly when they are outside the table")
}

// EvalAll is Eval on every element, with and without an output slice.
//vx: mode=real split forkidx timeout=200
func VX_C29_all() {
	xs, vals := []float64{-1, 0.5, 4}, c29vals(3)
	q := make([]float64, 3)
	for i := range q {
		q[i] = vx.F64("q", -1, 4)
	}
	lin := NewLinear(xs, vals)
	a := lin.EvalAll(q)
	out := make([]float64, 3)
	b := lin.EvalAll(q, out)
	for i := range q {
		e := lin.Eval(q[i])
		vx.Assert(vx.EqR(a[i], e), "EvalAll agrees with Eval")
		vx.Assert(vx.EqR(out[i], e) && vx.EqR(b[i], e), "EvalAll writes to the given slice")
	}
}

// c29tab gives a concrete axis: two spacings, both directions.
func c29tab(which int) []float64 {
	switch which {
	case 0:
		return []float64{-1, 0.5, 4}
	case 1:
		return []float64{3, 2.5, -2}
	case 2:
		return []float64{0.25, 0.5}
	default:
		return []float64{10, 11, 13, 20}
	}
}

// c29pt is a point of cell i: strictly inside it, or exactly at its first or last node.
func c29pt(name string, xs []float64, i int) float64 {
	u := vx.F64(name, 0, 1)
	switch vx.Choose(name+"at", 0, 2) {
	case 0:
		return xs[i]
	case 1:
		return xs[i+1]
	}
	vx.Assume(vx.And(0 < u, u < 1))
	return xs[i] + u*(xs[i+1]-xs[i])
}

// Bilinear: arbitrary values on axes of different lengths and directions, arbitrary first x-cell.
//vx: mode=real split forkidx timeout=300
func VX_C29_bi() {
	xs, ys := c29tab(vx.Choose("xt", 0, 2)), c29tab(vx.Choose("yt", 1, 3))
	i, j := vx.Choose("i", 0, 1), vx.Choose("j", 0, 2)
	vx.Assume(i < len(xs)-1 && j < len(ys)-1)
	x, y := c29pt("x", xs, i), c29pt("y", ys, j)
	nx := len(xs)
	v := c29vals(nx * len(ys))
	bi := NewBiLinear(xs, ys, v)
	r := bi.Eval(x, y)
	u, w := (x-xs[i])/(xs[i+1]-xs[i]), (y-ys[j])/(ys[j+1]-ys[j])
	e := (1-u)*(1-w)*v[i+nx*j] + u*(1-w)*v[i+1+nx*j] + (1-u)*w*v[i+nx*(j+1)] + u*w*v[i+1+nx*(j+1)]
	vx.Assert(vx.EqR(r, e), "the value is the bilinear interpolant of the cell containing the point")
	vx.Obs("r", r)
}

// Bilinear on a symbolic, uniform grid.
//vx: mode=real split forkidx timeout=300
func VX_C29_ubi() {
	nx, ny := vx.Choose("nx", 2, 3), vx.Choose("ny", 2, 3)
	i, j := vx.Choose("i", 0, 1), vx.Choose("j", 0, 1)
	vx.Assume(i < nx-1 && j < ny-1)
	sx, sy := float64(2*vx.Choose("sx", 0, 1)-1), float64(2*vx.Choose("sy", 0, 1)-1)
	x0, dx := vx.F64("x0", -10, 10), sx*vx.F64("dx", 0.125, 4)
	y0, dy := vx.F64("y0", -10, 10), sy*vx.F64("dy", 0.125, 4)
	u, w := vx.F64("u", 0, 1), vx.F64("w", 0, 1)
	x, y := x0+dx*(float64(i)+u), y0+dy*(float64(j)+w)
	v := c29vals(nx * ny)
	r := NewUniformBiLinear(x0, dx, nx, y0, dy, ny, v).Eval(x, y)
	e := (1-u)*(1-w)*v[i+nx*j] + u*(1-w)*v[i+1+nx*j] + (1-u)*w*v[i+nx*(j+1)] + u*w*v[i+1+nx*(j+1)]
	vx.Assert(vx.EqR(r, e), "the value is the bilinear interpolant of the cell containing the point")
}

func c29tri(x, y, z, r float64, xs, ys, zs, v []float64, i, j, k int) {
	u := (x - xs[i]) / (xs[i+1] - xs[i])
	w := (y - ys[j]) / (ys[j+1] - ys[j])
	t := (z - zs[k]) / (zs[k+1] - zs[k])
	nx, ny := len(xs), len(ys)
	at := func(a, b, c int) float64 { return v[i+a+nx*(j+b)+nx*ny*(k+c)] }
	e := (1-u)*(1-w)*(1-t)*at(0, 0, 0) + u*(1-w)*(1-t)*at(1, 0, 0) +
		(1-u)*w*(1-t)*at(0, 1, 0) + u*w*(1-t)*at(1, 1, 0) +
		(1-u)*(1-w)*t*at(0, 0, 1) + u*(1-w)*t*at(1, 0, 1) +
		(1-u)*w*t*at(0, 1, 1) + u*w*t*at(1, 1, 1)
	vx.Assert(vx.EqR(r, e), "the value is the trilinear interpolant of the cell containing the point")
}

// Trilinear: three different axes.
//vx: mode=real split forkidx timeout=300
func VX_C29_tri() {
	p := vx.Choose("perm", 0, 2)
	xs, ys, zs := c29tab(p), c29tab((p+1)%3), c29tab((p+2)%3)
	if p == 1 {
		zs = c29tab(3)
	}
	i, j, k := vx.Choose("i", 0, 1), vx.Choose("j", 0, 1), vx.Choose("k", 0, 2)
	vx.Assume(i < len(xs)-1 && j < len(ys)-1 && k < len(zs)-1)
	x, y, z := c29pt("x", xs, i), c29pt("y", ys, j), c29pt("z", zs, k)
	v := c29vals(len(xs) * len(ys) * len(zs))
	r := NewTriLinear(xs, ys, zs, v).Eval(x, y, z)
	c29tri(x, y, z, r, xs, ys, zs, v, i, j, k)
	vx.Obs("r", r)
}

// Uniform trilinear grids with different origins, steps and lengths per axis.
//vx: mode=real split forkidx timeout=300
func VX_C29_utri() {
	nx, ny, nz := 3, 2, vx.Choose("nz", 2, 4)
	if vx.Choose("swap", 0, 1) == 1 {
		nx, ny = 2, 3
	}
	i, j, k := vx.Choose("i", 0, 1), vx.Choose("j", 0, 1), vx.Choose("k", 0, 2)
	vx.Assume(i < nx-1 && j < ny-1 && k < nz-1)
	xs, ys, zs := make([]float64, nx), make([]float64, ny), make([]float64, nz)
	for a := range xs {
		xs[a] = 1 + 0.5*float64(a)
	}
	for a := range ys {
		ys[a] = 7 - 2*float64(a)
	}
	for a := range zs {
		zs[a] = -3 + 0.25*float64(a)
	}
	x, y, z := c29pt("x", xs, i), c29pt("y", ys, j), c29pt("z", zs, k)
	v := c29vals(nx * ny * nz)
	r := NewUniformTriLinear(1, 0.5, nx, 7, -2, ny, -3, 0.25, nz, v).Eval(x, y, z)
	c29tri(x, y, z, r, xs, ys, zs, v, i, j, k)
}

// Points outside a bilinear or trilinear grid along any axis are refused, points inside are not.
//vx: mode=real split forkidx timeout=200
func VX_C29_gridbounds() {
	xs, ys, zs := c29tab(0), c29tab(1), c29tab(2)
	x, y, z := vx.F64("x", -5, 25), vx.F64("y", -5, 25), vx.F64("z", -5, 25)
	inx, iny, inz := c29in(x, -1, 4), c29in(y, 3, -2), c29in(z, 0.25, 0.5)
	v := make([]float64, 18)
	unif := vx.Choose("unif", 0, 1) == 1
	bi, tri := NewBiLinear(xs, ys, v[:9]), NewTriLinear(xs, ys, zs, v)
	if unif {
		bi = NewUniformBiLinear(-1, 2.5, 3, 3, -2.5, 3, v[:9])
		tri = NewUniformTriLinear(-1, 2.5, 3, 3, -2.5, 3, 0.25, 0.25, 2, v)
	}
	p2 := vx.Catch(func() { bi.Eval(x, y) })
	p3 := vx.Catch(func() { tri.Eval(x, y, z) })
	vx.Assert(p2 != vx.And(inx, iny), "points are refused exactly when they are outside the grid")
	vx.Assert(p3 != vx.And(vx.And(inx, iny), inz), "points are refused exactly when they are outside the grid")
}

// EvalAll for grids, and refusal of mismatched tables.
//vx: mode=real split forkidx timeout=200
func VX_C29_gridall() {
	xs, ys, zs := c29tab(2), c29tab(2), c29tab(2)
	v := c29vals(8)
	qx, qy, qz := make([]float64, 2), make([]float64, 2), make([]float64, 2)
	for i := range qx {
		qx[i], qy[i], qz[i] = vx.F64("qx", 0.25, 0.5), vx.F64("qy", 0.25, 0.5), vx.F64("qz", 0.25, 0.5)
	}
	bi, tri := NewBiLinear(xs, ys, v[:4]), NewTriLinear(xs, ys, zs, v)
	o2, o3 := make([]float64, 2), make([]float64, 2)
	a2, a3 := bi.EvalAll(qx, qy), tri.EvalAll(qx, qy, qz)
	bi.EvalAll(qx, qy, o2)
	tri.EvalAll(qx, qy, qz, o3)
	for i := range qx {
		e2, e3 := bi.Eval(qx[i], qy[i]), tri.Eval(qx[i], qy[i], qz[i])
		vx.Assert(vx.EqR(a2[i], e2) && vx.EqR(o2[i], e2), "EvalAll agrees with Eval")
		vx.Assert(vx.EqR(a3[i], e3) && vx.EqR(o3[i], e3), "EvalAll agrees with Eval")
	}
	vx.Assert(vx.Catch(func() { NewLinear(v[:3], v[:4]) }), "mismatched tables are refused")
	vx.Assert(vx.Catch(func() { NewBiLinear(xs, ys, v[:5]) }), "mismatched tables are refused")
	vx.Assert(vx.Catch(func() { NewTriLinear(xs, ys, zs, v[:4]) }), "mismatched tables are refused")
}

// In floating point, every number between the ends of a uniform table is inside of it, however rounding goes.
//vx: mode=fp split forkidx timeout=200
func VX_C29_ends() {
	t := vx.Choose("table", 0, 3)
	vx.Assume(vx.Tier() == 1 || t%2 == 1)
	x0 := []float64{0.1, -1, 1.0 / 3, 5}[t]
	dx := []float64{0.3, 0.1, 0.7, -0.3}[t]
	n := []int{4, 7, 3, 5}[t]
	vals := make([]float64, n)
	for i := range vals {
		vals[i] = float64(i%2) + 1
	}
	lim := x0 + float64(n-1)*dx
	lo, hi := x0, lim
	if dx < 0 {
		lo, hi = hi, lo
	}
	x := vx.F64("x", -1, 10)
	lin := NewUniformLinear(x0, dx, vals)
	p := vx.Catch(func() { lin.Eval(x) })
	vx.Assert(p != vx.And(lo <= x, x <= hi), "points are refused exactly when they are outside the table")
}
