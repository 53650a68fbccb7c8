//vx:pkg render/geom
package geom

import vx "github.com/phil-mansfield/gotetra/zzvx"

// c17grid: a grid that is n wide along the axis, k and m wide along the others.
func c17grid(axis, n, k, m, cells int) (*GridLocation, float64) {
	var w [3]int
	w[axis], w[(axis+1)%3], w[(axis+2)%3] = n, k, m
	o := [3]int{vx.Choose("o", 0, 1) * 7, 0, 2}
	dx := vx.F64("dx", 0.0625, 16)
	return NewGridLocation(o, w, dx*float64(cells), cells), dx
}

func c17at(g *GridLocation, idx, axis int) int {
	return []int{idx % g.Width[0], idx / g.Width[0] % g.Width[1], idx / g.Width[0] / g.Width[1]}[axis]
}

// c17prev is what the output held before; c17want what it holds after.
func c17prev(n int) []float32 {
	out := make([]float32, n)
	for i := range out {
		out[i] = vx.F32("out", -10, 10)
	}
	return out
}

func c17want(op DerivOp, prev, d float32) float32 {
	switch op {
	case Add:
		return prev + d
	case Subtract:
		return prev - d
	}
	return d
}

var c17ops = []DerivOp{None, Add, Subtract}

// Polynomials along the axis, different on every line of cells, are differentiated exactly.
//vx: mode=real split timeout=300
func VX_C17_polynomial() {
	axis, order := vx.Choose("axis", 0, 2), 2*vx.Choose("half", 1, 2)
	n := vx.Choose("n", 3, 7)
	vx.Assume(n > order)
	k, m := vx.Choose("k", 1, 2), 1
	if vx.Tier() == 1 {
		m = vx.Choose("m", 1, 2)
	}
	// The region may be part of a bigger box, or the box without periodicity.
	cells, per := n, false
	if vx.Choose("part", 0, 1) == 1 {
		cells, per = n+3, vx.Choose("per", 0, 1) == 1
	}
	g, dx := c17grid(axis, n, k, m, cells)
	op := c17ops[vx.Choose("op", 0, 2)]
	opt := &DerivOptions{per, op, order}

	vals, ds := make([]float32, g.Volume), make([]float32, g.Volume)
	line := map[int][]float32{}
	x0 := vx.F32("x0", -4, 4)
	for i := range vals {
		p := c17at(g, i, axis)
		key := c17at(g, i, (axis+1)%3) + 10*c17at(g, i, (axis+2)%3)
		if line[key] == nil {
			a := make([]float32, order+1)
			for e := range a {
				a[e] = vx.F32("a", -10, 10)
			}
			line[key] = a
		}
		x := x0 + float32(p)*float32(dx)
		for e := order; e >= 0; e-- {
			vals[i] = vals[i]*x + line[key][e]
			if e > 0 {
				ds[i] = ds[i]*x + float32(e)*line[key][e]
			}
		}
	}
	out := c17prev(g.Volume)
	prev, in := append([]float32{}, out...), append([]float32{}, vals...)
	g.Deriv(vals, out, axis, opt)
	for i := range out {
		vx.Assert(vx.EqR32(out[i], c17want(op, prev[i], ds[i])), "polynomials are differentiated exactly")
		vx.Assert(vx.Same32(vals[i], in[i]), "the field is left alone")
	}
	vx.Assert(*opt == DerivOptions{per, op, order}, "the options are left alone")
	vx.Obs("d", float64(out[0]))
}

// Periodic boxes: every cell, the ones at the edge included, has the centred derivative.
//vx: mode=real split timeout=300
func VX_C17_periodic() {
	axis, order := vx.Choose("axis", 0, 2), 2*vx.Choose("half", 1, 2)
	n := vx.Choose("n", 3, 7)
	vx.Assume(n > order)
	k, m := vx.Choose("k", 1, 2), 1
	if vx.Tier() == 1 {
		m = vx.Choose("m", 1, 2)
	}
	g, dx := c17grid(axis, n, k, m, n)
	op := c17ops[vx.Choose("op", 0, 2)]
	vals := make([]float32, g.Volume)
	for i := range vals {
		vals[i] = vx.F32("v", -10, 10)
	}
	out := c17prev(g.Volume)
	prev := append([]float32{}, out...)
	g.Deriv(vals, out, axis, &DerivOptions{true, op, order})
	mult := []int{1, g.Width[0], g.Width[0] * g.Width[1]}[axis]
	for i := range out {
		p := c17at(g, i, axis)
		at := func(d int) float32 { return vals[i+((p+d+n)%n-p)*mult] }
		d := (at(1) - at(-1)) / float32(2*dx)
		if order == 4 {
			d = (8*(at(1)-at(-1)) - (at(2) - at(-2))) / float32(12*dx)
		}
		vx.Assert(vx.EqR32(out[i], c17want(op, prev[i], d)), "periodic fields have centred derivatives everywhere")
	}
	vx.Obs("d", float64(out[0]))
}

// Without options the fourth order derivative replaces the output.
//vx: mode=real split timeout=300
func VX_C17_defaults() {
	axis := vx.Choose("axis", 0, 2)
	g, _ := c17grid(axis, 5, 1, 1, 5)
	vals, a, b := make([]float32, 5), make([]float32, 5), make([]float32, 5)
	for i := range vals {
		vals[i] = vx.F32("v", -10, 10)
		a[i] = vx.F32("a", -1, 1)
	}
	def := *DerivOptionsDefault
	g.Deriv(vals, a, axis, nil)
	g.Deriv(vals, b, axis, &DerivOptions{false, None, 4})
	for i := range a {
		vx.Assert(vx.EqR32(a[i], b[i]), "the default is a fourth order derivative which replaces the output")
	}
	vx.Assert(*DerivOptionsDefault == def, "the defaults are left alone")
}

// Grids narrower than the stencil and unknown orders and axes are refused.
//vx: mode=real split timeout=300
func VX_C17_refused() {
	axis := vx.Choose("axis", -1, 3)
	order := vx.Choose("order", 0, 5)
	n := vx.Choose("n", 1, 6)
	w := [3]int{7, 7, 7}
	known := axis >= 0 && axis <= 2
	if known {
		w[axis] = n
	}
	g := NewGridLocation([3]int{}, w, 1, 7)
	vals, out := make([]float32, g.Volume), make([]float32, g.Volume)
	bad := vx.Catch(func() { g.Deriv(vals, out, axis, &DerivOptions{false, None, order}) })
	ok := known && (order == 2 || order == 4) && n > order
	vx.Assert(bad == !ok, "exactly the derivatives that fit the grid are computed")
}
