//vx:pkg math/interpolate
package interpolate

import vx "github.com/phil-mansfield/gotetra/zzvx"

// c30tab gives concrete axes of two to five knots, uniform and not, in both directions.
func c30tab(which int) []float64 {
	switch which {
	case 0:
		return []float64{-1, 0.5, 4}
	case 1:
		return []float64{3, 2.5, 1, -2}
	case 2:
		return []float64{0.25, 0.75}
	case 3:
		return []float64{2, -1}
	case 4:
		return []float64{0, 1, 2, 3, 4}
	case 5:
		return []float64{10, 11, 13, 13.5, 20}
	case 6:
		return []float64{4, 3, 2}
	default:
		return []float64{-5, -5.5, -9, -10, -20, -21}
	}
}

func c30vals(n int) []float64 {
	v := make([]float64, n)
	for i := range v {
		v[i] = vx.F64("v", -1000, 1000)
	}
	return v
}

func c30axis(n int, decr bool) []float64 {
	xs := make([]float64, n)
	xs[0] = vx.F64("x0", -100, 100)
	for i := 1; i < n; i++ {
		g := vx.F64("gap", 0.125, 10)
		if decr {
			xs[i] = xs[i-1] - g
		} else {
			xs[i] = xs[i-1] + g
		}
	}
	return xs
}

// c30taylor: the derivatives at x predict value, slope and curvature at the knot.
func c30taylor(sp *Spline, x, knot float64) {
	h := knot - x
	d0, d1, d2, d3 := sp.Eval(x), sp.Deriv(x, 1), sp.Deriv(x, 2), sp.Deriv(x, 3)
	vx.Assert(vx.EqR(sp.Deriv(x, 0), d0), "the zeroth derivative is the value")
	vx.Assert(vx.EqR(sp.Eval(knot), d0+h*(d1+h*(d2/2+h*d3/6))), "the value is continuous and has the reported derivatives")
	vx.Assert(vx.EqR(sp.Deriv(knot, 1), d1+h*(d2+h*d3/2)), "the slope is continuous and has the reported derivatives")
	vx.Assert(vx.EqR(sp.Deriv(knot, 2), d2+h*d3), "the curvature is continuous and has the reported derivative")
}

// Knots return the data; the ends have no curvature; inside every cell the spline is a cubic
// with the reported derivatives that joins value, slope and curvature at both of its knots.
//vx: mode=real split forkidx timeout=300
func VX_C30_smooth() {
	xs := c30tab(vx.Choose("tab", 0, 7))
	n := len(xs)
	ys := c30vals(n)
	j := vx.Choose("cell", 0, 4)
	vx.Assume(j < n-1)
	sp := NewSpline(xs, ys)
	for k := range xs {
		vx.Assert(vx.EqR(sp.Eval(xs[k]), ys[k]), "the spline passes through its data")
	}
	vx.Assert(vx.EqR(sp.Deriv(xs[0], 2), 0) && vx.EqR(sp.Deriv(xs[n-1], 2), 0), "the curvature vanishes at both ends")
	u := vx.F64("u", 0.001, 0.999)
	x := xs[j] + u*(xs[j+1]-xs[j])
	c30taylor(sp, x, xs[j])
	c30taylor(sp, x, xs[j+1])
	vx.Assert(vx.EqR(sp.Deriv(x, 4), 0) && vx.EqR(sp.Deriv(x, 7), 0), "higher derivatives of a cubic vanish")
	vx.Obs("y", sp.Eval(x))
}

// Arbitrary spacing.
//vx: mode=real split forkidx timeout=300
func VX_C30_spacing() {
	n := vx.Choose("n", 2, 3)
	j := vx.Choose("cell", 0, 1)
	vx.Assume(j < n-1)
	xs := c30axis(n, vx.Choose("decr", 0, 1) == 1)
	ys := c30vals(n)
	sp := NewSpline(xs, ys)
	for k := range xs {
		vx.Assert(vx.EqR(sp.Eval(xs[k]), ys[k]), "the spline passes through its data")
	}
	x := xs[j] + vx.F64("u", 0.125, 0.875)*(xs[j+1]-xs[j])
	c30taylor(sp, x, xs[j])
	c30taylor(sp, x, xs[j+1])
}

// Straight lines come back unchanged, on a spline reinitialised from other data.
//vx: mode=real split forkidx timeout=300
func VX_C30_line() {
	xs := c30tab(vx.Choose("tab", 0, 7))
	n := len(xs)
	j := vx.Choose("cell", 0, 4)
	vx.Assume(j < n-1)
	a, b := vx.F64("a", -10, 10), vx.F64("b", -10, 10)
	other, ys, neg := c30vals(n), make([]float64, n), make([]float64, n)
	for i := range ys {
		ys[i] = a*xs[i] + b
		neg[i] = -2 * xs[i]
	}
	sp := NewSpline(xs, ys)
	if vx.Choose("reinit", 0, 1) == 1 {
		sp = NewSpline(neg, other)
		sp.Init(xs, ys)
	}
	x := xs[j] + vx.F64("u", 0, 0.999)*(xs[j+1]-xs[j])
	vx.Assert(vx.EqR(sp.Eval(x), a*x+b), "a straight line is reproduced")
	vx.Assert(vx.EqR(sp.Deriv(x, 1), a), "a straight line is reproduced")
	vx.Assert(vx.EqR(sp.Integrate(xs[0], x), (a*x/2+b)*x-(a*xs[0]/2+b)*xs[0]), "a straight line is integrated exactly")
}

// c30area is the area under cell i between lo and hi, from the derivatives at the middle of the cell.
func c30area(sp *Spline, xs []float64, i int, lo, hi float64) float64 {
	m := (xs[i] + xs[i+1]) / 2
	d0, d1, d2, d3 := sp.Eval(m), sp.Deriv(m, 1), sp.Deriv(m, 2), sp.Deriv(m, 3)
	l, h := lo-m, hi-m
	return h*(d0+h*(d1/2+h*(d2/6+h*d3/24))) - l*(d0+l*(d1/2+l*(d2/6+l*d3/24)))
}

// c30pt is a point of cell i: strictly inside it, or exactly at its first or last knot.
func c30pt(name string, xs []float64, i int) float64 {
	u := vx.F64(name, 0.001, 0.999)
	switch vx.Choose(name+"at", 0, 2) {
	case 0:
		return xs[i]
	case 1:
		return xs[i+1]
	}
	return xs[i] + u*(xs[i+1]-xs[i])
}

// The integral between any two points is the area under the values, in either direction.
//vx: mode=real split forkidx timeout=300
func VX_C30_integral() {
	t := vx.Choose("tab", 0, 6)
	xs := c30tab(t)
	n := len(xs)
	i, j := vx.Choose("i", 0, 3), vx.Choose("j", 0, 3)
	vx.Assume(i <= j && j < n-1)
	sp := NewSpline(xs, c30vals(n))
	a, b := c30pt("a", xs, i), c30pt("b", xs, j)
	area := 0.0
	if i == j {
		area = c30area(sp, xs, i, a, b)
	} else {
		area = c30area(sp, xs, i, a, xs[i+1]) + c30area(sp, xs, j, xs[j], b)
		for k := i + 1; k < j; k++ {
			area += c30area(sp, xs, k, xs[k], xs[k+1])
		}
	}
	vx.Assert(vx.EqR(sp.Integrate(a, b), area), "the integral is the area under the spline")
	vx.Assert(vx.EqR(sp.Integrate(b, a), -area), "exchanging the limits changes the sign")
	vx.Obs("area", area)
}

// Every point of the table, ends included, is accepted; points outside are refused.
//vx: mode=real split forkidx timeout=300
func VX_C30_bounds() {
	xs := c30tab(vx.Choose("tab", 0, 7))
	n := len(xs)
	ys := make([]float64, n)
	x := vx.F64("x", -30, 30)
	lo, hi := xs[0], xs[n-1]
	if hi < lo {
		lo, hi = hi, lo
	}
	inside := vx.And(lo <= x, x <= hi)
	sp := NewSpline(xs, ys)
	p := vx.Catch(func() { sp.Eval(x) })
	vx.Assert(p != inside, "Eval accepts exactly the points of the table")
	p = vx.Catch(func() { sp.Deriv(x, 1) })
	vx.Assert(p != inside, "Deriv accepts exactly the points of the table")
	p = vx.Catch(func() { sp.Integrate(x, (lo+hi)/2) })
	vx.Assert(p != inside, "Integrate accepts exactly the points of the table")
}

// Unsorted and mismatched tables are refused.
//vx: mode=real split forkidx timeout=300
func VX_C30_refuse() {
	n := vx.Choose("n", 3, 4)
	xs, ys := make([]float64, n), make([]float64, n)
	up, down := true, true
	for i := range xs {
		xs[i] = vx.F64("x", -10, 10)
		ys[i] = float64(i)
		if i > 0 {
			up = vx.And(up, xs[i] >= xs[i-1])
			down = vx.And(down, xs[i] <= xs[i-1])
		}
	}
	vx.Assume(vx.And(vx.Not(up), vx.Not(down)))
	vx.Assert(vx.Catch(func() { NewSpline(xs, ys) }), "unsorted tables are refused")
	vx.Assert(vx.Catch(func() { NewSpline(xs[:2], ys) }), "mismatched tables are refused")
}

// The tridiagonal solver solves its equations, for every diagonally dominant system.
//vx: mode=real split forkidx timeout=300
func VX_C30_tridiag() {
	n := vx.Choose("n", 1, 4)
	as, bs, cs, rs := make([]float64, n), make([]float64, n), make([]float64, n), make([]float64, n)
	for i := range as {
		as[i], cs[i] = vx.F64("a", -1, 1), vx.F64("c", -1, 1)
		bs[i] = vx.F64("b", 2.5, 10)
		rs[i] = vx.F64("r", -10, 10)
	}
	u := TriDiag(as, bs, cs, rs)
	out := make([]float64, n)
	TriDiagAt(as, bs, cs, rs, out)
	for i := 0; i < n; i++ {
		l := bs[i] * u[i]
		if i > 0 {
			l += as[i] * u[i-1]
		}
		if i < n-1 {
			l += cs[i] * u[i+1]
		}
		vx.Assert(vx.EqR(l, rs[i]), "the solution satisfies the tridiagonal equations")
		vx.Assert(vx.EqR(out[i], u[i]), "both forms agree")
	}
}
