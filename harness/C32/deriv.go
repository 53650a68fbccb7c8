//vx:pkg math/calc
package calc

import vx "github.com/phil-mansfield/gotetra/zzvx"

func c32poly(deg int, xs []float64) (ys, ds []float64) {
	a := make([]float64, deg+1)
	for i := range a {
		a[i] = vx.F64("a", -10, 10)
	}
	ys, ds = make([]float64, len(xs)), make([]float64, len(xs))
	for i, x := range xs {
		for e := deg; e >= 0; e-- {
			ys[i] = ys[i]*x + a[e]
			if e > 0 {
				ds[i] = ds[i]*x + float64(e)*a[e]
			}
		}
	}
	return ys, ds
}

func c32check(xs, ys, ds []float64, order int) {
	in, yin := append([]float64{}, xs...), append([]float64{}, ys...)
	got := Deriv(xs, ys, order)
	vx.Assert(len(got) == len(xs), "one derivative per point")
	for i := range got {
		vx.Assert(vx.EqR(got[i], ds[i]), "polynomials up to the order are differentiated exactly at every point")
		vx.Assert(vx.Same(xs[i], in[i]) && vx.Same(ys[i], yin[i]), "the table is left alone")
	}
	vx.Obs("d", got[0])
}

// Uniform tables with arbitrary start and step, in both directions.
//vx: mode=real split timeout=200
func VX_C32_uniform() {
	order := 2 * vx.Choose("half", 1, 2)
	n := vx.Choose("n", 3, 8)
	vx.Assume(n > order)
	x0, dx := vx.F64("x0", -10, 10), vx.F64("dx", 0.125, 4)
	if vx.Choose("decr", 0, 1) == 1 {
		dx = -dx
	}
	xs := make([]float64, n)
	for i := range xs {
		xs[i] = x0 + float64(i)*dx
	}
	ys, ds := c32poly(order, xs)
	c32check(xs, ys, ds, order)
}

// Arbitrary spacing.
//vx: mode=real split timeout=200
func VX_C32_spacing() {
	n := vx.Choose("n", 3, 4)
	x := vx.F64("x0", -10, 10)
	xs := make([]float64, n)
	for i := range xs {
		xs[i] = x
		x += vx.F64("gap", 0.125, 4)
	}
	ys, ds := c32poly(2, xs)
	c32check(xs, ys, ds, 2)
}

// Uneven tables, fourth order.
//vx: mode=real split timeout=200
func VX_C32_uneven() {
	xs := [][]float64{{0, 1, 2, 4, 8}, {-1, -0.5, 0.25, 3, 3.5, 7}, {9, 5, 4, 2, 1.5, 1, -3}}[vx.Choose("tab", 0, 2)]
	order := 2 * vx.Choose("half", 1, 2)
	ys, ds := c32poly(order, xs)
	c32check(xs, ys, ds, order)
}

// Order zero is the function itself; Out receives the result; arbitrary values give linear results.
//vx: mode=real split timeout=200
func VX_C32_zero() {
	n := vx.Choose("n", 1, 6)
	order := 2 * vx.Choose("half", 0, 2)
	vx.Assume(order == 0 || n > order)
	xs, ys := make([]float64, n), make([]float64, n)
	for i := range xs {
		xs[i] = float64(3*i) - 5
		ys[i] = vx.F64("y", -100, 100)
	}
	out := make([]float64, n)
	for i := range out {
		out[i] = 77
	}
	a := Deriv(xs, ys, order)
	b := Deriv(xs, ys, order, Out(out))
	for i := range ys {
		if order == 0 {
			vx.Assert(vx.EqR(a[i], ys[i]), "the zeroth derivative is the function")
		}
		vx.Assert(vx.EqR(out[i], a[i]) && vx.EqR(b[i], a[i]), "Out receives the derivative")
	}
}

// Mismatched tables and unsupported orders are refused.
//vx: mode=real split timeout=100
func VX_C32_refuse() {
	order := vx.Choose("order", -1, 6)
	n, m, o := vx.Choose("n", 5, 6), vx.Choose("m", 5, 6), vx.Choose("o", 5, 6)
	bad := order != 0 && order != 2 && order != 4
	xs := []float64{1, 2, 3, 4, 5, 6}
	p := vx.Catch(func() { Deriv(xs[:n], xs[:m], order, Out(make([]float64, o))) })
	vx.Assert(p == (bad || n != m || n != o), "mismatched lengths and unsupported orders are refused")
}
