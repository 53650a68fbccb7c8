//vx:pkg math/interpolate
package interpolate

import vx "github.com/phil-mansfield/gotetra/zzvx"

// Interpolators made through the interfaces are the same ones, and many points are evaluated like single ones.
//vx: mode=real split forkidx timeout=300
func VX_C30_made() {
	xs, ys, zs := []float64{-1, 0.5, 2}, []float64{3, 5, 6}, []float64{2, 1, -1}
	x0, dx, y0, dy, z0, dz := -1.0, 1.5, 3.0, 2.0, 4.0, -0.5
	x := vx.F64("x", -1, 2)
	y, z := 3.5, 1.25
	switch vx.Choose("which", 0, 5) {
	case 0:
		v := c30vals(3)
		vx.Assert(vx.EqR(NewSplineInterpolator(xs, v).Eval(x), NewSpline(xs, v).Eval(x)), "the same interpolator")
	case 1:
		v := c30vals(9)
		vx.Assert(vx.EqR(NewBiCubicInterpolator(xs, ys, v).Eval(x, y), NewBiCubic(xs, ys, v).Eval(x, y)), "the same interpolator")
	case 2:
		v := c30vals(6)
		vx.Assert(vx.EqR(NewUniformBiCubicInterpolator(x0, dx, 3, y0, dy, 2, v).Eval(x, y), NewUniformBiCubic(x0, dx, 3, y0, dy, 2, v).Eval(x, y)), "the same interpolator")
	case 3:
		v := c30vals(27)
		vx.Assert(vx.EqR(NewTriCubicInterpolator(xs, ys, zs, v).Eval(x, y, z), NewTriCubic(xs, ys, zs, v).Eval(x, y, z)), "the same interpolator")
	case 4:
		v := c30vals(24)
		z += 1.5
		vx.Assert(vx.EqR(NewUniformTriCubicInterpolator(x0, dx, 3, y0, dy, 2, z0, dz, 4, v).Eval(x, y, z), NewUniformTriCubic(x0, dx, 3, y0, dy, 2, z0, dz, 4, v).Eval(x, y, z)), "the same interpolator")
	case 5:
		sp := NewSpline(xs, c30vals(3))
		pts := []float64{1.5, x, -1}
		a := sp.EvalAll(pts)
		b := []float64{7, 7, 7, 7}
		c := sp.EvalAll(pts, b, nil)
		vx.Assert(len(a) == 3, "a value per point")
		for i, p := range pts {
			w := sp.Eval(p)
			vx.Assert(vx.And(vx.EqR(a[i], w), vx.EqR(b[i], w)), "many points are evaluated like single ones")
			vx.Assert(vx.Same(c[i], b[i]), "the output is returned")
		}
		vx.Assert(b[3] == 7, "nothing else is written")
	}
}
