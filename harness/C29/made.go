//vx:pkg math/interpolate
package interpolate

import vx "github.com/phil-mansfield/gotetra/zzvx"

// Interpolators made through the interfaces are the same ones.
//vx: mode=real split forkidx timeout=300
func VX_C29_made() {
	xs, ys, zs := []float64{-1, 0.5, 2}, []float64{3, 5, 6}, []float64{2, 1, -1}
	x0, dx, y0, dy, z0, dz := -1.0, 1.5, 3.0, 2.0, 4.0, -0.5
	x := vx.F64("x", -1, 2)
	y := vx.F64("y", 3, 5)
	z := vx.F64("z", 1, 2)
	switch vx.Choose("which", 0, 5) {
	case 0:
		v := c29vals(3)
		vx.Assert(vx.EqR(NewLinearInterpolator(xs, v).Eval(x), NewLinear(xs, v).Eval(x)), "the same interpolator")
	case 1:
		v := c29vals(3)
		vx.Assert(vx.EqR(NewUniformLinearInterpolator(x0, dx, v).Eval(x), NewUniformLinear(x0, dx, v).Eval(x)), "the same interpolator")
	case 2:
		v := c29vals(9)
		vx.Assert(vx.EqR(NewBiLinearInterpolator(xs, ys, v).Eval(x, y), NewBiLinear(xs, ys, v).Eval(x, y)), "the same interpolator")
	case 3:
		v := c29vals(6)
		vx.Assert(vx.EqR(NewUniformBiLinearInterpolator(x0, dx, 3, y0, dy, 2, v).Eval(x, y), NewUniformBiLinear(x0, dx, 3, y0, dy, 2, v).Eval(x, y)), "the same interpolator")
	case 4:
		v := c29vals(27)
		vx.Assert(vx.EqR(NewTriLinearInterpolator(xs, ys, zs, v).Eval(x, y, z), NewTriLinear(xs, ys, zs, v).Eval(x, y, z)), "the same interpolator")
	case 5:
		v := c29vals(24)
		z += 1.5
		vx.Assert(vx.EqR(NewUniformTriLinearInterpolator(x0, dx, 3, y0, dy, 2, z0, dz, 4, v).Eval(x, y, z), NewUniformTriLinear(x0, dx, 3, y0, dy, 2, z0, dz, 4, v).Eval(x, y, z)), "the same interpolator")
	}
}
