//vx:pkg math/interpolate
package interpolate

import vx "github.com/phil-mansfield/gotetra/zzvx"

func c30at(name string, xs []float64) float64 {
	j := vx.Choose(name+"c", 0, 1)
	vx.Assume(j < len(xs)-1)
	return xs[j] + vx.F64(name, 0.001, 0.999)*(xs[j+1]-xs[j])
}

// Bicubic: nodes, the uniform form, and the definition by splines of splines.
//vx: mode=real split forkidx timeout=300
func VX_C30_bicubic() {
	xs, ys := c30tab(vx.Choose("xt", 0, 2)), c30tab(vx.Choose("yt", 3, 4))
	nx, ny := len(xs), len(ys)
	v := c30vals(nx * ny)
	bi := NewBiCubic(xs, ys, v)
	i, j := vx.Choose("i", 0, 3), vx.Choose("j", 0, 4)
	vx.Assume(i < nx && j < ny)
	vx.Assert(vx.EqR(bi.Eval(xs[i], ys[j]), v[i+nx*j]), "a node returns its tabulated value")
	x, y := c30at("x", xs), c30at("y", ys)
	row := make([]float64, nx)
	for a := range row {
		col := make([]float64, ny)
		for b := range col {
			col[b] = v[a+nx*b]
		}
		row[a] = NewSpline(ys, col).Eval(y)
	}
	r := bi.Eval(x, y)
	vx.Assert(vx.EqR(r, NewSpline(xs, row).Eval(x)), "the surface is the spline through the splines of its columns")
	vx.Obs("r", r)
}

// The value at a point does not depend on what was evaluated before.
//vx: mode=real split forkidx timeout=300
func VX_C30_bihist() {
	xs, ys := c30tab(0), c30tab(6)
	v := c30vals(9)
	bi := NewBiCubic(xs, ys, v)
	x1, y1 := c30at("x1", xs), c30pt("y1", ys, 0)
	x2, y2 := c30at("x2", xs), c30pt("y2", ys, vx.Choose("y2c", 0, 1))
	bi.Eval(x1, y1)
	if vx.Choose("again", 0, 1) == 1 {
		bi.Eval(x2, y1)
	}
	r := bi.Eval(x2, y2)
	vx.Assert(vx.EqR(r, NewBiCubic(xs, ys, v).Eval(x2, y2)), "earlier evaluations do not change later ones")
	out := make([]float64, 2)
	bi.EvalAll([]float64{x1, x2}, []float64{y1, y2}, out)
	all := bi.EvalAll([]float64{x1, x2}, []float64{y1, y2})
	vx.Assert(vx.EqR(out[1], r) && vx.EqR(all[1], r), "EvalAll agrees with Eval")
	vx.Assert(vx.EqR(out[0], all[0]), "EvalAll agrees with Eval")
}

// Uniform forms are the general forms on the same grid.
//vx: mode=real split forkidx timeout=300
func VX_C30_uniform() {
	xs, ys, zs := []float64{1, 1.5, 2}, []float64{7, 5}, []float64{0, 0.25, 0.5}
	v := c30vals(18)
	x, y, z := c30at("x", xs), c30at("y", ys), c30at("z", zs)
	bi := NewUniformBiCubic(1, 0.5, 3, 7, -2, 2, v[:6])
	vx.Assert(vx.EqR(bi.Eval(x, y), NewBiCubic(xs, ys, v[:6]).Eval(x, y)), "uniform and general forms agree")
	tri := NewUniformTriCubic(1, 0.5, 3, 7, -2, 2, 0, 0.25, 3, v)
	vx.Assert(vx.EqR(tri.Eval(x, y, z), NewTriCubic(xs, ys, zs, v).Eval(x, y, z)), "uniform and general forms agree")
	vx.Assert(vx.Catch(func() { NewBiCubic(xs, ys, v[:5]) }) && vx.Catch(func() { NewTriCubic(xs, ys, zs, v[:12]) }), "mismatched tables are refused")
	vx.Assert(vx.Catch(func() { NewUniformBiCubic(1, 1, 3, 1, 1, 2, v[:5]) }) && vx.Catch(func() { NewUniformTriCubic(1, 1, 3, 1, 1, 2, 1, 1, 3, v[:12]) }), "mismatched tables are refused")
}

// Tricubic: nodes and the definition by splines of splines of splines.
//vx: mode=real split forkidx timeout=300
func VX_C30_tricubic() {
	xs, ys, zs := c30tab(0), c30tab(3), c30tab(6)
	switch vx.Choose("perm", 0, 2) {
	case 1:
		xs, ys, zs = ys, zs, xs
	case 2:
		xs, ys, zs = zs, xs, ys
	}
	nx, ny, nz := len(xs), len(ys), len(zs)
	v := c30vals(nx * ny * nz)
	tri := NewTriCubic(xs, ys, zs, v)
	i, j, k := vx.Choose("i", 0, 2), vx.Choose("j", 0, 2), vx.Choose("k", 0, 2)
	vx.Assume(i < nx && j < ny && k < nz)
	vx.Assert(vx.EqR(tri.Eval(xs[i], ys[j], zs[k]), v[i+nx*j+nx*ny*k]), "a node returns its tabulated value")
	x, y, z := c30at("x", xs), ys[0]+0.5*(ys[1]-ys[0]), c30at("z", zs)
	row := make([]float64, nx)
	for a := range row {
		col := make([]float64, ny)
		for b := range col {
			dep := make([]float64, nz)
			for c := range dep {
				dep[c] = v[a+nx*b+nx*ny*c]
			}
			col[b] = NewSpline(zs, dep).Eval(z)
		}
		row[a] = NewSpline(ys, col).Eval(y)
	}
	vx.Assert(vx.EqR(tri.Eval(x, y, z), NewSpline(xs, row).Eval(x)), "the field is the spline through the splines of its columns")
}

// The value at a point does not depend on what was evaluated before.
//vx: mode=real split forkidx timeout=300
func VX_C30_trihist() {
	xs, ys, zs := c30tab(6), c30tab(3), c30tab(2)
	v := c30vals(12)
	tri := NewTriCubic(xs, ys, zs, v)
	y1, y2 := c30pt("y1", ys, 0), c30pt("y2", ys, 0)
	z1, z2 := c30pt("z1", zs, 0), c30pt("z2", zs, 0)
	x := 2 + vx.F64("x", 0.001, 0.999)
	tri.Eval(3, y1, z1)
	switch vx.Choose("again", 0, 2) {
	case 1:
		tri.Eval(x, y1, z2)
	case 2:
		tri.Eval(x, y2, z1)
	}
	r := tri.Eval(x, y2, z2)
	vx.Assert(vx.EqR(r, NewTriCubic(xs, ys, zs, v).Eval(x, y2, z2)), "earlier evaluations do not change later ones")
	out := make([]float64, 2)
	all := tri.EvalAll([]float64{3, x}, []float64{y1, y2}, []float64{z1, z2})
	tri.EvalAll([]float64{3, x}, []float64{y1, y2}, []float64{z1, z2}, out)
	vx.Assert(vx.EqR(out[1], r) && vx.EqR(all[1], r) && vx.EqR(out[0], all[0]), "EvalAll agrees with Eval")
}
