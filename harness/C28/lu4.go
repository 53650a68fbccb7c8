//vx:pkg math/mat
package mat

import vx "github.com/phil-mansfield/gotetra/zzvx"

// 4x4 systems, every row order, with the scaled pivot choice forced by strong dominance.
//vx: split tier=thorough timeout=200
func VX_C28_n4() {
	n := 4
	p := c28perm(n)
	a := make([]float64, n*n)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if i == j {
				a[p[i]*n+j] = vx.F64("diag", 4, 5)
			} else if j == (i+1)%n {
				a[p[i]*n+j] = vx.F64("off", 0, 0.125)
			} else if j == (i+2)%n {
				a[p[i]*n+j] = 0.25
			}
		}
	}
	b := c28vec("b", n)
	m := NewMatrix(a, n, n)
	c28res(n, a, m.SolveVector(b), b)
	vx.Assert(vx.EqR(m.Determinant(), c28det(n, a)), "the determinant is the Leibniz determinant")
}
