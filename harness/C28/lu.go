//vx:pkg math/mat
package mat

import vx "github.com/phil-mansfield/gotetra/zzvx"

// c28mat draws an n x n matrix: a diagonally dominant one with its rows permuted, so that
// every row exchange the pivoting can make occurs and the matrix is invertible.
func c28mat(n int) []float64 {
	p := c28perm(n)
	a := make([]float64, n*n)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if i == j {
				a[p[i]*n+j] = vx.F64("diag", 4, 5)
			} else {
				a[p[i]*n+j] = vx.F64("off", 0, 1)
			}
		}
	}
	return a
}

func c28perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i+1 < n; i++ {
		j := vx.Choose("perm", i, n-1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func c28res(n int, a, x, b []float64) {
	for i := 0; i < n; i++ {
		s := 0.0
		for j := 0; j < n; j++ {
			s += a[i*n+j] * x[j]
		}
		vx.Assert(vx.EqR(s, b[i]), "the solution satisfies the equations")
	}
}

func c28det(n int, a []float64) float64 {
	switch n {
	case 1:
		return a[0]
	case 2:
		return a[0]*a[3] - a[1]*a[2]
	}
	s, sign := 0.0, 1.0
	for c := 0; c < n; c++ {
		m := []float64{}
		for i := 1; i < n; i++ {
			for j := 0; j < n; j++ {
				if j != c {
					m = append(m, a[i*n+j])
				}
			}
		}
		s += sign * a[c] * c28det(n-1, m)
		sign = -sign
	}
	return s
}

func c28vec(name string, n int) []float64 {
	v := make([]float64, n)
	for i := range v {
		v[i] = vx.F64(name, -10, 10)
	}
	return v
}

func c28n() int { return 3 }

// Solving one system leaves the inputs alone and satisfies the equations.
//vx: split solve=20
func VX_C28_solve() {
	n := vx.Choose("n", 1, c28n())
	a, b := c28mat(n), c28vec("b", n)
	a0, b0 := append([]float64{}, a...), append([]float64{}, b...)
	x := NewMatrix(a, n, n).SolveVector(b)
	vx.Assert(len(x) == n, "solution has the right length")
	c28res(n, a0, x, b0)
	for i := range a {
		vx.Assert(vx.Same(a[i], a0[i]), "the matrix is left alone")
	}
	for i := range b {
		vx.Assert(vx.Same(b[i], b0[i]), "the right-hand side is left alone")
	}
	vx.Obs("x", x[0])
}

// A factorisation serves any number of right-hand sides, also in place, and can be recomputed for a new matrix.
//vx: split solve=20
func VX_C28_reuse() {
	n := vx.Choose("n", 2, c28n())
	a := c28mat(n)
	lu := NewLUFactors(n)
	// garbage from an earlier matrix
	g := make([]float64, n*n)
	for i := 0; i < n; i++ {
		g[i*n+(n-1-i)] = float64(2 + i)
	}
	NewMatrix(g, n, n).LUFactorsAt(lu)
	NewMatrix(a, n, n).LUFactorsAt(lu)
	b1, b2 := c28vec("b", n), c28vec("c", n)
	x1, x2 := make([]float64, n), append([]float64{}, b2...)
	lu.SolveVector(b1, x1)
	lu.SolveVector(x2, x2)
	c28res(n, a, x1, b1)
	c28res(n, a, x2, b2)
	x3 := c28vec("dirty", n)
	lu.SolveVector(b1, x3)
	c28res(n, a, x3, b1)
	vx.Assert(vx.EqR(lu.Determinant(), c28det(n, a)), "determinant of a reused factorisation")
	vx.Assert(vx.EqR(lu.Determinant(), c28det(n, a)), "asking for the determinant again gives it again")
}

// Determinant.
//vx: split solve=20
func VX_C28_det() {
	n := vx.Choose("n", 1, c28n())
	a := c28mat(n)
	d := NewMatrix(a, n, n).Determinant()
	vx.Assert(vx.EqR(d, c28det(n, a)), "the determinant is the Leibniz determinant")
	vx.Obs("d", d)
}

// Matrix equations: m * x = b, also when x and b are the same matrix.
//vx: split solve=20
func VX_C28_matrix() {
	n := vx.Choose("n", 1, c28n())
	a := c28mat(n)
	m := NewMatrix(a, n, n)
	b := c28vec("b", n*n)
	b0 := append([]float64{}, b...)
	x := m.SolveMatrix(NewMatrix(b, n, n))
	vx.Assert(x.Width == n && x.Height == n, "solution matrix has the right shape")
	inpl := NewMatrix(append([]float64{}, b...), n, n)
	m.LU().SolveMatrix(inpl, inpl)
	for j := 0; j < n; j++ {
		cx, cb, ci := make([]float64, n), make([]float64, n), make([]float64, n)
		for i := 0; i < n; i++ {
			cx[i], cb[i], ci[i] = x.Vals[i*n+j], b0[i*n+j], inpl.Vals[i*n+j]
			vx.Assert(vx.Same(b[i*n+j], b0[i*n+j]), "the right-hand side is left alone")
		}
		c28res(n, a, cx, cb)
		c28res(n, a, ci, cb)
	}
}

// Inverse.
//vx: split solve=20
func VX_C28_invert() {
	n := vx.Choose("n", 1, c28n())
	a := c28mat(n)
	inv := NewMatrix(a, n, n).Invert()
	// Also over whatever was there before.
	at := NewMatrix(c28vec("dirty", n*n), n, n)
	NewMatrix(a, n, n).LU().InvertAt(at)
	for i := range at.Vals {
		vx.Assert(vx.EqR(at.Vals[i], inv.Vals[i]), "the inverse is written over what was there")
	}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			s := 0.0
			for k := 0; k < n; k++ {
				s += a[i*n+k] * inv.Vals[k*n+j]
			}
			e := 0.0
			if i == j {
				e = 1
			}
			vx.Assert(vx.EqR(s, e), "matrix times inverse is the identity")
		}
	}
	vx.Obs("i", inv.Vals[0])
}

// Every 2x2 matrix that is not close to singular.
//vx: split solve=30
func VX_C28_any2() {
	a, b := make([]float64, 4), c28vec("b", 2)
	for i := range a {
		a[i] = vx.F64("a", -10, 10)
	}
	d := a[0]*a[3] - a[1]*a[2]
	vx.Assume(d > 0.01 || d < -0.01)
	m := NewMatrix(a, 2, 2)
	c28res(2, a, m.SolveVector(b), b)
	vx.Assert(vx.EqR(m.Determinant(), d), "the determinant is the Leibniz determinant")
}

// Non-square systems and mismatched right-hand sides are refused.
func VX_C28_shapes() {
	w, h := vx.Choose("w", 1, 3), vx.Choose("h", 1, 3)
	a := make([]float64, w*h)
	a32 := make([]float32, w*h)
	for i := 0; i < w && i < h; i++ {
		a[i*w+i], a32[i*w+i] = 1, 1
	}
	n := vx.Choose("nb", 1, 3)
	bad := vx.Catch(func() { NewMatrix(a, w, h).SolveVector(make([]float64, n)) })
	vx.Assert(bad == (w != h || n != w), "a system of mismatched shape is refused, a square one is not")
	bad = vx.Catch(func() { NewMatrix32(a32, w, h).SolveVector(make([]float32, n)) })
	vx.Assert(bad == (w != h || n != w), "a float32 system of mismatched shape is refused, a square one is not")
}
