//vx:pkg math/mat
package mat

import vx "github.com/phil-mansfield/gotetra/zzvx"

// c28smat draws an n x n matrix: a diagonally dominant one with its rows permuted, so that
// every row exchange the pivoting can make occurs and the matrix is invertible.
func c28smat(n int) []float32 {
	p := c28sperm(n)
	a := make([]float32, n*n)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if i == j {
				a[p[i]*n+j] = vx.F32("diag", 4, 5)
			} else {
				a[p[i]*n+j] = vx.F32("off", 0, 1)
			}
		}
	}
	return a
}

func c28sperm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i+1 < n; i++ {
		j := vx.Choose("perm", i, n-1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func c28sres(n int, a, x, b []float32) {
	for i := 0; i < n; i++ {
		s := float32(0)
		for j := 0; j < n; j++ {
			s += a[i*n+j] * x[j]
		}
		vx.Assert(vx.EqR32(s, b[i]), "the solution satisfies the equations")
	}
}

func c28sdet(n int, a []float32) float32 {
	switch n {
	case 1:
		return a[0]
	case 2:
		return a[0]*a[3] - a[1]*a[2]
	}
	s, sign := float32(0), float32(1)
	for c := 0; c < n; c++ {
		m := []float32{}
		for i := 1; i < n; i++ {
			for j := 0; j < n; j++ {
				if j != c {
					m = append(m, a[i*n+j])
				}
			}
		}
		s += sign * a[c] * c28sdet(n-1, m)
		sign = -sign
	}
	return s
}

func c28svec(name string, n int) []float32 {
	v := make([]float32, n)
	for i := range v {
		v[i] = vx.F32(name, -10, 10)
	}
	return v
}

func c28sn() int { return c28n() }

// Solving one system leaves the inputs alone and satisfies the equations.
//vx: split solve=20
func VX_C28_f32solve() {
	n := vx.Choose("n", 1, c28sn())
	a, b := c28smat(n), c28svec("b", n)
	a0, b0 := append([]float32{}, a...), append([]float32{}, b...)
	x := NewMatrix32(a, n, n).SolveVector(b)
	vx.Assert(len(x) == n, "solution has the right length")
	c28sres(n, a0, x, b0)
	for i := range a {
		vx.Assert(vx.Same32(a[i], a0[i]), "the matrix is left alone")
	}
	for i := range b {
		vx.Assert(vx.Same32(b[i], b0[i]), "the right-hand side is left alone")
	}
	vx.Obs("x", float64(x[0]))
}

// A factorisation serves any number of right-hand sides, also in place, and can be recomputed for a new matrix.
//vx: split solve=20
func VX_C28_f32reuse() {
	n := vx.Choose("n", 2, c28sn())
	a := c28smat(n)
	lu := NewLUFactors32(n)
	// garbage from an earlier matrix
	g := make([]float32, n*n)
	for i := 0; i < n; i++ {
		g[i*n+(n-1-i)] = float32(2 + i)
	}
	NewMatrix32(g, n, n).LUFactorsAt(lu)
	NewMatrix32(a, n, n).LUFactorsAt(lu)
	b1, b2 := c28svec("b", n), c28svec("c", n)
	x1, x2 := make([]float32, n), append([]float32{}, b2...)
	lu.SolveVector(b1, x1)
	lu.SolveVector(x2, x2)
	c28sres(n, a, x1, b1)
	c28sres(n, a, x2, b2)
	x3 := c28svec("dirty", n)
	lu.SolveVector(b1, x3)
	c28sres(n, a, x3, b1)
	vx.Assert(vx.EqR32(lu.Determinant(), c28sdet(n, a)), "determinant of a reused factorisation")
	vx.Assert(vx.EqR32(lu.Determinant(), c28sdet(n, a)), "asking for the determinant again gives it again")
}

// Determinant.
//vx: split solve=20
func VX_C28_f32det() {
	n := vx.Choose("n", 1, c28sn())
	a := c28smat(n)
	d := NewMatrix32(a, n, n).Determinant()
	vx.Assert(vx.EqR32(d, c28sdet(n, a)), "the determinant is the Leibniz determinant")
	vx.Obs("d", float64(d))
}

// Matrix equations: m * x = b, also when x and b are the same matrix.
//vx: split solve=20
func VX_C28_f32matrix() {
	n := vx.Choose("n", 1, c28sn())
	a := c28smat(n)
	m := NewMatrix32(a, n, n)
	b := c28svec("b", n*n)
	b0 := append([]float32{}, b...)
	x := m.SolveMatrix(NewMatrix32(b, n, n))
	vx.Assert(x.Width == n && x.Height == n, "solution matrix has the right shape")
	inpl := NewMatrix32(append([]float32{}, b...), n, n)
	m.LU().SolveMatrix(inpl, inpl)
	for j := 0; j < n; j++ {
		cx, cb, ci := make([]float32, n), make([]float32, n), make([]float32, n)
		for i := 0; i < n; i++ {
			cx[i], cb[i], ci[i] = x.Vals[i*n+j], b0[i*n+j], inpl.Vals[i*n+j]
			vx.Assert(vx.Same32(b[i*n+j], b0[i*n+j]), "the right-hand side is left alone")
		}
		c28sres(n, a, cx, cb)
		c28sres(n, a, ci, cb)
	}
}

// Inverse.
//vx: split solve=20
func VX_C28_f32invert() {
	n := vx.Choose("n", 1, c28sn())
	a := c28smat(n)
	inv := NewMatrix32(a, n, n).Invert()
	// Also over whatever was there before.
	at := NewMatrix32(c28svec("dirty", n*n), n, n)
	NewMatrix32(a, n, n).LU().InvertAt(at)
	for i := range at.Vals {
		vx.Assert(vx.EqR32(at.Vals[i], inv.Vals[i]), "the inverse is written over what was there")
	}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			s := float32(0)
			for k := 0; k < n; k++ {
				s += a[i*n+k] * inv.Vals[k*n+j]
			}
			e := float32(0)
			if i == j {
				e = 1
			}
			vx.Assert(vx.EqR32(s, e), "matrix times inverse is the identity")
		}
	}
	vx.Obs("i", float64(inv.Vals[0]))
}

// Every 2x2 matrix that is not close to singular.
//vx: split solve=30
func VX_C28_f32any2() {
	a, b := make([]float32, 4), c28svec("b", 2)
	for i := range a {
		a[i] = vx.F32("a", -10, 10)
	}
	d := a[0]*a[3] - a[1]*a[2]
	vx.Assume(d > 0.01 || d < -0.01)
	m := NewMatrix32(a, 2, 2)
	c28sres(2, a, m.SolveVector(b), b)
	vx.Assert(vx.EqR32(m.Determinant(), d), "the determinant is the Leibniz determinant")
}

