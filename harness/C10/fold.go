//vx:pkg render/geom
package geom

import (
	"github.com/phil-mansfield/gotetra/math/rand"
	vx "github.com/phil-mansfield/gotetra/zzvx"
)

func c10vec(name string) Vec {
	return Vec{vx.F32(name+"0", -100, 100), vx.F32(name+"1", -100, 100), vx.F32(name+"2", -100, 100)}
}

func c10tet() *Tetra {
	a, b, c, d := c10vec("a"), c10vec("b"), c10vec("c"), c10vec("d")
	return NewTetra(&a, &b, &c, &d)
}

func c10same(a Vec, b Vec) bool {
	return vx.And(vx.EqR32(a[0], b[0]), vx.And(vx.EqR32(a[1], b[1]), vx.EqR32(a[2], b[2])))
}

// c10draws gives n points of the unit cube.
func c10draws(n int) (xs, ys, zs []float64, pts []Vec) {
	xs, ys, zs = make([]float64, n), make([]float64, n), make([]float64, n)
	pts = make([]Vec, n)
	for i := range xs {
		xs[i], ys[i], zs[i] = vx.F64("x", 0, 1), vx.F64("y", 0, 1), vx.F64("z", 0, 1)
		pts[i] = Vec{float32(xs[i]), float32(ys[i]), float32(zs[i])}
	}
	return
}

// The fold sends the unit cube into the unit tetrahedron by one of six affine maps of unit
// determinant: no target can be hit more than six times, and the cube has six times the
// volume of the tetrahedron, so every target is hit exactly six times.
//vx: mode=real split timeout=200
func VX_C10_fold() {
	n := vx.Choose("n", 1, 2)
	_, _, _, pts := c10draws(n)
	in := append([]Vec{}, pts...)
	DistributeUnit(pts)
	for i, q := range pts {
		v := 1 - q[0] - q[1] - q[2]
		vx.Assert(vx.LeR32(0, q[0]), "the first weight is not negative")
		vx.Assert(vx.LeR32(0, q[1]), "the second weight is not negative")
		vx.Assert(vx.LeR32(0, q[2]), "the third weight is not negative")
		vx.Assert(vx.LeR32(0, v), "the fourth weight is not negative")
		ok := false
		for f := 0; f < 2; f++ {
			s, t, u := in[i][0], in[i][1], in[i][2]
			if f == 1 {
				s, t = 1-s, 1-t
			}
			ok = vx.Or(ok, c10same(q, Vec{s, t, u}))
			ok = vx.Or(ok, c10same(q, Vec{s, 1 - u, 1 - s - t}))
			ok = vx.Or(ok, c10same(q, Vec{1 - t - u, t, s + t + u - 1}))
		}
		vx.Assert(ok, "the point is folded by a volume preserving map")
	}
	vx.Obs("s", float64(pts[0][0]))
}

// A folded point is moved to the same weighted mean of the corners.
//vx: mode=real split timeout=200
func VX_C10_tetra() {
	tet := c10tet()
	n := vx.Choose("n", 1, 2)
	pts := make([]Vec, n)
	for i := range pts {
		pts[i] = Vec{vx.F32("s", 0, 1), vx.F32("t", 0, 1), vx.F32("u", 0, 1)}
	}
	if vx.Choose("used", 0, 1) == 1 {
		// The tetrahedron was another one before.
		c := tet.Corners
		o := c10vec("o")
		tet.Init(&o, &c[2], &o, &c[0])
		tet.DistributeTetra(pts, make([]Vec, n))
		tet.Init(&c[0], &c[1], &c[2], &c[3])
	}
	in := append([]Vec{}, pts...)
	out, out64 := make([]Vec, n), make([][3]float64, n)
	tet.DistributeTetra(pts, out)
	tet.DistributeTetra64(pts, out64)
	for i, p := range in {
		v := 1 - p[0] - p[1] - p[2]
		for j := 0; j < 3; j++ {
			want := p[0]*tet.Corners[0][j] + p[1]*tet.Corners[1][j] + p[2]*tet.Corners[2][j] + v*tet.Corners[3][j]
			vx.Assert(vx.EqR32(out[i][j], want), "the point is the weighted mean of the corners")
			vx.Assert(vx.EqR32(float32(out64[i][j]), want), "double precision points are the weighted mean of the corners")
		}
		vx.Assert(p == pts[i], "the weights are left alone")
	}
	vx.Obs("x", float64(out[0][0]))
}

// The point that the corners are taken relative to.
//vx: mode=real split timeout=200
func VX_C10_barycentre() {
	tet := c10tet()
	if vx.Choose("used", 0, 1) == 1 {
		c := tet.Corners
		o := c10vec("o")
		tet.Init(&c[1], &c[3], &c[3], &o)
		tet.Barycenter()
		tet.Init(&c[0], &c[1], &c[2], &c[3])
	}
	first := *tet.Barycenter()
	again := *tet.Barycenter()
	for j := 0; j < 3; j++ {
		want := (tet.Corners[0][j] + tet.Corners[1][j] + tet.Corners[2][j] + tet.Corners[3][j]) / 4
		vx.Assert(vx.EqR32(first[j], want), "the barycentre is the mean of the corners")
		vx.Assert(first[j] == again[j], "the barycentre stays where it is")
	}
}

// Folding and distributing in one step is the same as in two.
//vx: mode=real split timeout=200
func VX_C10_combined() {
	tet := c10tet()
	n := vx.Choose("n", 1, 2)
	xs, ys, zs, pts := c10draws(n)
	one, two := make([]Vec, n), make([]Vec, n)
	tet.Distribute(xs, ys, zs, one)
	DistributeUnit(pts)
	tet.DistributeTetra(pts, two)
	for i := range one {
		for j := 0; j < 3; j++ {
			vx.Assert(vx.EqR32(one[i][j], two[i][j]), "one step and two steps give the same point")
		}
	}
}

// Random samples are the distributed draws of the generator.
//vx: mode=real split timeout=200
func VX_C10_sample() {
	tet := c10tet()
	n := vx.Choose("n", 0, 2)
	gen := rand.New(rand.Golang, 5)
	buf, vs, want := make([]float64, 3*n), make([]Vec, n), make([]Vec, n)
	tet.RandomSample(gen, buf, vs)
	for i := range buf {
		vx.Assert(vx.And(buf[i] >= 0, buf[i] < 1), "draws are in the unit interval")
	}
	tet.Distribute(buf[:n], buf[n:2*n], buf[2*n:], want)
	for i := range vs {
		for j := 0; j < 3; j++ {
			vx.Assert(vx.EqR32(vs[i][j], want[i][j]), "samples come from the draws")
		}
	}
	m := vx.Choose("len", 0, 7)
	bad := vx.Catch(func() { tet.RandomSample(gen, make([]float64, m), vs) })
	vx.Assert(bad == (m != 3*n), "a buffer of the wrong length is refused")
}
