//vx:pkg render/geom
package geom

import vx "github.com/phil-mansfield/gotetra/zzvx"

func c15vec(name string, lo, hi float32) Vec {
	return Vec{vx.F32(name+"0", lo, hi), vx.F32(name+"1", lo, hi), vx.F32(name+"2", lo, hi)}
}

// Wrapping: every float within a box width of the box, every box width, bit exact.
//vx: mode=fp split timeout=300
func VX_C15_mod() {
	w := vx.F32("w", 0.0009765625, 1048576)
	v := Vec{1, 0, vx.F32("x", -1048576, 2097152)}
	v[0] = 0
	vx.Assume(vx.And(v[2] >= -w, v[2] < 2*w))
	in := v
	m := *v.Mod(float64(w))
	vx.Assert(v == in, "the vector is left alone")
	vx.Assert(vx.And(m[2] >= 0, m[2] < w), "wrapped coordinates are in the box")
	if in[2] >= 0 && in[2] < w {
		vx.Assert(m[2] == in[2], "coordinates in the box are kept")
	}
	vx.Assert(m[0] == 0 && m[1] == 0, "other coordinates are kept")
	var at Vec
	v.ModAt(float64(w), &at)
	vx.Assert(at == m, "all forms agree")
	vx.Assert(*v.ModSelf(float64(w)) == m && v == m, "all forms agree in place")
	again := *m.Mod(float64(w))
	vx.Assert(again == m, "wrapping twice is wrapping once")
}

// Wrapping gives the equivalent point.
//vx: mode=real split timeout=300
func VX_C15_equivalent() {
	w := vx.F32("w", 0.0009765625, 1048576)
	v := c15vec("x", -1048576, 2097152)
	for i := range v {
		vx.Assume(vx.And(v[i] >= -w, v[i] < 2*w))
	}
	m := *v.Mod(float64(w))
	for i := range v {
		vx.Assert(vx.And(m[i] >= 0, m[i] < w), "wrapped coordinates are in the box")
		same := vx.EqR32(m[i], v[i])
		same = vx.Or(same, vx.Or(vx.EqR32(m[i], v[i]+w), vx.EqR32(m[i], v[i]-w)))
		vx.Assert(same, "the wrapped point is equivalent")
	}
	vx.Obs("m", float64(m[0]))
}

// Displacements are equivalent to the difference and the smallest of those.
//vx: mode=real split timeout=300
func VX_C15_sub() {
	w := vx.F32("w", 0.0009765625, 1048576)
	a, b := c15vec("a", 0, 1048576), c15vec("b", 0, 1048576)
	for i := range a {
		vx.Assume(vx.And(a[i] <= w, b[i] <= w))
	}
	ia, ib := a, b
	d := *a.Sub(&b, float64(w))
	vx.Assert(a == ia && b == ib, "the operands are left alone")
	for i := range d {
		diff := a[i] - b[i]
		same := vx.EqR32(d[i], diff)
		same = vx.Or(same, vx.Or(vx.EqR32(d[i], diff+w), vx.EqR32(d[i], diff-w)))
		vx.Assert(same, "the displacement is equivalent to the difference")
		vx.Assert(vx.And(vx.LeR32(-w, 2*d[i]), vx.LeR32(2*d[i], w)), "the displacement is the smallest one")
	}
	var at Vec
	a.SubAt(&b, float64(w), &at)
	vx.Assert(at == d, "all forms agree")
	switch vx.Choose("form", 0, 2) {
	case 0:
		vx.Assert(*a.SubSelf(&b, float64(w)) == d && a == d && b == ib, "in place")
	case 1:
		vx.Assert(*a.SubAt(&b, float64(w), &b) == d && b == d && a == ia, "into the other operand")
	case 2:
		z := *a.Sub(&a, float64(w))
		vx.Assert(z == Vec{}, "a point is at distance zero from itself")
	}
	vx.Obs("d", float64(d[0]))
}

// Displacements between points further apart than the box, up to two and a half box widths.
//vx: mode=real split timeout=300
func VX_C15_subfar() {
	w := vx.F32("w", 0.0009765625, 1024)
	x, y := vx.F32("x", -1024, 2048), vx.F32("y", -1024, 2048)
	vx.Assume(vx.And(x-y < 5*w/2, x-y > -5*w/2))
	a, b := Vec{0, x, 0}, Vec{0, y, 0}
	d := *a.Sub(&b, float64(w))
	diff := x - y
	same := vx.EqR32(d[1], diff)
	same = vx.Or(same, vx.Or(vx.EqR32(d[1], diff+w), vx.EqR32(d[1], diff-w)))
	same = vx.Or(same, vx.Or(vx.EqR32(d[1], diff+2*w), vx.EqR32(d[1], diff-2*w)))
	vx.Assert(same, "the displacement is equivalent to the difference")
	vx.Assert(vx.And(vx.LeR32(-w, 2*d[1]), vx.LeR32(2*d[1], w)), "the displacement is the smallest one")
	vx.Assert(d[0] == 0 && d[2] == 0, "other axes are not affected")
}

// Sums, multiples and products, all forms.
//vx: mode=real split timeout=300
func VX_C15_linear() {
	a, b := c15vec("a", -1000, 1000), c15vec("b", -1000, 1000)
	k := vx.F64("k", -1000, 1000)
	ia, ib := a, b
	s, m, c := *a.Add(&b), *a.Scale(k), *a.Cross(&b)
	vx.Assert(a == ia && b == ib, "the operands are left alone")
	dot := float32(0)
	for i := 0; i < 3; i++ {
		vx.Assert(vx.EqR32(s[i], a[i]+b[i]), "sums are taken by component")
		vx.Assert(vx.EqR(float64(m[i]), float64(a[i])*k), "multiples are taken by component")
		dot += a[i] * b[i]
	}
	vx.Assert(vx.EqR(a.Dot(&b), float64(dot)), "the dot product")
	vx.Assert(vx.EqR(a.Dot(&b), b.Dot(&a)), "the dot product is symmetric")
	ca, cb := float32(0), float32(0)
	for i := 0; i < 3; i++ {
		ca += c[i] * a[i]
		cb += c[i] * b[i]
	}
	vx.Assert(vx.EqR32(ca, 0), "the cross product is orthogonal to the first vector")
	vx.Assert(vx.EqR32(cb, 0), "the cross product is orthogonal to the second vector")
	vx.Assert(vx.EqR32(c[0]*c[0]+c[1]*c[1]+c[2]*c[2]+dot*dot,
		float32(a.Dot(&a))*float32(b.Dot(&b))), "the length of the cross product")
	r := *b.Cross(&a)
	for i := 0; i < 3; i++ {
		vx.Assert(vx.EqR32(r[i], -c[i]), "the cross product is antisymmetric")
	}
	switch vx.Choose("form", 0, 8) {
	case 0:
		vx.Assert(*a.AddSelf(&b) == s && a == s && b == ib, "add in place")
	case 1:
		vx.Assert(*a.AddAt(&b, &b) == s && b == s && a == ia, "add into the other operand")
	case 2:
		vx.Assert(*a.ScaleSelf(k) == m && a == m, "scale in place")
	case 3:
		vx.Assert(*a.ScaleAt(k, &b) == m && b == m && a == ia, "scale into another vector")
	case 4:
		vx.Assert(*a.CrossSelf(&b) == c && a == c && b == ib, "cross in place")
	case 5:
		vx.Assert(*a.CrossAt(&b, &b) == c && b == c && a == ia, "cross into the other operand")
	case 6:
		vx.Assert(*a.AddAt(&a, &a) == Vec{2 * ia[0], 2 * ia[1], 2 * ia[2]}, "a vector added to itself in place")
	case 7:
		vx.Assert(*a.CrossSelf(&a) == Vec{}, "a vector is parallel to itself")
	case 8:
		n := a.Norm()
		vx.Assert(vx.And(n >= 0, vx.EqR(n*n, a.Dot(&a))), "the norm is the root of the dot product with itself")
	}
	vx.Obs("c", float64(c[0]))
}
