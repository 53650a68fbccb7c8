//vx:pkg math/mat
package mat

import vx "github.com/phil-mansfield/gotetra/zzvx"

func vxVals(name string, n int) []float64 {
	v := make([]float64, n)
	for i := range v {
		v[i] = vx.F64(name, -100, 100)
	}
	return v
}

func vxVals32(name string, n int) []float32 {
	v := make([]float32, n)
	for i := range v {
		v[i] = vx.F32(name, -100, 100)
	}
	return v
}

func vxMax() int { return 3 + vx.Tier() }

// Product of an h x k and a k x w matrix equals the definition and leaves its operands alone.
func VX_C27_mult() {
	h, k, w := vx.Choose("h", 1, vxMax()), vx.Choose("k", 1, vxMax()), vx.Choose("w", 1, vxMax())
	a, b := vxVals("a", h*k), vxVals("b", k*w)
	a0, b0 := append([]float64{}, a...), append([]float64{}, b...)
	ma, mb := NewMatrix(a, k, h), NewMatrix(b, w, k)
	out := ma.Mult(mb)
	vx.Assert(out.Width == w && out.Height == h && len(out.Vals) == w*h, "product has the shape height(a) x width(b)")
	// in-place form into a dirty matrix
	out2 := NewMatrix(vxVals("dirty", h*w), w, h)
	r := ma.MultAt(mb, out2)
	vx.Assert(r == out2, "MultAt returns its output matrix")
	for i := 0; i < h; i++ {
		for j := 0; j < w; j++ {
			s := 0.0
			for l := 0; l < k; l++ {
				s += a0[i*k+l] * b0[l*w+j]
			}
			vx.Assert(vx.EqR(out.Vals[i*w+j], s), "product entry equals the sum over the inner index")
			vx.Assert(vx.EqR(out2.Vals[i*w+j], s), "in-place product entry equals the sum over the inner index")
		}
	}
	for i := range a {
		vx.Assert(vx.Same(a[i], a0[i]), "left operand unchanged")
	}
	for i := range b {
		vx.Assert(vx.Same(b[i], b0[i]), "right operand unchanged")
	}
	vx.Obs("o", out.Vals[0])
}

// Float32 product.
func VX_C27_mult32() {
	h, k, w := vx.Choose("h", 1, vxMax()), vx.Choose("k", 1, vxMax()), vx.Choose("w", 1, vxMax())
	a, b := vxVals32("a", h*k), vxVals32("b", k*w)
	a0, b0 := append([]float32{}, a...), append([]float32{}, b...)
	ma, mb := NewMatrix32(a, k, h), NewMatrix32(b, w, k)
	out := ma.Mult(mb)
	vx.Assert(out.Width == w && out.Height == h && len(out.Vals) == w*h, "product has the shape height(a) x width(b)")
	out2 := NewMatrix32(vxVals32("dirty", h*w), w, h)
	ma.MultAt(mb, out2)
	for i := 0; i < h; i++ {
		for j := 0; j < w; j++ {
			s := float32(0)
			for l := 0; l < k; l++ {
				s += a0[i*k+l] * b0[l*w+j]
			}
			vx.Assert(vx.EqR32(out.Vals[i*w+j], s), "product entry equals the sum over the inner index")
			vx.Assert(vx.EqR32(out2.Vals[i*w+j], s), "in-place product entry equals the sum over the inner index")
		}
	}
}

// Matrix-vector and vector-matrix products.
func VX_C27_vec() {
	h, w := vx.Choose("h", 1, vxMax()), vx.Choose("w", 1, vxMax())
	a := vxVals("a", h*w)
	m := NewMatrix(a, w, h)
	v, out := vxVals("v", w), vxVals("dirty", h)
	MultVec(m, v, out)
	for i := 0; i < h; i++ {
		s := 0.0
		for l := 0; l < w; l++ {
			s += a[i*w+l] * v[l]
		}
		vx.Assert(vx.EqR(out[i], s), "matrix times vector")
	}
	u, out2 := vxVals("u", h), vxVals("dirty", w)
	VecMult(u, m, out2)
	for j := 0; j < w; j++ {
		s := 0.0
		for l := 0; l < h; l++ {
			s += u[l] * a[l*w+j]
		}
		vx.Assert(vx.EqR(out2[j], s), "vector times matrix")
	}
}

// Transposition.
func VX_C27_transpose() {
	h, w := vx.Choose("h", 1, vxMax()+1), vx.Choose("w", 1, vxMax()+1)
	a := vxVals("a", h*w)
	m := NewMatrix(a, w, h)
	t := m.Transpose()
	vx.Assert(t.Width == h && t.Height == w, "transpose swaps the shape")
	t2 := NewMatrix(vxVals("dirty", h*w), h, w)
	m.TransposeAt(t2)
	for i := 0; i < h; i++ {
		for j := 0; j < w; j++ {
			vx.Assert(vx.Same(t.Vals[j*h+i], a[i*w+j]), "transpose moves every entry to its mirrored place")
			vx.Assert(vx.Same(t2.Vals[j*h+i], a[i*w+j]), "TransposeAt moves every entry to its mirrored place")
		}
	}
	vx.Obs("t", t.Vals[h*w-1])
}

// Mismatched shapes are refused.
func VX_C27_shapes() {
	h, k, k2, w := vx.Choose("h", 1, 2), vx.Choose("k", 1, 3), vx.Choose("k2", 1, 3), vx.Choose("w", 1, 2)
	a, b := make([]float64, h*k), make([]float64, k2*w)
	bad := vx.Catch(func() { NewMatrix(a, k, h).Mult(NewMatrix(b, w, k2)) })
	vx.Assert(bad == (k != k2), "product of incompatible shapes is refused, of compatible ones is not")
	a3, b3 := make([]float32, h*k), make([]float32, k2*w)
	bad = vx.Catch(func() { NewMatrix32(a3, k, h).Mult(NewMatrix32(b3, w, k2)) })
	vx.Assert(bad == (k != k2), "float32 product of incompatible shapes is refused, of compatible ones is not")
	bad = vx.Catch(func() { MultVec(NewMatrix(a, k, h), make([]float64, k2), make([]float64, w)) })
	vx.Assert(bad == (k != k2 || h != w), "matrix-vector product of incompatible shapes is refused")
	bad = vx.Catch(func() { VecMult(make([]float64, k2), NewMatrix(a, k, h), make([]float64, w)) })
	vx.Assert(bad == (h != k2 || k != w), "vector-matrix product of incompatible shapes is refused")
	n := vx.Choose("n", 0, 5)
	bad = vx.Catch(func() { NewMatrix(make([]float64, n), k, h) })
	vx.Assert(bad == (n != h*k), "a matrix whose values do not fill its shape is refused")
}

// Shapes that are longer than blocks of entries would be.
//vx: mode=real split timeout=300 unwind=100000
func VX_C27_large() {
	shapes := [][2]int{{3, 20}, {20, 3}, {17, 33}, {33, 18}, {1, 70}, {70, 1}}
	sh := shapes[vx.Choose("shape", 0, len(shapes)-1)]
	h, w := sh[0], sh[1]
	a := vxVals("a", h*w)
	m := NewMatrix(a, w, h)
	t := m.Transpose()
	for i := 0; i < h; i++ {
		for j := 0; j < w; j++ {
			vx.Assert(vx.Same(t.Vals[j*h+i], a[i*w+j]), "transpose moves every entry to its mirrored place")
		}
	}
	b := vxVals("b", 2*h)
	p := NewMatrix(b, h, 2).Mult(m)
	for i := 0; i < 2; i++ {
		for j := 0; j < w; j++ {
			s := 0.0
			for l := 0; l < h; l++ {
				s += b[i*h+l] * a[l*w+j]
			}
			vx.Assert(vx.EqR(p.Vals[i*w+j], s), "product entry equals the sum over the inner index")
		}
	}
	v, out := vxVals("v", w), make([]float64, h)
	MultVec(m, v, out)
	for i := range out {
		s := 0.0
		for l := 0; l < w; l++ {
			s += a[i*w+l] * v[l]
		}
		vx.Assert(vx.EqR(out[i], s), "matrix times vector")
	}
}
