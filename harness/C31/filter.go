//vx:pkg math/interpolate
package interpolate

import vx "github.com/phil-mansfield/gotetra/zzvx"

var c31rules = []BoundaryCondition{Periodic, Reflection, ZeroPad, Extension}

// c31at is the data continued beyond its ends by rule b.
func c31at(xs []float64, b BoundaryCondition, i int) float64 {
	n := len(xs)
	if i >= 0 && i < n {
		return xs[i]
	}
	switch b {
	case Periodic:
		return xs[((i%n)+n)%n]
	case Reflection:
		if i < 0 {
			return xs[-i-1]
		}
		return xs[2*n-1-i]
	case ZeroPad:
		return 0
	}
	if i < 0 {
		return xs[0]
	}
	return xs[n-1]
}

func c31vals(name string, n int) []float64 {
	v := make([]float64, n)
	for i := range v {
		v[i] = vx.F64(name, -1000, 1000)
	}
	return v
}

// c31weights recovers the weights of a kernel of odd width w from its response to unit impulses:
// out[i] = sum_m weight[m-i+w/2] x[m].
func c31weights(k *Kernel, w int) []float64 {
	cs := make([]float64, w)
	for m := 0; m < w; m++ {
		e := make([]float64, w)
		e[m] = 1
		cs[m] = k.Convolve(e, ZeroPad)[w/2]
	}
	return cs
}

func c31kernel(which, w int) *Kernel {
	switch which {
	case 0:
		return NewTophatKernel(w)
	case 1:
		return NewSavGolKernel(w-1, w)
	case 2:
		return NewSavGolKernel(w/2, w)
	case 3:
		return NewSavGolDerivKernel(0.5, 1, w-1, w)
	}
	return NewGaussianKernel(w, 1.5, 0.5)
}

// Data continued by each rule.
//vx: mode=real timeout=100
func VX_C31_get() {
	n := vx.Choose("n", 1, 5)
	i := vx.Choose("i", -5, 9)
	vx.Assume(-n <= i && i < 2*n)
	b := c31rules[vx.Choose("rule", 0, 3)]
	xs := c31vals("x", n)
	vx.Assert(vx.EqR(b.Get(xs, i), c31at(xs, b, i)), "the data is continued by the boundary rule")
}

// Convolution is the weighted sum over the continued data, for every constructible kernel and rule.
//vx: mode=real split timeout=200 maxpath=20000
func VX_C31_convolve() {
	w := []int{1, 3, 5, 7}[vx.Choose("w", 0, 3)]
	extra := vx.Choose("extra", 0, 3)
	if extra == 3 {
		extra = 5
	}
	n := w + extra
	which := vx.Choose("kernel", 0, 4)
	vx.Assume(which != 3 || w > 1)
	k := c31kernel(which, w)
	cs := c31weights(k, w)
	b := c31rules[vx.Choose("rule", 0, 3)]
	xs := c31vals("x", n)
	in := append([]float64{}, xs...)
	got := k.Convolve(xs, b)
	out := make([]float64, n)
	k.ConvolveAt(xs, b, out)
	vx.Assert(len(got) == n, "the output is as long as the data")
	for i := 0; i < n; i++ {
		want := 0.0
		for j, c := range cs {
			want += c * c31at(in, b, i+j-w/2)
		}
		vx.Assert(vx.EqR(got[i], want), "convolution is the weighted sum over the continued data")
		vx.Assert(vx.EqR(out[i], want), "convolution is the weighted sum over the continued data")
		vx.Assert(vx.Same(xs[i], in[i]), "the data is left alone")
	}
	vx.Obs("y", got[0])
}

// Smoothing kernels have unit sum and symmetric weights.
//vx: mode=real split timeout=200
func VX_C31_unit() {
	w := []int{1, 3, 5, 7, 9, 11}[vx.Choose("w", 0, 5)]
	which := vx.Choose("kernel", 0, 9)
	var k *Kernel
	if which == 9 {
		k = NewTophatKernel(w)
	} else {
		vx.Assume(which < w)
		k = NewSavGolKernel(which, w)
	}
	cs := c31weights(k, w)
	sum := 0.0
	for i, c := range cs {
		sum += c
		vx.Assert(vx.EqR(c, cs[w-1-i]), "the weights are symmetric")
		if which == 9 {
			vx.Assert(vx.EqR(c*float64(w), 1), "a tophat has equal weights")
		}
	}
	vx.Assert(vx.EqR(sum, 1), "the weights add up to one")
}

// Gaussian kernels for every width parameter and spacing.
//vx: mode=real split timeout=200 div=assume
func VX_C31_gauss() {
	w := []int{1, 3, 5, 7}[vx.Choose("w", 0, 3)]
	sigma, dx := vx.F64("sigma", 0.25, 10), vx.F64("dx", 0.125, 2)
	cs := c31weights(NewGaussianKernel(w, sigma, dx), w)
	sum := 0.0
	for i, c := range cs {
		sum += c
		vx.Assert(vx.EqR(c, cs[w-1-i]), "the weights are symmetric")
	}
	vx.Assert(vx.EqR(sum, 1), "the weights add up to one")
}

// Savitzky-Golay smoothing reproduces polynomials up to its order, and its derivative form
// differentiates them.
//vx: mode=real split timeout=300 maxpath=20000
func VX_C31_savgol() {
	w := []int{3, 5, 7, 9}[vx.Choose("w", 0, 3)]
	order := vx.Choose("order", 0, 5)
	d := vx.Choose("deriv", 0, 4)
	vx.Assume(order < w && d <= order)
	dx := vx.F64("dx", 0.125, 4)
	n := w + 2
	var k *Kernel
	if d == 0 {
		k = NewSavGolKernel(order, w)
	} else {
		k = NewSavGolDerivKernel(dx, d, order, w)
	}
	a := c31vals("a", order+1)
	xs, want := make([]float64, n), make([]float64, n)
	for i := range xs {
		x := (float64(i) - 2) * dx
		p := 1.0
		for _, c := range a {
			xs[i] += c * p
			p *= x
		}
		p = 1.0
		for e := d; e < len(a); e++ {
			f := 1.0
			for q := e - d + 1; q <= e; q++ {
				f *= float64(q)
			}
			want[i] += a[e] * f * p
			p *= x
		}
	}
	b := c31rules[vx.Choose("rule", 0, 3)]
	got := k.Convolve(xs, b)
	for i := w / 2; i < n-w/2; i++ {
		vx.Assert(vx.EqR(got[i], want[i]), "polynomials up to the order are reproduced or differentiated exactly")
	}
}

// Impossible kernels are refused.
//vx: mode=real split timeout=100
func VX_C31_refuse() {
	w := vx.Choose("w", 1, 8)
	o := vx.Choose("order", 0, 8)
	d := vx.Choose("d", 0, 3)
	even := w%2 == 0
	vx.Assert(vx.Catch(func() { NewTophatKernel(w) }) == even, "even widths are refused")
	vx.Assert(vx.Catch(func() { NewGaussianKernel(w, 1, 1) }) == even, "even widths are refused")
	vx.Assert(vx.Catch(func() { NewSavGolKernel(o, w) }) == (even || w <= o), "orders that the width cannot determine are refused")
	vx.Assert(vx.Catch(func() { NewSavGolDerivKernel(1, d, o, w) }) == (even || w <= o || d > o), "orders that the width cannot determine are refused")
}
