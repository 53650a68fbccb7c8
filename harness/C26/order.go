//vx:pkg math/sort
package sort

import vx "github.com/phil-mansfield/gotetra/zzvx"

func c26draw(n int) []float64 {
	xs := make([]float64, n)
	for i := range xs {
		xs[i] = vx.F64("x", -1000, 1000)
	}
	return xs
}

// c26rank asserts that v is an element of xs that is r-th largest (1-indexed) counting duplicates.
func c26rank(xs []float64, v float64, r int, msg string) {
	gt, ge := 0, 0
	for _, x := range xs {
		gt += vx.IfI(x > v, 1, 0)
		ge += vx.IfI(x >= v, 1, 0)
	}
	vx.Assert(gt < r && r <= ge, msg)
}

// Every rank of every array of up to five elements.
//vx: split maxpath=20000 timeout=200
func VX_C26_nth() {
	n := vx.Choose("n", 1, 5)
	r := vx.Choose("r", 1, 5)
	vx.Assume(r <= n)
	xs := c26draw(n)
	in := append([]float64{}, xs...)
	v := NthLargest(xs, r)
	c26rank(in, v, r, "the n-th largest element has n-1 elements above it")
	for i := range in {
		vx.Assert(vx.Same(xs[i], in[i]), "the caller's data is left alone")
	}
	vx.Obs("v", v)
}

// Six elements: both sides of a partition recurse.
//vx: split maxpath=60000 timeout=300 tier=thorough
func VX_C26_nth6() {
	r := vx.Choose("r", 1, 6)
	xs := c26draw(6)
	in := append([]float64{}, xs...)
	c26rank(in, NthLargest(xs, r), r, "the n-th largest element has n-1 elements above it")
}

// Longer arrays with one arbitrary element.
//vx: split maxpath=60000 timeout=200 unwind=400
func VX_C26_long() {
	n := vx.Choose("n", 7, 10)
	r := vx.Choose("r", 1, 10)
	vx.Assume(r <= n)
	pat := vx.Choose("pat", 0, 3)
	xs := make([]float64, n)
	for i := range xs {
		switch pat {
		case 0:
			xs[i] = float64(i)
		case 1:
			xs[i] = float64(n - i)
		case 2:
			xs[i] = 3
		default:
			xs[i] = float64((i*i*7 + 3) % 5)
		}
	}
	pos := []int{0, n / 2, n - 1}[vx.Choose("pos", 0, 2)]
	xs[pos] = vx.F64("x", -2, 12)
	in := append([]float64{}, xs...)
	c26rank(in, NthLargest(xs, r), r, "the n-th largest element has n-1 elements above it")
}

// With a caller-supplied buffer only the buffer is changed.
//vx: split maxpath=20000 timeout=200
func VX_C26_buf() {
	n := vx.Choose("n", 1, 4)
	r := vx.Choose("r", 1, 4)
	vx.Assume(r <= n)
	xs := c26draw(n)
	in := append([]float64{}, xs...)
	buf := make([]float64, n)
	for i := range buf {
		buf[i] = vx.F64("dirty", -1000, 1000)
	}
	c26rank(in, NthLargest(xs, r, buf), r, "the n-th largest element has n-1 elements above it")
	m := Median(xs, buf)
	c26rank(in, m, (n+1)/2, "the median is the middle element (the upper one of two)")
	for i := range in {
		vx.Assert(vx.Same(xs[i], in[i]), "the caller's data is left alone")
	}
	bad := vx.Catch(func() { NthLargest(xs, r, make([]float64, n+1)) })
	vx.Assert(bad, "a buffer of the wrong length is refused")
}

// The median has equally many elements on either side.
//vx: split maxpath=20000 timeout=200
func VX_C26_median() {
	n := vx.Choose("n", 1, 5)
	xs := c26draw(n)
	in := append([]float64{}, xs...)
	m := Median(xs)
	c26rank(in, m, (n+1)/2, "the median is the middle element (the upper one of two)")
	for i := range in {
		vx.Assert(vx.Same(xs[i], in[i]), "the caller's data is left alone")
	}
	vx.Obs("m", m)
}

// Percentile p is the element with a fraction p of the data below it; 0 is the smallest, 1 the largest.
//vx: split maxpath=20000 timeout=200
func VX_C26_percentile() {
	n := vx.Choose("n", 1, 4)
	xs := c26draw(n)
	in := append([]float64{}, xs...)
	p := vx.F64("p", 0, 1)
	v := Percentile(xs, p)
	k := int(p * float64(n))
	if k >= n {
		k = n - 1
	}
	c26rank(in, v, n-k, "the percentile has the requested fraction of the data below it")
	for i := range in {
		vx.Assert(vx.Same(xs[i], in[i]), "the caller's data is left alone")
	}
}

// Queries that have no answer are refused.
func VX_C26_refuse() {
	vx.Assert(vx.Catch(func() { Median(nil) }), "the median of nothing is refused")
	vx.Assert(vx.Catch(func() { NthLargest(nil, 1) }), "the n-th largest of nothing is refused")
	vx.Assert(vx.Catch(func() { Percentile(nil, 0.5) }), "the percentile of nothing is refused")
	p := vx.F64("p", -10, 10)
	bad := vx.Catch(func() { Percentile([]float64{1, 2, 3}, p) })
	vx.Assert(vx.Implies(p < 0 || p > 1, bad), "a percentile outside [0, 1] is refused")
	vx.Assert(vx.Implies(p > 0 && p <= 1, !bad), "a percentile inside [0, 1] is not refused")
}
