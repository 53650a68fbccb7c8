//vx:pkg render
package render

import (
	"math"

	vx "github.com/phil-mansfield/gotetra/zzvx"
)

func c33scale(log bool) string {
	if log {
		return []string{"Log", "log"}[vx.Choose("case", 0, 1)]
	}
	return []string{"Linear", "linear"}[vx.Choose("case", 0, 1)]
}

// Every sample is counted in the bin around it.
//vx: mode=real timeout=200
func VX_C33_bins() {
	log := vx.Choose("log", 0, 1) == 1
	info := &HistInfo{Bins: vx.Choose("bins", 1, 3+2*vx.Tier()), Scale: c33scale(log)}
	info.Min, info.Max = vx.F64("min", 0.0009765625, 1000), vx.F64("max", 0.0009765625, 1000)
	x := []float64{vx.F64("x0", 0.0009765625, 2000), vx.F64("x1", 0.0009765625, 2000)}
	lo, hi := info.Min, info.Max
	y := append([]float64{}, x...)
	if log {
		lo, hi = math.Log10(lo), math.Log10(hi)
		for i := range y {
			y[i] = math.Log10(x[i])
		}
	}
	vx.Assume(vx.And(info.Min*(1+1.0/1024) < info.Max, lo < hi))
	ok := []bool{vx.Choose("ok0", 0, 1) == 1, vx.Choose("ok1", 0, 1) == 1}
	counts := make([]int, info.Bins)
	before := make([]int, info.Bins)
	for i := range counts {
		before[i] = vx.Int("before", 0, 1000000)
		counts[i] = before[i]
	}
	dx := (hi - lo) / float64(info.Bins)
	if !vx.IsReal() {
		for i := range y { // Rounding decides next to the limits.
			for b := 0; b <= info.Bins; b++ {
				d := y[i] - (lo + dx*float64(b))
				vx.Assume(d > 1e-9 || d < -1e-9)
			}
		}
	}
	histogram(x, ok, info, counts)
	for b := range counts {
		want := before[b]
		for i := range y {
			in := vx.And(lo+dx*float64(b) <= y[i], y[i] < lo+dx*float64(b+1))
			want += vx.IfI(vx.And(ok[i], in), 1, 0)
		}
		vx.Assert(counts[b] == want, "every sample is counted once, in the bin around it")
	}
	cs := histCenters(info)
	vx.Assert(len(cs) == info.Bins, "every bin has a centre")
	for b := range cs {
		c := lo + dx*(float64(b)+0.5)
		if log {
			c = math.Pow(10, c)
		}
		vx.Assert(vx.EqR(cs[b], c), "centres are halfway between the limits of the bins")
	}
}

// No value is counted out of range, whatever it is.
//vx: mode=fp timeout=300
func VX_C33_any() {
	info := &HistInfo{Bins: vx.Choose("bins", 1, 2+vx.Tier()), Scale: "linear", Min: -1, Max: []float64{1, 1e10, 2.7}[vx.Choose("max", 0, 1+vx.Tier())]}
	x := []float64{vx.F64Any("x")}
	counts := make([]int, info.Bins)
	histogram(x, []bool{true}, info, counts)
	n := 0
	for _, c := range counts {
		vx.Assert(c >= 0, "every sample is counted at most once")
		n += c
	}
	vx.Assert(n <= 1, "every sample is counted at most once")
	vx.Assert(vx.Implies(n == 1, vx.And(x[0] >= info.Min, x[0] < info.Max)), "values out of range are not counted")
	eps := (info.Max - info.Min) / (1 << 40)
	vx.Assert(vx.Implies(vx.And(x[0] >= info.Min, x[0] < info.Max-eps), n == 1), "values in range are counted")
}

// Numbers that have no logarithm are not counted.
//vx: mode=fp
func VX_C33_nolog() {
	info := &HistInfo{Bins: 4, Scale: "log", Min: 0.01, Max: 100}
	x := []float64{0, -1, math.Inf(1), math.Inf(-1), math.NaN(), 0.001, 1000, 1.5}
	ok := []bool{true, true, true, true, true, true, true, true}
	counts := make([]int, 4)
	histogram(x, ok, info, counts)
	vx.Assert(counts[0] == 0 && counts[1] == 0 && counts[2] == 1 && counts[3] == 0, "values out of range are not counted")
}

// c33off is how far b lies behind a in a periodic box.
func c33off(a, b, L float64) float64 { return vx.IfF(b >= a, b-a, b-a+L) }

// Intervals with a common point intersect.
//vx: mode=real timeout=100
func VX_C33_intersect() {
	L := vx.F64("L", 1, 1000)
	a, as := vx.F64("a", 0, 1000), vx.F64("as", 0, 1000)
	b, bs := vx.F64("b", 0, 1000), vx.F64("bs", 0, 1000)
	p := vx.F64("p", 0, 1000)
	vx.Assume(vx.And(vx.And(a < L, b < L), vx.And(p < L, vx.And(as <= L, bs <= L))))
	common := vx.And(c33off(a, p, L) <= as, c33off(b, p, L) <= bs)
	vx.Assert(vx.Implies(common, intersect1D(a, as, b, bs, L)), "intervals with a common point are found to intersect")
}

// Points are inside a region exactly if they are.
//vx: mode=real timeout=100
func VX_C33_contains() {
	L := 64.0
	box := &HistBox{}
	in := true
	var v [3]float32
	k := vx.Choose("axis", 0, 2)
	for j := range v {
		if j == k {
			box.Origin[j], box.Span[j], v[j] = vx.F64("org", 0, 64), vx.F64("span", 0, 64), vx.F32("x", 0, 128)
			vx.Assume(vx.And(box.Origin[j] < L, v[j] < 128))
		} else {
			box.Origin[j], box.Span[j] = 60, 8
			v[j] = []float32{61, 2, 30}[vx.Choose("at", 0, 2)]
		}
		x := float64(v[j])
		x = vx.IfF(x >= L, x-L, x)
		d := c33off(box.Origin[j], x, L)
		if !vx.IsReal() {
			vx.Assume(d > 1e-4 && d < L-1e-4 && (d < box.Span[j]-1e-4 || d > box.Span[j]+1e-4))
		}
		in = vx.And(in, d < box.Span[j])
	}
	vx.Assert(box.Contains(v, L) == in, "a region contains exactly the points in it")
}
