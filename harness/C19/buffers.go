//vx:pkg render/density
package density

import (
	"strings"

	"github.com/phil-mansfield/gotetra/render/geom"
	vx "github.com/phil-mansfield/gotetra/zzvx"
)

var c19all = []Quantity{Density, DensityGradient, Velocity, VelocityDivergence, VelocityCurl}

func c19vel(q Quantity) bool { return q == Velocity || q == VelocityDivergence || q == VelocityCurl }

func c19grid(size int) *geom.GridLocation {
	// A whole box, and boxes that are as wide along one axis only.
	switch size {
	case 0:
		return geom.NewGridLocation([3]int{0, 0, 0}, [3]int{5, 5, 5}, 10, 5)
	case 1:
		return geom.NewGridLocation([3]int{2, 1, 3}, [3]int{5, 6, 5}, 9, 6)
	}
	return geom.NewGridLocation([3]int{0, 4, 7}, [3]int{6, 5, 5}, 4, 8)
}

// c19fill deposits values in a few cells of a buffer that are found in what it returns: the mean
// values of up to three numbers in every cell. Cells come in blocks; empty ones have a count of zero.
func c19fill(buf Buffer, q Quantity, at []int) (mean [3][]float32) {
	n := buf.Length()
	for k := range mean {
		mean[k] = make([]float32, n)
	}
	if !c19vel(q) {
		vals, ok := buf.ScalarBuffer()
		vx.Assert(ok && len(vals) == n, "densities are deposited in a scalar buffer")
		for _, i := range at {
			x := vx.F64("rho", -100, 100)
			vals[i] += x
			mean[0][i] = float32(x)
		}
		return mean
	}
	vecs, ok := buf.VectorBuffer()
	num, okn := buf.CountBuffer()
	vx.Assert(ok && okn && len(vecs) == n && len(num) == n, "velocities are deposited in a vector buffer with counts")
	for j, i := range at {
		c := 0
		if j%4 != 3 {
			c = 1 + j%4
		}
		for p := 0; p < c; p++ {
			num[i]++
		}
		for k := range mean {
			if c > 0 {
				x := vx.F64("v", -100, 100)
				vecs[i][k] += x
				mean[k][i] = float32(x / float64(c))
			}
		}
	}
	return mean
}

// c19check compares what a buffer is finalised to.
func c19check(buf Buffer, q Quantity, g *geom.GridLocation, mean [3][]float32, msg string) {
	n := buf.Length()
	opt := func() *geom.DerivOptions { return &geom.DerivOptions{Periodic: true, Op: geom.None, Order: 4} }
	d := func(k, axis int) []float32 {
		out := make([]float32, n)
		g.Deriv(mean[k], out, axis, opt())
		return out
	}
	s, oks := buf.FinalizedScalarBuffer()
	x, y, z, okv := buf.FinalizedVectorBuffer()
	if q == Density || q == VelocityDivergence {
		vx.Assert(oks && !okv && len(s) == n, "the quantity is a scalar")
	} else {
		vx.Assert(!oks && okv && len(x) == n && len(y) == n && len(z) == n, "the quantity is a vector")
	}
	var want [3][]float32
	switch q {
	case Density, Velocity:
		want = mean
	case DensityGradient:
		for k := range want {
			want[k] = d(0, k)
		}
	case VelocityDivergence:
		a, b, c := d(0, 0), d(1, 1), d(2, 2)
		want[0] = make([]float32, n)
		for i := range a {
			want[0][i] = a[i] + b[i] + c[i]
		}
	case VelocityCurl:
		for k := range want {
			a, b := d((k+2)%3, (k+1)%3), d((k+1)%3, (k+2)%3)
			want[k] = make([]float32, n)
			for i := range a {
				want[k][i] = a[i] - b[i]
			}
		}
	}
	got := [3][]float32{x, y, z}
	if oks {
		got, want = [3][]float32{s}, [3][]float32{want[0]}
	}
	for k := range got {
		for i := range got[k] {
			vx.Assert(vx.EqR32(got[k][i], want[k][i]), msg)
		}
	}
}

// What is deposited is finalised to the quantity; a buffer that is cleared can be used again.
//vx: mode=real split unwind=100000 timeout=120
func VX_C19_final() {
	q := c19all[vx.Choose("q", 0, 4)]
	g := c19grid(vx.Choose("grid", 0, 2))
	n := g.Volume
	buf := NewBuffer(q, n, 7, g)
	vx.Assert(buf.Length() == n && buf.Quantity() == q, "buffers have the length and the quantity they are made with")
	at := []int{0, 1, n / 2, n/2 + 1, n/2 + g.Length, n/2 + g.Area, n - 1}
	for i := 0; vx.Tier() == 1 && i < n; i++ {
		at = append(at[:i], i)
	}
	mean := c19fill(buf, q, at)
	c19check(buf, q, g, mean, "what is deposited is finalised to the quantity; empty cells count as zero")
	c19check(buf, q, g, mean, "finalising a buffer does not change it")
	buf.Clear()
	vx.Assert(buf.Length() == n, "clearing keeps the length")
	for k := range mean {
		for i := range mean[k] {
			mean[k][i] = 0
		}
	}
	c19check(buf, q, g, mean, "a cleared buffer is empty")
	mean = c19fill(buf, q, []int{n - 1, 3})
	c19check(buf, q, g, mean, "a cleared buffer can be used again")
}

// Means of every number of points.
//vx: mode=real timeout=120
func VX_C19_mean() {
	buf := NewBuffer(Velocity, 2, 3, c19grid(0))
	vecs, _ := buf.VectorBuffer()
	num, _ := buf.CountBuffer()
	for k := 0; k < 3; k++ {
		vecs[1][k] = vx.F64("v", -1000, 1000)
	}
	num[1] = vx.Int("n", 1, 1000)
	x, y, z, ok := buf.FinalizedVectorBuffer()
	vx.Assert(ok, "the quantity is a vector")
	for k, v := range [][]float32{x, y, z} {
		vx.Assert(vx.EqR32(v[1]*float32(num[1]), float32(vecs[1][k])), "the mean velocity is the sum over the number of points")
		vx.Assert(v[0] == 0, "empty cells count as zero")
	}
}

// Buffers are cut to the length needed and back.
//vx: mode=real timeout=120
func VX_C19_slice() {
	q := c19all[vx.Choose("q", 0, 4)]
	g := geom.NewGridLocation([3]int{0, 0, 0}, [3]int{5, 1, 1}, 10, 5)
	buf := NewBuffer(q, 8, 7, g)
	c19fill(buf, q, []int{0, 1, 2, 3, 4, 5, 6, 7})
	lo, hi := vx.Choose("lo", 0, 1), vx.Choose("hi", 3, 5)
	vals, _ := buf.ScalarBuffer()
	vecs, _ := buf.VectorBuffer()
	buf.Slice(lo, hi)
	vx.Assert(buf.Length() == hi-lo, "a cut buffer has the length asked for")
	if c19vel(q) {
		num, ok := buf.CountBuffer()
		cut, ok2 := buf.VectorBuffer()
		vx.Assert(ok && ok2 && len(num) == hi-lo && len(cut) == hi-lo, "a cut buffer has the length asked for")
		for i := range cut {
			for k := 0; k < 3; k++ {
				vx.Assert(vx.EqR(cut[i][k], vecs[lo+i][k]), "a cut buffer starts where asked for")
			}
			vx.Assert(num[i] == []int{1, 2, 3, 0}[(lo+i)%4], "a cut buffer starts where asked for")
		}
	} else {
		_, ok := buf.CountBuffer()
		cut, ok2 := buf.ScalarBuffer()
		vx.Assert(!ok && ok2 && len(cut) == hi-lo, "a cut buffer has the length asked for")
		for i := range cut {
			vx.Assert(vx.EqR(cut[i], vals[lo+i]), "a cut buffer starts where asked for")
		}
	}
	buf.Clear()
	if c19vel(q) {
		for i := range vecs {
			in := i >= lo && i < hi
			for k := 0; k < 3; k++ {
				vx.Assert(!in || vecs[i][k] == 0, "clearing a cut buffer clears all of it")
			}
		}
		num, _ := buf.CountBuffer()
		for i := range num {
			vx.Assert(num[i] == 0, "clearing a cut buffer clears all of it")
		}
	} else {
		for i := range vals {
			in := i >= lo && i < hi
			vx.Assert(!in || vals[i] == 0, "clearing a cut buffer clears all of it")
		}
	}
	buf.Slice(0, 7-lo)
	vx.Assert(buf.Length() == 7-lo, "a cut buffer can grow again")
	if c19vel(q) {
		num, _ := buf.CountBuffer()
		vecs, _ := buf.VectorBuffer()
		vx.Assert(len(num) == 7-lo && len(vecs) == 7-lo, "a cut buffer can grow again")
	} else {
		vals, _ := buf.ScalarBuffer()
		vx.Assert(len(vals) == 7-lo, "a cut buffer can grow again")
	}
}

// Vectors, and the grid, can be set later.
//vx: mode=real split unwind=100000 timeout=120
func VX_C19_set() {
	q := c19all[vx.Choose("q", 0, 4)]
	g := c19grid(0)
	h := geom.NewGridLocation([3]int{0, 0, 0}, [3]int{5, 5, 5}, 30, 6)
	buf := NewBuffer(q, g.Volume, 7, g)
	vs := []geom.Vec{{1, 2, 3}, {vx.F32("v", -8, 8), 5, 6}}
	ok := buf.SetVectors(vs)
	vx.Assert(ok == c19vel(q), "vectors can be set in velocity buffers")
	if ok {
		vecs, _ := buf.VectorBuffer()
		for i := range vs {
			for k := 0; k < 3; k++ {
				vx.Assert(vx.EqR(vecs[i][k], float64(vs[i][k])), "vectors are set in order")
			}
		}
	}
	buf.Clear()
	buf.SetGridLocation(h)
	mean := c19fill(buf, q, []int{0, 62, 63, 67, 124})
	c19check(buf, q, h, mean, "derivatives are those on the grid that is set")
	wrapped := []float64{vx.F64("w", -8, 8), 2}
	w := WrapperDensityBuffer(wrapped)
	s, ok := w.ScalarBuffer()
	vx.Assert(w.Length() == 2 && ok && vx.EqR(s[0], wrapped[0]) && w.Quantity() == Density, "a slice can be used as a density buffer")
	f, ok := w.FinalizedScalarBuffer()
	vx.Assert(ok && vx.EqR32(f[0], float32(wrapped[0])) && f[1] == 2, "a slice can be used as a density buffer")
}

// Names.
//vx: mode=real
func VX_C19_names() {
	q := c19all[vx.Choose("q", 0, 4)]
	s := q.String()
	switch vx.Choose("case", 0, 2) {
	case 1:
		s = strings.ToUpper(s)
	case 2:
		s = strings.ToLower(s)
	}
	got, ok := QuantityFromString(s)
	vx.Assert(ok && got == q, "names convert to quantities and back")
	names := map[Quantity]string{Density: "Density", DensityGradient: "DensityGradient", Velocity: "Velocity",
		VelocityDivergence: "VelocityDivergence", VelocityCurl: "VelocityCurl"}
	got, ok = QuantityFromString(names[q])
	vx.Assert(ok && got == q && q.String() == names[q], "quantities have their documented names")
	for _, bad := range []string{"", "dens", "densit", " density", "velocity curl", "curl", "0", "densitygradients"} {
		_, ok := QuantityFromString(bad)
		vx.Assert(!ok, "other names are refused")
	}
	vx.Assert(q.RequiresVelocity() == c19vel(q), "the quantities of velocity require velocities")
	vx.Assert(q.CanProject() == (q == Density || q == Velocity), "quantities without derivatives can be projected")
	vx.Assert(int(EndQuantity) == len(c19all), "the list of quantities is complete")
}
