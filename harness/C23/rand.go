//vx:pkg math/rand
package rand

import vx "github.com/phil-mansfield/gotetra/zzvx"

// Xorshift streams from every seed.
//vx: split
func VX_C23_xorshift() {
	seed := vx.U64("seed")
	g, h := New(Xorshift, seed), New(Xorshift, seed)
	n := 3 + vx.Tier()
	bulk := make([]float64, n)
	h.UniformAt(0, 1, bulk)
	for i := 0; i < n; i++ {
		f := g.Uniform(0, 1)
		vx.Assert(f >= 0 && f < 1, "a draw is at least zero and below one")
		vx.Assert(vx.EqR(f, bulk[i]), "drawing in bulk gives the same stream")
	}
}

// Golang streams.
func VX_C23_golang() {
	seed := vx.U64("seed")
	g, h := New(Golang, seed), New(Golang, seed)
	n := 4
	bulk := make([]float64, n)
	h.UniformAt(0, 1, bulk)
	for i := 0; i < n; i++ {
		f := g.Uniform(0, 1)
		vx.Assert(f >= 0 && f < 1, "a draw is at least zero and below one")
		vx.Assert(vx.Same(f, bulk[i]), "drawing in bulk gives the same stream")
		vx.Obs("f", f)
	}
}

// Ranged draws over the real numbers, from a generator in any state.
func VX_C23_ranged() {
	seed := vx.U64("seed")
	g, h := New(Golang, seed), New(Golang, seed)
	lo, w := vx.F64("lo", -100, 100), vx.F64("w", 0.001, 100)
	hi := lo + w
	n := 3
	bulk := make([]float64, n)
	h.UniformAt(lo, hi, bulk)
	for i := 0; i < n; i++ {
		f := g.Uniform(lo, hi)
		vx.Assert(vx.LeR(lo, f) && f <= hi, "a ranged draw is inside its range")
		vx.Assert(vx.EqR(f, bulk[i]), "drawing in bulk gives the same stream")
	}
	vx.Obs("b", bulk[2])
}

// Integer draws over the real numbers: every range, every value reachable.
func VX_C23_int() {
	g := New(Golang, 1)
	lo := vx.Int("lo", -1000, 1000)
	hi := vx.Int("hi", -1000, 1010)
	vx.Assume(hi > lo)
	k := g.UniformInt(lo, hi)
	vx.Assert(lo <= k && k < hi, "an integer draw is inside its half-open range")
	if k == lo {
		vx.Reach("lowest")
	}
	if k == hi-1 && hi > lo+2 {
		vx.Reach("highest")
	}
}

// Integer draws in floating point.
//vx: mode=fp solve=60
func VX_C23_intfp() {
	g := New(Golang, 1)
	r := [][2]int{{0, 1}, {0, 3}, {1, 2}, {-3, 4}, {5, 7}, {1 << 20, 1<<20 + 9}, {-1, 0}, {0, 1 << 30}}[vx.Choose("range", 0, 7)]
	k := g.UniformInt(r[0], r[1])
	vx.Assert(r[0] <= k && k < r[1], "an integer draw is inside its half-open range")
}

// Unknown generators are refused.
func VX_C23_types() {
	t := vx.Choose("t", 0, 6)
	bad := vx.Catch(func() { New(GeneratorType(100+t), 1) })
	vx.Assert(bad, "an unknown generator type is refused")
	vx.Assert(Default == Tausworthe || Default == Xorshift || Default == Golang, "the default generator exists")
}

// Seeds and digits used to start the Tausworthe generator give values below one.
//vx: unwind=200000 timeout=200 noprune timeout=60
func VX_C23_tauswortheinit() {
	g := New(Tausworthe, 5)
	f := g.Uniform(0, 1)
	vx.Assert(f >= 0 && f < 1, "a draw is at least zero and below one")
	b := make([]float64, 2)
	g.UniformAt(0, 1, b)
	vx.Assert(b[0] >= 0 && b[0] < 1 && b[1] >= 0 && b[1] < 1, "a draw is at least zero and below one")
}
