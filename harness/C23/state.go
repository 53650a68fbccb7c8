//vx:pkg math/rand
package rand

import vx "github.com/phil-mansfield/gotetra/zzvx"

// Every non-degenerate xorshift state gives a number in [0, 1) and a non-degenerate state.
//vx: split
func VX_C23_xorstate() {
	g := &xorshiftGenerator{w: vx.U32("w"), x: vx.U32("x"), y: vx.U32("y"), z: vx.U32("z")}
	vx.Assume(g.w != 0 || g.x != 0 || g.y != 0 || g.z != 0)
	h := *g
	f := g.Next()
	vx.Assert(f >= 0 && f < 1, "a draw is at least zero and below one")
	vx.Assert(g.w != 0 || g.x != 0 || g.y != 0 || g.z != 0, "the generator does not enter the degenerate state")
	b := make([]float64, 1)
	h.NextSequence(b)
	vx.Assert(vx.EqR(b[0], f), "drawing in bulk gives the same stream")
	vx.Assert(g.w == h.w && g.x == h.x && g.y == h.y && g.z == h.z, "drawing in bulk leaves the same state")
}

func c23taus(n, l, f, s int) (*tauswortheGenerator, *tauswortheGenerator) {
	g := &tauswortheGenerator{seq: make([]float64, n), leader: l, firstFollower: f, secondFollower: s}
	for i := range g.seq {
		g.seq[i] = vx.F64("s", 0, 1)
		vx.Assume(g.seq[i] < 1)
	}
	h := &tauswortheGenerator{seq: append([]float64{}, g.seq...), leader: l, firstFollower: f, secondFollower: s}
	return g, h
}

// The lagged recurrence from every state: range, recurrence and bulk draws, around the ring.
func VX_C23_tausworthe() {
	n := 5
	l := vx.Choose("l", 0, n-1)
	d1, d2 := vx.Choose("lag1", 1, 2), vx.Choose("lag2", 3, 4)
	g, h := c23taus(n, l, (l+d1)%n, (l+d2)%n)
	steps := 3 + vx.Tier()*4
	bulk := make([]float64, steps)
	h.NextSequence(bulk)
	for i := 0; i < steps; i++ {
		x := g.Next()
		vx.Assert(x >= 0 && x < 1, "a draw is at least zero and below one")
		vx.Assert(vx.EqR(x, bulk[i]), "drawing in bulk gives the same stream")
	}
	vx.Assert(g.leader == h.leader && g.firstFollower == h.firstFollower && g.secondFollower == h.secondFollower,
		"drawing in bulk leaves the same state")
	for i := range g.seq {
		vx.Assert(vx.EqR(g.seq[i], h.seq[i]), "drawing in bulk leaves the same state")
		vx.Assert(g.seq[i] >= 0 && g.seq[i] < 1, "the state stays in the unit interval")
	}
}

// The same in floating point.
//vx: mode=fp solve=60
func VX_C23_tauswortheFP() {
	n := 3
	g, h := c23taus(n, 0, 1, 2)
	x := g.Next()
	vx.Assert(x >= 0 && x < 1, "a draw is at least zero and below one")
	b := make([]float64, 1)
	h.NextSequence(b)
	vx.Assert(b[0] >= 0 && b[0] < 1, "a bulk draw is at least zero and below one")
	vx.Assert(vx.Same(b[0], x), "drawing in bulk gives the same stream")
}
