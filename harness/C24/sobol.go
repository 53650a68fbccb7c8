//vx:pkg math/rand
package rand

import vx "github.com/phil-mansfield/gotetra/zzvx"

// c24points returns the points n = 1 .. 2^k-1+block of a fresh sequence; point 0 is the origin.
func c24points(k uint, dim int) [][]float64 {
	seq := NewSobolSequence()
	out := [][]float64{make([]float64, dim)}
	for i := 1; i < 1<<k; i++ {
		out = append(out, seq.Next(dim))
	}
	return out
}

// Any dyadic interval of any dimension holds exactly its share of an aligned block of points.
//vx: unwind=5000
func VX_C24_blocks() {
	k := uint(6 + vx.Tier()*2)
	pts := c24points(k, int(MaxDim))
	d := vx.Choose("dim", 0, int(MaxDim)-1)
	b := uint(vx.Choose("bits", 1, 6))
	if b > k {
		return
	}
	// an arbitrary dyadic interval of length 2^-b
	cell := vx.Int("cell", 0, 63)
	vx.Assume(cell < 1<<b)
	lo := float64(cell) / float64(int(1)<<b)
	hi := lo + 1/float64(int(1)<<b)
	size := 1 << b
	for blk := 0; blk < len(pts)/size; blk++ {
		n := 0
		for i := 0; i < size; i++ {
			x := pts[blk*size+i][d]
			vx.Assert(x >= 0 && x < 1, "points lie in the unit cube")
			n += vx.IfI(vx.And(lo <= x, x < hi), 1, 0)
		}
		vx.Assert(n == 1, "every dyadic interval holds exactly one point of an aligned block")
	}
}

// Drawing fewer or more dimensions, in place or not, and restarting give the same sequence.
//vx: unwind=5000
func VX_C24_restart() {
	n := vx.Choose("n", 0, 9)
	dim := vx.Choose("dim", 1, int(MaxDim))
	a := NewSobolSequence()
	for i := 0; i < n; i++ {
		a.Next(dim)
	}
	a.Init()
	b := NewSobolSequence()
	full := NewSobolSequence()
	buf := make([]float64, dim)
	for i := 0; i < 8; i++ {
		x := a.Next(dim)
		b.NextAt(buf)
		f := full.Next(int(MaxDim))
		vx.Assert(len(x) == dim, "a point has the requested number of dimensions")
		for d := 0; d < dim; d++ {
			vx.Assert(vx.Same(x[d], buf[d]), "the sequence restarts identically after Init")
			vx.Assert(vx.Same(x[d], f[d]), "a coordinate does not depend on how many are drawn")
		}
	}
	vx.Assert(vx.Catch(func() { NewSobolSequence().Next(int(MaxDim) + 1) }), "too many dimensions are refused")
}

// The first points of every dimension are those of the standard sequence.
//vx: unwind=5000
func VX_C24_standard() {
	dirs := c24dirs()
	seq := NewSobolSequence()
	k := vx.Int("dim", 0, int(MaxDim)-1)
	for n := uint32(1); n < 64; n++ {
		x := seq.Next(int(MaxDim))
		want := make([]float64, MaxDim)
		for d := range want {
			want[d] = float64(c24at(dirs, n, d)) / (1 << 30)
		}
		vx.Assert(vx.EqR(x[k], want[k]), "the points are those of the standard Sobol sequence")
	}
}
