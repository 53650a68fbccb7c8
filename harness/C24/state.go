//vx:pkg math/rand
package rand

import vx "github.com/phil-mansfield/gotetra/zzvx"

// c24dirs builds the direction numbers of every dimension from the primitive polynomials and
// starting values of Press et al.
func c24dirs() [6][30]uint32 {
	deg := [6]uint32{1, 2, 3, 3, 4, 4}
	poly := [6]uint32{0, 1, 1, 2, 1, 4}
	start := [6][]uint32{{1}, {1, 1}, {1, 3, 7}, {1, 3, 3}, {1, 1, 3, 13}, {1, 1, 5, 9}}
	var v [6][30]uint32
	for k := 0; k < 6; k++ {
		d := deg[k]
		m := make([]uint64, 30)
		for j := uint32(0); j < 30; j++ {
			if j < d {
				m[j] = uint64(start[k][j])
			} else {
				x := m[j-d] ^ m[j-d]<<d
				for l := uint32(1); l < d; l++ {
					if poly[k]>>(d-1-l)&1 == 1 {
						x ^= m[j-l] << l
					}
				}
				m[j] = x
			}
			v[k][j] = uint32(m[j] << (29 - j))
		}
	}
	return v
}

// c24at is the n-th point of dimension k by the definition: the exclusive or of the direction
// numbers selected by the Gray code of n.
func c24at(v [6][30]uint32, n uint32, k int) uint32 {
	g := n ^ n>>1
	x := uint32(0)
	for j := uint32(0); j < MaxBit; j++ {
		x ^= v[k][j] & -(g >> j & 1)
	}
	return x
}

// One step from any position of the sequence follows the definition.
//vx: unwind=200
func VX_C24_step() {
	seq, dirs := NewSobolSequence(), c24dirs()
	n := vx.U32("n")
	// t is the position of the lowest zero bit of n
	t := uint(vx.Choose("t", 0, int(MaxBit)-1))
	vx.Assume(n < 1<<MaxBit && n&(1<<(t+1)-1) == 1<<t-1)
	dim := 1 + (int(MaxDim)-1)*vx.Choose("dim", 0, 1)
	seq.seqNum = n
	for k := 0; k < dim; k++ {
		seq.ix[k] = c24at(dirs, n, k)
	}
	seq.NextAt(make([]float64, dim))
	vx.Assert(seq.seqNum == n+1, "a step advances the sequence by one")
	for k := 0; k < dim; k++ {
		vx.Assert(seq.ix[k] == c24at(dirs, n+1, k), "a step gives the next point of the sequence")
	}
}

// Two different points of an aligned block of 2^b points never share a dyadic interval of length 2^-b.
//vx: unwind=200 solve=60
func VX_C24_distinct() {
	dirs := c24dirs()
	k := vx.Choose("dim", 0, int(MaxDim)-1)
	b := uint32(vx.Choose("bits", 1, 10+vx.Tier()*8))
	p, q := vx.U32("p"), vx.U32("q")
	vx.Assume(p < 1<<MaxBit && q < 1<<MaxBit && p != q && p>>b == q>>b)
	x, y := c24at(dirs, p, k), c24at(dirs, q, k)
	vx.Assert(x < 1<<MaxBit && y < 1<<MaxBit, "points lie in the unit cube")
	vx.Assert(x>>(MaxBit-b) != y>>(MaxBit-b), "every dyadic interval holds exactly one point of an aligned block")
}
