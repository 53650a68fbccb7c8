//vx:pkg math/sort
package sort

import vx "github.com/phil-mansfield/gotetra/zzvx"

func c25draw(n int) []float64 {
	xs := make([]float64, n)
	for i := range xs {
		xs[i] = vx.F64("x", -1000, 1000)
	}
	return xs
}

func c25count(xs []float64, x float64) int {
	n := 0
	for _, y := range xs {
		n += vx.IfI(x == y, 1, 0)
	}
	return n
}

func c25check(in, out []float64) {
	vx.Assert(len(in) == len(out), "the sorted slice has the input's length")
	for i := 1; i < len(out); i++ {
		vx.Assert(out[i-1] <= out[i], "elements come out in increasing order")
	}
	for _, x := range in {
		vx.Assert(c25count(in, x) == c25count(out, x), "every element occurs as often as in the input")
	}
}

// Shell sort of every array of up to five (six) elements.
//vx: split maxpath=20000 timeout=150
func VX_C25_shell() {
	n := vx.Choose("n", 0, 5)
	xs := c25draw(n)
	in := append([]float64{}, xs...)
	out := Shell(xs)
	c25check(in, xs)
	c25check(in, out)
	vx.ObsI("n", len(out))
}

//vx: split maxpath=50000 timeout=250 tier=thorough
func VX_C25_shell6() {
	xs := c25draw(6)
	in := append([]float64{}, xs...)
	c25check(in, Shell(xs))
}

// Quicksort of every array of up to five elements.
//vx: split maxpath=20000 timeout=150
func VX_C25_quick() {
	n := vx.Choose("n", 0, 5)
	xs := c25draw(n)
	in := append([]float64{}, xs...)
	out := Quick(xs)
	c25check(in, xs)
	c25check(in, out)
}

func c25base(n, pat int) []float64 {
	xs := make([]float64, n)
	for i := range xs {
		switch pat {
		case 0:
			xs[i] = float64(i)
		case 1:
			xs[i] = float64(n - i)
		case 2:
			xs[i] = 7
		case 3:
			xs[i] = float64((i * 17) % n)
		case 4:
			xs[i] = float64((i * 5) % 3)
		default:
			xs[i] = float64((i*i*7 + 3) % 11)
		}
	}
	return xs
}

// Arrays long enough to be partitioned: some elements arbitrary, the others in fixed patterns.
//vx: split maxpath=60000 timeout=200 unwind=400
func VX_C25_long() {
	n := vx.Choose("n", 24, 26)
	pat := vx.Choose("pat", 0, 5)
	xs := c25base(n, pat)
	p := vx.Choose("pos", 0, 3)
	pos := []int{0, 1, n / 2, n - 1}[p]
	xs[pos] = vx.F64("x", -5, 40)
	in := append([]float64{}, xs...)
	out := Quick(xs)
	c25check(in, out)
}

// Two arbitrary elements among the sentinel positions of the partition.
//vx: split maxpath=60000 timeout=250 unwind=400
func VX_C25_long2() {
	n := 25 + vx.Tier()*14
	pat := vx.Choose("pat", 2, 4)
	xs := c25base(n, pat)
	p := vx.Choose("pos", 0, 2)
	pos := [][2]int{{0, n - 1}, {n / 2, 1}, {0, n / 2}}[p]
	for _, i := range pos {
		xs[i] = vx.F64("x", -1, 8)
	}
	in := append([]float64{}, xs...)
	out := Quick(xs)
	c25check(in, out)
}

// Shell sort of longer arrays with arbitrary elements among fixed ones.
//vx: split maxpath=60000 timeout=250 unwind=400
func VX_C25_shelllong() {
	n := vx.Choose("n", 13, 14)
	pat := vx.Choose("pat", 1, 4)
	xs := c25base(n, pat)
	p := vx.Choose("pos", 0, 3)
	pos := []int{0, 4, n / 2, n - 1}[p]
	xs[pos] = vx.F64("x", -5, 40)
	in := append([]float64{}, xs...)
	out := Shell(xs)
	c25check(in, out)
}

// Reversing.
func VX_C25_reverse() {
	n := vx.Choose("n", 0, 9)
	xs := c25draw(n)
	in := append([]float64{}, xs...)
	out := Reverse(xs)
	vx.Assert(len(out) == n, "reversing keeps the length")
	for i := range in {
		vx.Assert(vx.Same(out[n-1-i], in[i]), "reversing puts the elements in opposite order")
		vx.Assert(vx.Same(xs[n-1-i], in[i]), "reversing works in place")
	}
}
