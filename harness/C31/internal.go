//vx:pkg math/interpolate
package interpolate

import vx "github.com/phil-mansfield/gotetra/zzvx"

// Any weights at all.
//vx: mode=real split timeout=200
func VX_C31_anykernel() {
	w := []int{1, 3, 5}[vx.Choose("w", 0, 2)]
	n := w + vx.Choose("extra", 0, 3)
	b := c31rules[vx.Choose("rule", 0, 3)]
	cs, xs := c31vals("c", w), c31vals("x", n)
	k := &Kernel{cs: cs, center: w / 2}
	got := k.Convolve(xs, b)
	for i := 0; i < n; i++ {
		want := 0.0
		for j, c := range cs {
			want += c * c31at(xs, b, i+j-w/2)
		}
		vx.Assert(vx.EqR(got[i], want), "convolution is the weighted sum over the continued data")
	}
}
