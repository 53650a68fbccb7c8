//vx:pkg render/geom
package geom

import vx "github.com/phil-mansfield/gotetra/zzvx"

func c18field(name string, n int) []float32 {
	f := make([]float32, n)
	for i := range f {
		f[i] = vx.F32(name, -10, 10)
	}
	return f
}

// c18setup: a grid, options (possibly none) and the same options spelled out.
func c18setup() (g *GridLocation, opt *DerivOptions, full DerivOptions, n int) {
	order := 2 * vx.Choose("half", 1, 2)
	w := [3]int{3, 3, 3}
	if order == 4 {
		w = [3]int{5, 5, 5}
	} else if vx.Choose("shape", 0, 1) == 1 {
		w = [3]int{3, 5, 4}
	}
	cells := w[0]
	g = NewGridLocation([3]int{0, 3, 0}, w, vx.F64("dx", 0.0625, 16)*float64(cells), cells)
	k := vx.Choose("opt", 0, 6)
	if k == 0 {
		vx.Assume(order == 4)
		return g, nil, *DerivOptionsDefault, g.Volume
	}
	full = DerivOptions{k > 3, []DerivOp{None, Add, Subtract}[(k-1)%3], order}
	o := full
	return g, &o, full, g.Volume
}

// c18d is one derivative by itself.
func c18d(g *GridLocation, f []float32, axis int, full DerivOptions) []float32 {
	out := make([]float32, len(f))
	full.Op = None
	g.Deriv(f, out, axis, &full)
	return out
}

func c18op(op DerivOp, prev, d float32) float32 {
	switch op {
	case Add:
		return prev + d
	case Subtract:
		return prev - d
	}
	return d
}

func c18kept(opt *DerivOptions, full, def DerivOptions) {
	if opt != nil {
		vx.Assert(*opt == full, "the options are left alone")
	}
	vx.Assert(*DerivOptionsDefault == def, "the defaults are left alone")
}

//vx: mode=real split timeout=300
func VX_C18_gradient() {
	g, opt, full, n := c18setup()
	def := *DerivOptionsDefault
	f := c18field("f", n)
	in := append([]float32{}, f...)
	var out, prev [3][]float32
	for a := range out {
		out[a] = c18field("out", n)
		prev[a] = append([]float32{}, out[a]...)
	}
	g.Gradient(f, out, opt)
	c18kept(opt, full, def)
	for a := range out {
		d := c18d(g, in, a, full)
		for i := range d {
			vx.Assert(vx.EqR32(out[a][i], c18op(full.Op, prev[a][i], d[i])), "components of the gradient")
			vx.Assert(vx.Same32(in[i], f[i]), "the field is left alone")
		}
	}
	vx.Obs("g", float64(out[0][0]))
}

//vx: mode=real split timeout=300
func VX_C18_divergence() {
	g, opt, full, n := c18setup()
	def := *DerivOptionsDefault
	f := [3][]float32{c18field("f", n), c18field("f", n), c18field("f", n)}
	var in [3][]float32
	for a := range in {
		in[a] = append([]float32{}, f[a]...)
	}
	out := c18field("out", n)
	prev := append([]float32{}, out...)
	g.Divergence(f, out, opt)
	c18kept(opt, full, def)
	dx, dy, dz := c18d(g, in[0], 0, full), c18d(g, in[1], 1, full), c18d(g, in[2], 2, full)
	for i := range out {
		vx.Assert(vx.EqR32(out[i], c18op(full.Op, prev[i], dx[i]+dy[i]+dz[i])), "the divergence")
		for a := range in {
			vx.Assert(vx.Same32(in[a][i], f[a][i]), "the field is left alone")
		}
	}
	vx.Obs("d", float64(out[0]))
}

//vx: mode=real split timeout=300
func VX_C18_curl() {
	g, opt, full, n := c18setup()
	def := *DerivOptionsDefault
	f := [3][]float32{c18field("f", n), c18field("f", n), c18field("f", n)}
	var in, out, prev [3][]float32
	for a := range in {
		in[a] = append([]float32{}, f[a]...)
		out[a] = c18field("out", n)
		prev[a] = append([]float32{}, out[a]...)
	}
	g.Curl(f, out, opt)
	c18kept(opt, full, def)
	for a := range out {
		b, c := (a+1)%3, (a+2)%3
		p, m := c18d(g, in[c], b, full), c18d(g, in[b], c, full)
		for i := range p {
			vx.Assert(vx.EqR32(out[a][i], c18op(full.Op, prev[a][i], p[i]-m[i])), "components of the curl")
			vx.Assert(vx.Same32(in[a][i], f[a][i]), "the field is left alone")
		}
	}
	vx.Obs("c", float64(out[0][0]))
}

// Any operator gives the same result after any other.
//vx: mode=real split timeout=300
func VX_C18_history() {
	g := NewGridLocation([3]int{}, [3]int{3, 3, 3}, 3, 3)
	if vx.Choose("default", 0, 1) == 1 {
		g = NewGridLocation([3]int{}, [3]int{5, 5, 5}, 5, 5)
	}
	n := g.Volume
	f := [3][]float32{c18field("f", n), c18field("f", n), c18field("f", n)}
	var opt *DerivOptions
	if n == 27 {
		opt = &DerivOptions{vx.Choose("per", 0, 1) == 1, []DerivOp{None, Add, Subtract}[vx.Choose("op", 0, 2)], 2}
	}
	run := func(which int, out [3][]float32) {
		switch which {
		case 0:
			g.Gradient(f[0], out, opt)
		case 1:
			g.Divergence(f, out[0], opt)
		case 2:
			g.Curl(f, out, opt)
		case 3:
			g.Deriv(f[1], out[0], 1, opt)
		}
	}
	fresh := func() (out [3][]float32) {
		for a := range out {
			out[a] = make([]float32, n)
		}
		return out
	}
	second := vx.Choose("second", 0, 3)
	alone := fresh()
	run(second, alone)
	run(vx.Choose("first", 0, 3), fresh())
	after := fresh()
	run(second, after)
	for a := range after {
		for i := range after[a] {
			vx.Assert(vx.EqR32(alone[a][i], after[a][i]), "results do not depend on earlier calls")
		}
	}
}
