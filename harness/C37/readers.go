//vx:pkg render/io
package io

import (
	"math"
	"os"

	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/geom"
	vx "github.com/phil-mansfield/gotetra/zzvx"
)

type c37words struct {
	w  []uint64
	n  int
	ok bool
}

func (c *c37words) next() uint64 {
	vx.Assert(c.n < len(c.w), "the reader returns everything that was written")
	c.n++
	return c.w[c.n-1]
}
func (c *c37words) u(x uint64)   { c.ok = vx.And(c.ok, c.next() == x) }
func (c *c37words) i(x int64)    { c.u(uint64(x)) }
func (c *c37words) d(x float64)  { c.u(math.Float64bits(x)) }
func (c *c37words) f(x float32)  { c.u(uint64(math.Float32bits(x))) }
func (c *c37words) say(m string) { vx.Assert(c.ok, m) }

func c37read(mode, module, file string) *c37words {
	w, ok := vx.Py(mode, module, file)
	vx.Assert(ok, "the file can be read")
	return &c37words{w, 0, true}
}

func c37cosmo() CosmoInfo {
	return CosmoInfo{vx.F64Any("z"), vx.F64Any("a"), vx.F64Any("om"), vx.F64Any("ol"), vx.F64Any("h"),
		vx.F64Any("rm"), vx.F64Any("rc"), vx.F64Any("bw")}
}

func c37loc(span [3]int) LocationInfo {
	l := LocationInfo{}
	for k := 0; k < 3; k++ {
		l.Origin[k], l.Span[k] = vx.F64Any("org"), vx.F64Any("spn")
		l.PixelOrigin[k] = vx.I64("porg")
		l.PixelSpan[k] = int64(span[k])
	}
	l.PixelWidth = vx.F64Any("pw")
	return l
}

// c37grid writes buf and checks what the Python reader makes of it.
func c37grid(buf density.Buffer, span [3]int, axis int) {
	cos, loc := c37cosmo(), c37loc(span)
	ren := RenderInfo{vx.I64("pts"), vx.I64("pixels"), vx.I64("skip"), vx.I64("depth"), int64(axis)}
	file := vx.Temp() + "/out.gtet"
	f, err := os.Create(file)
	vx.Assert(err == nil, "setup")
	WriteBuffer(buf, cos, ren, loc, f)
	vx.Assert(f.Close() == nil, "setup")
	hd, err := ReadGridHeader(file)
	vx.Assert(err == nil, "setup")

	r := c37read("grid", "python/gotetra.py", file)
	r.u(Version)
	r.i(-1) // little endian
	r.i(hd.Type.HeaderSize)
	r.i(int64(buf.Quantity()))
	vals, scalar := buf.FinalizedScalarBuffer()
	xs, ys, zs, vector := buf.FinalizedVectorBuffer()
	if vector {
		r.i(1)
	} else {
		r.i(0)
	}
	r.say("the format is recognised")
	for _, x := range []float64{cos.Redshift, cos.ScaleFactor, cos.OmegaM, cos.OmegaL, cos.Hubble, cos.RhoMean, cos.RhoCritical, cos.BoxWidth} {
		r.d(x)
	}
	r.say("the cosmology is read")
	for _, x := range []int64{ren.Particles, ren.TotalPixels, ren.SubsampleLength, ren.MinProjectionDepth, ren.ProjectionAxis} {
		r.i(x)
	}
	r.say("the render settings are read")
	for k := 0; k < 3; k++ {
		r.d(loc.Origin[k])
	}
	for k := 0; k < 3; k++ {
		r.d(loc.Span[k])
	}
	for k := 0; k < 3; k++ {
		r.i(loc.PixelOrigin[k])
	}
	for k := 0; k < 3; k++ {
		r.i(loc.PixelSpan[k])
	}
	r.d(loc.PixelWidth)
	for k := 0; k < 3; k++ {
		r.i(int64(span[k]))
	}
	r.d(loc.PixelWidth)
	r.i(int64(axis))
	r.say("the region is read")
	for _, q := range []density.Quantity{density.Density, density.DensityGradient, density.Velocity, density.VelocityDivergence, density.VelocityCurl} {
		r.i(int64(q))
	}
	r.say("quantities have the same numbers")

	// The last index is that of x.
	var shape []int
	if vector {
		shape = append(shape, 3)
		vals = append(append(append([]float32{}, xs...), ys...), zs...)
	}
	vx.Assert(scalar != vector, "setup")
	for k := 2; k >= 0; k-- {
		if k != axis {
			shape = append(shape, span[k])
		}
	}
	r.i(int64(len(shape)))
	for _, n := range shape {
		r.i(int64(n))
	}
	r.say("grids have the shape of the region")
	for _, v := range vals {
		r.f(v)
	}
	r.say("the samples are those of the file")
	vx.Assert(r.n == len(r.w), "the reader returns no more than was written")
}

func c37n(span [3]int, axis int) int {
	n := 1
	for k := range span {
		if k != axis {
			n *= span[k]
		}
	}
	return n
}

// gotetra.py reads scalar grids, full or projected, with any header.
//vx: mode=fp split unwind=4000 timeout=100
func VX_C37_scalar() {
	axis := vx.Choose("axis", -1, 2)
	span := [][3]int{{2, 3, 1}, {1, 2, 3}, {3, 1, 2}, {2, 2, 2}}[vx.Choose("span", 0, 3)]
	vals := make([]float64, c37n(span, axis))
	for i := range vals {
		vals[i] = float64(vx.F32("val", -1e30, 1e30))
	}
	g := geom.NewGridLocation([3]int{}, span, 1, 8)
	buf := density.NewBuffer(density.Density, len(vals), 1, g)
	rho, _ := buf.ScalarBuffer()
	copy(rho, vals)
	c37grid(buf, span, axis)
}

// gotetra.py reads vector grids, full or projected, with any header.
//vx: mode=fp split unwind=4000 timeout=100
func VX_C37_vector() {
	axis := vx.Choose("axis", -1, 2)
	span := [][3]int{{2, 3, 1}, {1, 2, 3}, {3, 1, 2}}[vx.Choose("span", 0, 2)]
	n := c37n(span, axis)
	g := geom.NewGridLocation([3]int{}, span, 1, 8)
	buf := density.NewBuffer(density.Velocity, n, 1, g)
	vecs, _ := buf.VectorBuffer()
	num, _ := buf.CountBuffer()
	for i := range vecs {
		for k := 0; k < 3; k++ {
			vecs[i][k] = float64(vx.F32("vel", -1e30, 1e30))
		}
		num[i] = 1
	}
	c37grid(buf, span, axis)
}

// gotetra.py reads the grids of quantities which are computed from derivatives.
//vx: mode=fp split unwind=4000 timeout=100
func VX_C37_derivatives() {
	span := [3]int{5, 5, 6}
	q := []density.Quantity{density.DensityGradient, density.VelocityDivergence, density.VelocityCurl}[vx.Choose("q", 0, 2)]
	g := geom.NewGridLocation([3]int{}, span, 1, 8)
	c37grid(density.NewBuffer(q, c37n(span, -1), 1, g), span, -1)
}

func c37vec(name string) geom.Vec {
	return geom.Vec{vx.F32Any(name), vx.F32Any(name), vx.F32Any(name)}
}

// gtet.py reads particle sheets with any header and any particles.
//vx: mode=fp split unwind=4000 timeout=100
func VX_C37_sheet() {
	gw := vx.Choose("width", 1, 2+vx.Tier())
	h := &SheetHeader{}
	h.Cosmo = CosmologyHeader{vx.F64Any("z"), vx.F64Any("om"), vx.F64Any("ol"), vx.F64Any("h")}
	h.Count, h.CountWidth = vx.I64("count"), vx.I64("countWidth")
	h.SegmentWidth, h.GridWidth, h.GridCount = int64(gw-1), int64(gw), int64(gw*gw*gw)
	h.Idx, h.Cells = vx.I64("idx"), vx.I64("cells")
	h.Mass, h.TotalWidth = vx.F64Any("mass"), vx.F64Any("width")
	h.Origin, h.Width = c37vec("origin"), c37vec("span")
	h.VelocityOrigin, h.VelocityWidth = c37vec("vorigin"), c37vec("vspan")
	xs, vs := make([]geom.Vec, gw*gw*gw), make([]geom.Vec, gw*gw*gw)
	for i := range xs {
		xs[i], vs[i] = c37vec("x"), c37vec("v")
	}
	file := vx.Temp() + "/sheet000.dat"
	WriteSheet(file, h, xs, vs)

	r := c37read("sheet", "python/gtet.py", file)
	for _, x := range []float64{h.Cosmo.Z, h.Cosmo.OmegaM, h.Cosmo.H100, h.TotalWidth} {
		r.d(x)
	}
	r.say("the cosmology is read")
	for _, x := range []int64{h.Count, h.CountWidth, h.SegmentWidth, h.GridWidth, h.Idx, h.Cells} {
		r.i(x)
	}
	r.say("the widths are read")
	for _, v := range []geom.Vec{h.Origin, h.Width, h.VelocityOrigin, h.VelocityWidth} {
		for k := 0; k < 3; k++ {
			r.f(v[k])
		}
	}
	r.say("the bounds are read")
	for _, n := range []int{gw, gw - 1} {
		for _, g := range [][]geom.Vec{xs, vs} {
			r.i(4)
			r.i(int64(n))
			r.i(int64(n))
			r.i(int64(n))
			r.i(3)
			r.say("grids have the shape of the sheet")
			for z := 0; z < n; z++ {
				for y := 0; y < n; y++ {
					for x := 0; x < n; x++ {
						for k := 0; k < 3; k++ {
							r.f(g[(z*gw+y)*gw+x][k])
						}
					}
				}
			}
		}
	}
	r.say("particles are those of the sheet")
	vx.Assert(r.n == len(r.w), "the reader returns no more than was written")
}
