//vx:pkg render/io
package io

import (
	"encoding/binary"
	"io/ioutil"
	"math"
	"os"

	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/geom"
	vx "github.com/phil-mansfield/gotetra/zzvx"
)

func c03loc(name string, span [3]int) LocationInfo {
	l := LocationInfo{}
	for k := 0; k < 3; k++ {
		l.Origin[k], l.Span[k] = vx.F64Any(name+"o"), vx.F64Any(name+"s")
		l.PixelOrigin[k] = vx.I64(name + "po")
		l.PixelSpan[k] = int64(span[k])
	}
	l.PixelWidth = vx.F64Any(name + "w")
	return l
}

func c03cosmo() CosmoInfo {
	return CosmoInfo{vx.F64Any("z"), vx.F64Any("a"), vx.F64Any("om"), vx.F64Any("ol"), vx.F64Any("h"),
		vx.F64Any("rm"), vx.F64Any("rc"), vx.F64Any("bw")}
}

func c03sameLoc(a, b LocationInfo) bool {
	ok := vx.Same(a.PixelWidth, b.PixelWidth)
	for k := 0; k < 3; k++ {
		ok = vx.And(ok, vx.And(vx.Same(a.Origin[k], b.Origin[k]), vx.Same(a.Span[k], b.Span[k])))
		ok = vx.And(ok, vx.And(a.PixelOrigin[k] == b.PixelOrigin[k], a.PixelSpan[k] == b.PixelSpan[k]))
	}
	return ok
}

func c03sameCosmo(a, b CosmoInfo) bool {
	x := []float64{a.Redshift, a.ScaleFactor, a.OmegaM, a.OmegaL, a.Hubble, a.RhoMean, a.RhoCritical, a.BoxWidth}
	y := []float64{b.Redshift, b.ScaleFactor, b.OmegaM, b.OmegaL, b.Hubble, b.RhoMean, b.RhoCritical, b.BoxWidth}
	ok := true
	for i := range x {
		ok = vx.And(ok, vx.Same(x[i], y[i]))
	}
	return ok
}

func c03samples(span [3]int, axis int) int {
	n := 1
	for k := 0; k < 3; k++ {
		if k != axis {
			n *= span[k]
		}
	}
	return n
}

// c03check writes buf, reads the file back and compares everything with what was written.
func c03check(buf density.Buffer, span [3]int, axis int) {
	cosmo, loc := c03cosmo(), c03loc("loc", span)
	render := RenderInfo{vx.I64("pts"), vx.I64("pixels"), vx.I64("skip"), vx.I64("depth"), int64(axis)}
	file := vx.Temp() + "/out.gtet"
	f, err := os.Create(file)
	vx.Assert(err == nil, "setup")
	WriteBuffer(buf, cosmo, render, loc, f)
	vx.Assert(f.Close() == nil, "setup")

	vals, scalar := buf.FinalizedScalarBuffer()
	xs, ys, zs, vector := buf.FinalizedVectorBuffer()
	vx.Assert(scalar != vector, "setup")
	if vector {
		vals = append(append(append([]float32{}, xs...), ys...), zs...)
	}

	hd, err := ReadGridHeader(file)
	vx.Assert(err == nil, "the header is read")
	vx.Assert(hd.EndiannessVersion == EndiannessVersionFlag(binary.LittleEndian), "the byte order and version")
	vx.Assert(hd.Type.GridType == int64(buf.Quantity()), "the quantity comes back unchanged")
	vx.Assert((hd.Type.IsVectorGrid == 1) == vector, "vector grids are announced as such")
	vx.Assert((hd.Type.IsVectorGrid == 0) == scalar, "scalar grids are announced as such")
	vx.Assert(c03sameCosmo(hd.Cosmo, cosmo), "the cosmology comes back unchanged")
	vx.Assert(hd.Render == render, "the render settings come back unchanged")
	vx.Assert(c03sameLoc(hd.Loc, loc), "the region comes back unchanged")

	// The file holds exactly the announced data.
	b, err := ioutil.ReadFile(file)
	n := c03samples(span, axis)
	comps := 1
	if vector {
		comps = 3
	}
	vx.Assert(err == nil && len(b) == binary.Size(hd)+4*n*comps, "the file holds what the header announces")
	vx.Assert(int(hd.Type.HeaderSize) == binary.Size(hd), "the size of the header is announced")
	ok := true
	for i, v := range vals {
		ok = vx.And(ok, binary.LittleEndian.Uint32(b[binary.Size(hd)+4*i:]) == math.Float32bits(v))
	}
	vx.Assert(ok, "samples are stored in order, component by component")

	got, err := ReadGrid(file)
	if vector {
		vx.Assert(err != nil, "vector grids are not read as scalar grids")
		return
	}
	vx.Assert(err == nil, "the samples are read")
	vx.Assert(len(got) == n, "every sample is read")
	ok = true
	for i := range got {
		ok = vx.And(ok, vx.Same(got[i], float64(vals[i])))
	}
	vx.Assert(ok, "the samples come back unchanged")
}

func c03span(hi int) (span [3]int) {
	for k := range span {
		span[k] = vx.Choose("span", 1, hi)
	}
	return span
}

// Densities in any region, full or projected.
//vx: mode=fp split unwind=4000 timeout=300
func VX_C03_density() {
	span, axis := c03span(2+vx.Tier()), vx.Choose("axis", -1, 2)
	vals := make([]float64, c03samples(span, axis))
	for i := range vals {
		vals[i] = vx.F64Any("val")
	}
	g := geom.NewGridLocation([3]int{}, span, 1, 8)
	buf := density.NewBuffer(density.Density, len(vals), 1, g)
	rho, _ := buf.ScalarBuffer()
	copy(rho, vals)
	c03check(buf, span, axis)
}

// Velocities in any region, full or projected.
//vx: mode=fp split unwind=4000 timeout=300
func VX_C03_velocity() {
	span, axis := c03span(2), vx.Choose("axis", -1, 2)
	n := c03samples(span, axis)
	g := geom.NewGridLocation([3]int{}, span, 1, 8)
	buf := density.NewBuffer(density.Velocity, n, 1, g)
	vecs, _ := buf.VectorBuffer()
	num, _ := buf.CountBuffer()
	for i := range vecs {
		for k := 0; k < 3; k++ {
			vecs[i][k] = vx.F64Any("vel")
		}
		num[i] = i % 3
	}
	c03check(buf, span, axis)
}

// The quantities which are computed from derivatives.
//vx: mode=fp split unwind=4000 timeout=300
func VX_C03_derivatives() {
	span := [3]int{5, 5, 5 + vx.Choose("z", 0, 1)}
	q := []density.Quantity{density.DensityGradient, density.VelocityDivergence, density.VelocityCurl}[vx.Choose("q", 0, 2)]
	g := geom.NewGridLocation([3]int{}, span, 1, 8)
	buf := density.NewBuffer(q, c03samples(span, -1), 1, g)
	at := vx.Choose("at", 0, 4) * 31
	if rho, ok := buf.ScalarBuffer(); ok {
		rho[at] = vx.F64("val", -1000, 1000)
	}
	if vecs, ok := buf.VectorBuffer(); ok {
		num, _ := buf.CountBuffer()
		vecs[at] = [3]float64{vx.F64("vel", -1000, 1000), vx.F64("vel", -1000, 1000), vx.F64("vel", -1000, 1000)}
		num[at] = 2
	}
	c03check(buf, span, -1)
}

// Files cut short at any byte, and missing files, are errors.
//vx: mode=fp split unwind=4000 timeout=300
func VX_C03_truncated() {
	span, axis := [3]int{2, 1, 2}, vx.Choose("axis", -1, 2)
	g := geom.NewGridLocation([3]int{}, span, 1, 8)
	buf := density.NewBuffer(density.Density, c03samples(span, axis), 1, g)
	file := vx.Temp() + "/out.gtet"
	f, err := os.Create(file)
	vx.Assert(err == nil, "setup")
	render := RenderInfo{ProjectionAxis: int64(axis)}
	WriteBuffer(buf, CosmoInfo{}, render, c03loc("loc", span), f)
	vx.Assert(f.Close() == nil, "setup")
	b, err := ioutil.ReadFile(file)
	vx.Assert(err == nil, "setup")
	cut := vx.Choose("cut", 0, binary.Size(GridHeader{})+16)
	vx.Assume(cut < len(b))
	vx.Assert(ioutil.WriteFile(file, b[:cut], 0666) == nil, "setup")
	_, err = ReadGrid(file)
	vx.Assert(err != nil, "truncated grids are errors")
	_, err = ReadGridHeader(file)
	vx.Assert((err != nil) == (cut < binary.Size(GridHeader{})), "truncated headers are errors")
	_, err = ReadGrid(vx.Temp() + "/none.gtet")
	_, err2 := ReadGridHeader(vx.Temp() + "/none.gtet")
	vx.Assert(err != nil && err2 != nil, "missing files are errors")
}

// The first field of a grid file tells its byte order and the version of the format.
//vx: mode=fp
func VX_C03_flag() {
	le, be := EndiannessVersionFlag(binary.LittleEndian), EndiannessVersionFlag(binary.BigEndian)
	vx.Assert(le != be && be == ^le, "byte orders are told apart, either way the flag is read")
}

// Grids which are larger than any buffer between them and the file, of every shape and quantity.
//vx: mode=fp split unwind=4000000 timeout=300 cpu=600
func VX_C03_large() {
	axis := vx.Choose("axis", -1, 2)
	span := [3]int{26, 27, 25}
	if axis >= 0 {
		span = [3]int{131, 132, 130}
		span[axis] = 3
	}
	n := c03samples(span, axis)
	q := density.Density
	if vx.Choose("vector", 0, 1) == 1 {
		q = density.Velocity
		vx.Assume(axis <= 0)
	}
	buf := density.NewBuffer(q, n, 1, geom.NewGridLocation([3]int{}, span, 1, 1024))
	if rho, ok := buf.ScalarBuffer(); ok {
		for i := range rho {
			rho[i] = float64(i) + 0.5
		}
		rho[n/2], rho[n-1] = vx.F64Any("val"), vx.F64Any("val")
	} else {
		vecs, _ := buf.VectorBuffer()
		num, _ := buf.CountBuffer()
		for i := range vecs {
			f := float64(i)
			vecs[i], num[i] = [3]float64{f, -2 * f, f + 7}, 1
		}
		vecs[n-1] = [3]float64{vx.F64Any("vel"), vx.F64Any("vel"), vx.F64Any("vel")}
	}
	c03check(buf, span, axis)
}
