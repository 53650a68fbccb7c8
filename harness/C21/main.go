//vx:pkg render/main
package main

import (
	"flag"
	"fmt"
	"io/ioutil"
	"os"
	"unsafe"

	"github.com/phil-mansfield/gotetra/cosmo"
	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
	vx "github.com/phil-mansfield/gotetra/zzvx"
)

// c21main runs the program with the given command line.
func c21main(args ...string) {
	os.Args = append([]string{"gotetra", "-Threads", "2"}, args...)
	flag.CommandLine = flag.NewFlagSet("gotetra", flag.PanicOnError)
	main()
}

// c21sheet is a segment of 2x2x2 cubes, of a simulation of 8x8x8 cubes that is 16 wide, at [2.25, 6.25).
func c21sheet(dir string) *io.SheetHeader {
	hd := &io.SheetHeader{}
	hd.Cosmo = io.CosmologyHeader{Z: vx.F64("z", 0, 10), OmegaM: vx.F64("om", 0, 1), OmegaL: vx.F64("ol", 0, 1), H100: vx.F64("h", 0.25, 2)}
	hd.CountWidth, hd.Count, hd.Cells = 8, 512, 4
	hd.SegmentWidth, hd.GridWidth, hd.GridCount = 2, 3, 27
	hd.TotalWidth, hd.Mass = 16, 4
	hd.Origin, hd.Width = geom.Vec{2.25, 2.25, 2.25}, geom.Vec{4, 4, 4}
	hd.VelocityOrigin, hd.VelocityWidth = geom.Vec{0, 0, 0}, geom.Vec{27, 27, 27}
	xs, vs := make([]geom.Vec, 27), make([]geom.Vec, 27)
	for i := range xs {
		for k, at := range []int{i % 3, i / 3 % 3, i / 9} {
			xs[i][k] = 2.25 + 2*float32(at)
			vs[i][k] = float32(i)
		}
	}
	vx.Assert(os.MkdirAll(dir, 0777) == nil, "setup")
	io.WriteSheet(dir+"/sheet000.dat", hd, xs, vs)
	return hd
}

type c21region struct {
	text         string
	org, span    [3]int // in pixels of width 1, 2 or 4
	axis         string
	longest      float64
	all          bool // holds all of the segment
}

func c21axis(axis string) string {
	if axis == "" {
		return ""
	}
	return "ProjectionAxis = " + axis + "\n"
}

func c21box(name string, lo, w [3]int, axis string) string {
	return fmt.Sprintf("[Box \"%s\"]\nX = %d\nY = %d\nZ = %d\nXWidth = %d.5\nYWidth = %d.5\nZWidth = %d.5\n%s\n", name, lo[0], lo[1], lo[2], w[0]-1, w[1]-1, w[2]-1, c21axis(axis))
}

func c21near(a, b float64) bool { return vx.And(vx.LeR(b*(1-1e-5), a), vx.LeR(a, b*(1+1e-5))) }

// c21read checks the file of a region, and gives the sum of the samples.
func c21read(file string, hd *io.SheetHeader, quantity int64, lo, w [3]int, pw float64, axis int64, cells, pts, skip int64) float64 {
	g, err := io.ReadGridHeader(file)
	vx.Assert(err == nil, "every region has its own file")
	vx.Assert(g.EndiannessVersion == io.EndiannessVersionFlag(gadgetEndianness), "the header tells the version")
	vx.Assert(g.Type.HeaderSize == int64(unsafe.Sizeof(*g)) && g.Type.GridType == quantity, "the header tells the quantity")
	vector := quantity == 1 || quantity == 2 || quantity == 4
	vx.Assert((g.Type.IsVectorGrid == 1) == vector && (g.Type.IsVectorGrid == 0) == !vector, "the header tells vectors from scalars")
	c, h0 := hd.Cosmo, hd.Cosmo.H100*100
	vx.Assert(vx.And(vx.EqR(g.Cosmo.Redshift, c.Z), vx.And(vx.EqR(g.Cosmo.OmegaM, c.OmegaM), vx.And(vx.EqR(g.Cosmo.OmegaL, c.OmegaL), vx.EqR(g.Cosmo.Hubble, h0)))), "the header tells the cosmology of the simulation")
	vx.Assert(vx.And(vx.EqR(g.Cosmo.ScaleFactor*(1+c.Z), 1), vx.EqR(g.Cosmo.BoxWidth, hd.TotalWidth)), "the header tells the cosmology of the simulation")
	vx.Assert(vx.And(vx.EqR(g.Cosmo.RhoMean, cosmo.RhoAverage(h0, c.OmegaM, c.OmegaL, c.Z)), vx.EqR(g.Cosmo.RhoCritical, cosmo.RhoCritical(h0, c.OmegaM, c.OmegaL, c.Z))), "the header tells the densities of the simulation")
	vx.Assert(g.Render.Particles == pts, "the header tells the points per tetrahedron that were used")
	vx.Assert(g.Render.TotalPixels == cells, "the header tells the pixels across the simulation that were used")
	vx.Assert(g.Render.SubsampleLength == skip, "the header tells the subsampling that was used")
	vx.Assert(g.Render.ProjectionAxis == axis, "the header tells the axis that was projected")
	vx.Assert(vx.EqR(g.Loc.PixelWidth, pw), "the header tells the width of pixels")
	n := int64(1)
	for k := 0; k < 3; k++ {
		vx.Assert(g.Loc.PixelOrigin[k] == int64(lo[k]) && g.Loc.PixelSpan[k] == int64(w[k]), "the header tells the region in pixels")
		vx.Assert(vx.And(vx.EqR(g.Loc.Origin[k], float64(lo[k])*pw), vx.EqR(g.Loc.Span[k], float64(w[k])*pw)), "the header tells the region")
		if int64(k) != axis {
			n *= int64(w[k])
		}
	}
	if vector {
		n *= 3
	}
	fi, err := os.Stat(file)
	vx.Assert(err == nil && fi.Size() == g.Type.HeaderSize+4*n, "the header tells how many samples follow")
	if vector {
		return 0
	}
	vals, err := io.ReadGrid(file)
	vx.Assert(err == nil && int64(len(vals)) == n, "the samples can be read")
	sum := 0.0
	for _, x := range vals {
		sum += x
	}
	return sum
}

var c21quantities = []string{"Density", "DensityGradient", "Velocity", "VelocityDivergence", "velocitycurl"}

func c21axisOf(name string, q int) int64 {
	if q != 0 && q != 2 {
		return -1
	}
	switch name {
	case "X":
		return 0
	case "Y":
		return 1
	case "Z":
		return 2
	}
	return -1
}

// One region with every quantity and projection.
//vx: mode=real clock=fixed sched=fifo unwind=4000000 timeout=300 exits=assume
func VX_C21_box() {
	dir := vx.Temp()
	hd := c21sheet(dir + "/in")
	os.MkdirAll(dir+"/out", 0777)
	q := vx.Choose("quantity", 0, 4)
	axis := []string{"", "X", "Y", "Z"}[vx.Choose("axis", 0, 3)]
	vx.Assume(vx.Tier() == 1 || q < 1 || q == 2 || axis == "" || axis == "Y")
	cfg := "[Render]\nQuantity = " + c21quantities[q] + "\nInput = " + dir + "/in\nOutput = " + dir + "/out\nTotalPixels = 16\nParticles = 2\nPrependName = pre_\nAppendName = _app\n"
	lo, w := [3]int{2, 1, 0}, [3]int{5, 6, 7}
	vx.Assert(ioutil.WriteFile(dir+"/cfg", []byte(cfg), 0666) == nil, "setup")
	vx.Assert(ioutil.WriteFile(dir+"/box", []byte(c21box("halo", lo, w, axis)), 0666) == nil, "setup")
	c21main("-Render", dir+"/cfg", dir+"/box")
	ax := c21axisOf(axis, q)
	sum := c21read(dir+"/out/pre_halo_app.gtet", hd, int64(q), lo, w, 1, ax, 16, 2, 1)
	if q == 0 {
		if ax >= 0 {
			sum *= float64(w[ax])
		}
		vx.Assert(c21near(sum, 64), "the samples hold the mass of the segment")
	}
}

// Pixels and points are told or follow from other settings.
//vx: mode=real clock=fixed sched=fifo unwind=4000000 timeout=300 exits=assume
func VX_C21_settings() {
	dir := vx.Temp()
	hd := c21sheet(dir + "/in")
	os.MkdirAll(dir+"/out", 0777)
	cells, pw := int64(16), 1.0
	text := ""
	switch vx.Choose("pixels", 0, 2) {
	case 0:
		text += "TotalPixels = 8\n"
		cells, pw = 8, 2
	case 1:
		// The longest axis of the region is 7.5 wide.
		text += "ImagePixels = 15\n"
		cells, pw = 32, 0.5
	case 2:
		text += "ImagePixels = 15\nTotalPixels = 100\n"
		cells, pw = 32, 0.5
	}
	pts := int64(3)
	sub := []int64{1, 2}[vx.Choose("sub", 0, 1)]
	if sub > 1 {
		text += "SubsampleLength = 2\n"
	}
	switch vx.Choose("points", 0, 2) {
	case 0:
		text += "Particles = 3\n"
	case 1:
		text += "AutoParticles = true\n"
		pts = 1
	case 2:
		text += "ProjectionDepth = 2\nParticles = 7\n"
		pts = 1
	}
	axis := []string{"", "Z"}[vx.Choose("axis", 0, 1)]
	cfg := "[Render]\nQuantity = Density\nInput = " + dir + "/in\nOutput = " + dir + "/out\n" + text
	vx.Assert(ioutil.WriteFile(dir+"/cfg", []byte(cfg), 0666) == nil, "setup")
	box := fmt.Sprintf("[Box \"b\"]\nX = 2\nY = 1\nZ = 0\nXWidth = 5\nYWidth = 6\nZWidth = 7.5\n%s\n", c21axis(axis))
	vx.Assert(ioutil.WriteFile(dir+"/box", []byte(box), 0666) == nil, "setup")
	c21main("-Render", dir+"/cfg", dir+"/box")
	var lo, w [3]int
	for k, b := range [][2]float64{{2, 7}, {1, 7}, {0, 7.5}} {
		lo[k] = int(b[0] / pw)
		w[k] = int(b[1]/pw) + 1 - lo[k]
	}
	sum := c21read(dir+"/out/b.gtet", hd, 0, lo, w, pw, c21axisOf(axis, 0), cells, pts, sub)
	if axis == "Z" {
		sum *= float64(w[2])
	}
	vx.Assert(c21near(sum*pw*pw*pw, 64), "the samples hold the mass of the segment")
}

// Several regions in several files, balls among them.
//vx: mode=real clock=fixed sched=fifo unwind=4000000 timeout=300 exits=assume
func VX_C21_regions() {
	dir := vx.Temp()
	hd := c21sheet(dir + "/in")
	os.MkdirAll(dir+"/out", 0777)
	cfg := "[Render]\nQuantity = Density\nInput = " + dir + "/in\nOutput = " + dir + "/out\nTotalPixels = 16\nParticles = 2\n"
	vx.Assert(ioutil.WriteFile(dir+"/cfg", []byte(cfg), 0666) == nil, "setup")
	axis := []string{"", "X"}[vx.Choose("axis", 0, 1)]
	one := c21box("far", [3]int{9, 10, 11}, [3]int{3, 2, 4}, "") + fmt.Sprintf("[Ball \"ball\"]\nX = 4.25\nY = 4.25\nZ = 4.25\nRadius = 1\nRadiusMultiplier = 2.125\n%s\n", c21axis(axis))
	two := c21box("wrapped", [3]int{14, 14, 1}, [3]int{9, 10, 6}, axis)
	vx.Assert(ioutil.WriteFile(dir+"/one", []byte(one), 0666) == nil && ioutil.WriteFile(dir+"/two", []byte(two), 0666) == nil, "setup")
	if vx.Choose("order", 0, 1) == 0 {
		c21main("-Render", dir+"/cfg", dir+"/one", dir+"/two")
	} else {
		c21main("-Render", dir+"/cfg", dir+"/two", dir+"/one")
	}
	infos, err := ioutil.ReadDir(dir + "/out")
	vx.Assert(err == nil && len(infos) == 3, "every region has its own file")
	far := c21read(dir+"/out/far.gtet", hd, 0, [3]int{9, 10, 11}, [3]int{3, 2, 4}, 1, -1, 16, 2, 1)
	ball := c21read(dir+"/out/ball.gtet", hd, 0, [3]int{2, 2, 2}, [3]int{5, 5, 5}, 1, c21axisOf(axis, 0), 16, 2, 1)
	wrapped := c21read(dir+"/out/wrapped.gtet", hd, 0, [3]int{14, 14, 1}, [3]int{9, 10, 6}, 1, c21axisOf(axis, 0), 16, 2, 1)
	if axis == "X" {
		ball, wrapped = ball*5, wrapped*9
	}
	vx.Assert(far == 0 && c21near(ball, 64) && c21near(wrapped, 64), "the samples are those of the region of that name")
}
