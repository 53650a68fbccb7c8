//vx:pkg render/main
package main

import (
	"github.com/phil-mansfield/gotetra/render/io"
	vx "github.com/phil-mansfield/gotetra/zzvx"
)

// The number of pixels that were asked for, across the simulation or across the longest side of the region.
//vx: mode=real timeout=100
func VX_C21_pixels() {
	con := &io.RenderConfig{}
	box := &io.BoxConfig{Name: "b", XWidth: vx.F64("xw", 0.5, 64), YWidth: vx.F64("yw", 0.5, 64), ZWidth: vx.F64("zw", 0.5, 64)}
	longest := vx.IfF(box.XWidth > box.YWidth, box.XWidth, box.YWidth)
	longest = vx.IfF(longest > box.ZWidth, longest, box.ZWidth)
	con.TotalPixels = vx.Int("total", 0, 10000)
	if vx.Choose("given", 0, 1) == 1 {
		con.ImagePixels = vx.Int("image", 1, 1000)
		n := float64(totalPixels(con, box, 64))
		want := 64 / longest * float64(con.ImagePixels)
		vx.Assert(vx.And(vx.LeR(n-0.5, want), vx.LeR(want, n+0.5)), "the longest side is as many pixels wide as asked for")
	} else {
		vx.Assert(totalPixels(con, box, 64) == con.TotalPixels, "the simulation is as many pixels wide as asked for")
	}
}

// The number of points is the one asked for, or enough for the depth asked for.
//vx: mode=real timeout=100
func VX_C21_points() {
	con := &io.RenderConfig{TotalPixels: vx.Int("total", 1, 10000), Particles: vx.Int("particles", 1, 1000)}
	con.SubsampleLength = []int{1, 2, 4, 8}[vx.Choose("skip", 0, 3)]
	axis := vx.Choose("axis", 0, 3)
	box := &io.BoxConfig{Name: "b", XWidth: 16, YWidth: 32, ZWidth: 64, ProjectionAxis: []string{"X", "Y", "Z", ""}[axis]}
	depth := 0
	switch vx.Choose("how", 0, 2) {
	case 0:
		vx.Assert(particles(con, box, 64) == con.Particles, "as many points are used as asked for")
		return
	case 1:
		con.ProjectionDepth = []int{1, 2, 7, 50}[vx.Choose("depth", 0, 3)]
		depth = con.ProjectionDepth
	case 2:
		con.TotalPixels = []int{4, 12, 400, 4000}[vx.Choose("pixels", 0, 3)]
		con.AutoParticles = true
		depth = []int{con.TotalPixels / 4, con.TotalPixels / 2, con.TotalPixels, 1}[axis]
	}
	p := float64(particles(con, box, 64))
	x, s := float64(con.TotalPixels)/500, float64(con.SubsampleLength)
	want := 5 * x * x * x * s * s * s / float64(depth)
	vx.Assert(vx.And(vx.LeR(want*(1-1e-9), p), p < want*(1+1e-9)+1), "points are as many as the depth needs")
	vx.Assert(p >= 1, "at least one point is used")
}
