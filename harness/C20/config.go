//vx:pkg render/io
package io

import (
	"strings"

	"github.com/phil-mansfield/gotetra/render/density"
	vx "github.com/phil-mansfield/gotetra/zzvx"
)

// Ways to write a projection axis, and what they mean ("?": nothing).
var c20axes = [][2]string{{"", ""}, {"X", "X"}, {"y", "Y"}, {" Z ", "Z"}, {"z", "Z"}, {"W", "?"}, {"XY", "?"}, {"X Y", "?"}, {"0", "?"}, {" ", ""}, {"-x", "?"}}

func c20axis() (in, out string) {
	a := c20axes[vx.Choose("axis", 0, len(c20axes)-1)]
	return a[0], a[1]
}

func c20width() float64 {
	w := vx.F64Any("totalWidth")
	vx.Assume(vx.And(w > 0, w <= 1e300))
	return w
}

func c20in(x, hi float64) bool   { return vx.And(x >= 0, x < hi) }
func c20size(x, hi float64) bool { return vx.And(x > 0, x <= hi) }

// Boxes are accepted exactly if they lie in the simulation, NaNs and infinities included.
//vx: mode=fp split
func VX_C20_box() {
	tw := c20width()
	b := &BoxConfig{X: vx.F64Any("x"), Y: vx.F64Any("y"), Z: vx.F64Any("z"),
		XWidth: vx.F64Any("xw"), YWidth: vx.F64Any("yw"), ZWidth: vx.F64Any("zw")}
	c := *b
	in, out := c20axis()
	b.ProjectionAxis = in
	err := b.CheckInit("a name", tw)
	want := vx.And(vx.And(c20in(c.X, tw), vx.And(c20in(c.Y, tw), c20in(c.Z, tw))),
		vx.And(c20size(c.XWidth, tw), vx.And(c20size(c.YWidth, tw), c20size(c.ZWidth, tw))))
	vx.Assert((err == nil) == vx.And(want, out != "?"), "boxes are accepted exactly if they lie in the simulation")
	if err == nil {
		vx.Assert(b.ProjectionAxis == out, "the projection axis is normalised")
		vx.Assert(b.IsProjection() == (out != ""), "projections are recognised")
		vx.Assert(b.Name == "a name", "the name is kept")
		vx.Assert(vx.And(vx.And(b.X == c.X, vx.And(b.Y == c.Y, b.Z == c.Z)),
			vx.And(b.XWidth == c.XWidth, vx.And(b.YWidth == c.YWidth, b.ZWidth == c.ZWidth))), "the region is kept")
	}
}

func c20ball() *BallConfig {
	return &BallConfig{X: vx.F64Any("x"), Y: vx.F64Any("y"), Z: vx.F64Any("z"), Radius: vx.F64Any("r"), RadiusMultiplier: vx.F64Any("mult")}
}

// Balls outside the simulation, without size or along unknown axes are refused.
//vx: mode=fp split timeout=300
func VX_C20_badBall() {
	tw, b := c20width(), c20ball()
	c := *b
	in, out := c20axis()
	b.ProjectionAxis = in
	err := b.CheckInit("a name", tw)
	ok := vx.And(c.Radius > 0, vx.And(c20in(c.X, tw), vx.And(c20in(c.Y, tw), c20in(c.Z, tw))))
	ok = vx.And(ok, vx.And(c.RadiusMultiplier >= 0, out != "?"))
	vx.Assert(vx.Implies(err == nil, ok), "balls outside their documented range are refused")
	if err == nil {
		vx.Assert(b.ProjectionAxis == out, "the projection axis is normalised")
		vx.Assert(b.Name == "a name", "the name is kept")
		vx.Assert(b.RadiusMultiplier == vx.IfF(c.RadiusMultiplier == 0, 1, c.RadiusMultiplier), "the multiplier is one unless given")
	}
}

// Balls in range are accepted and become the cube around them, inside the periodic box.
//vx: mode=real split
func VX_C20_ball() {
	tw := vx.F64("totalWidth", 1, 1000)
	b := &BallConfig{X: vx.F64("x", 0, 1000), Y: vx.F64("y", 0, 1000), Z: vx.F64("z", 0, 1000), Radius: vx.F64("r", 0, 1000)}
	mult := 1.0
	if vx.Choose("given", 0, 1) == 1 {
		b.RadiusMultiplier = vx.F64("mult", 0, 100)
		mult = b.RadiusMultiplier
		vx.Assume(mult > 0)
	}
	vx.Assume(vx.And(b.Radius > 0, vx.And(b.X < tw, vx.And(b.Y < tw, b.Z < tw))))
	in, out := c20axis()
	vx.Assume(out != "?")
	b.ProjectionAxis = in
	c := *b
	err := b.CheckInit("a name", tw)
	wide := 2*c.Radius*mult > tw
	vx.Assert((err != nil) == wide, "balls are refused exactly if they are wider than the simulation")
	if err != nil {
		return
	}
	box := b.Box(tw)
	rad := c.Radius * mult
	at, ctr, width := []float64{box.X, box.Y, box.Z}, []float64{c.X, c.Y, c.Z}, []float64{box.XWidth, box.YWidth, box.ZWidth}
	for k := 0; k < 3; k++ {
		vx.Assert(vx.EqR(width[k], 2*rad), "the box encloses the ball")
		vx.Assert(vx.And(at[k] >= 0, at[k] < tw), "the box starts inside the simulation")
		lo := ctr[k] - rad
		vx.Assert(vx.Or(vx.EqR(at[k], lo), vx.Or(vx.EqR(at[k], lo+tw), vx.EqR(at[k], lo-tw))), "the box is centred on the ball")
	}
	vx.Assert(box.ProjectionAxis == out && box.Name == "a name", "the axis and the name are kept")
	vx.Assert(box.CheckInit(box.Name, tw) == nil, "the box around an accepted ball is acceptable")
}

// Numbers in render and histogram configurations.
//vx: mode=fp split unwind=200
func VX_C20_render() {
	con := &DefaultRenderWrapper().Render
	vx.Assert(con.ValidSubsampleLength(), "everything is rendered by default")
	s := vx.IntBV("s", -1<<20, 1<<40)
	pow := false
	for k := uint(0); k <= 40; k++ {
		pow = vx.Or(pow, s == 1<<k)
	}
	con.SubsampleLength = s
	vx.Assert(con.ValidSubsampleLength() == pow, "subsampling lengths are powers of two")
	th := &DefaultTetraHistWrapper().TetraHist
	vx.Assert(th.ValidSubsampleLength(), "everything is counted by default")
	th.SubsampleLength = s
	vx.Assert(th.ValidSubsampleLength() == pow, "histogram subsampling lengths are powers of two")
	con.TotalPixels, con.Particles, con.ImagePixels, con.ProjectionDepth = s, s, s, s
	vx.Assert(con.ValidTotalPixels() == (s > 0), "pixel counts are positive")
	vx.Assert(con.ValidParticles() == (s > 0), "particle counts are positive")
	vx.Assert(con.ValidImagePixels() == (s > 0), "image sizes are positive")
	vx.Assert(con.ValidProjectionDepth() == (s > 0), "projection depths are positive")
	th.HistBins = s
	vx.Assert(th.ValidHistBins() == (s > 0), "bin counts are positive")
	cs := &DefaultConvertSnapshotWrapper().ConvertSnapshot
	vx.Assert(!cs.ValidCells() && cs.ValidGadget2IDSize() && cs.ValidIterationStart() && !cs.ValidIterationEnd() && !cs.ValidInputFormat(), "conversion defaults")
	vx.Assert(cs.XUnits == 1 && cs.VUnits == 1 && cs.MUnits == 1, "units are kept by default")
	cs.Cells, cs.Gadget2IDSize, cs.IterationStart, cs.IterationEnd = s, s, s, s
	vx.Assert(cs.ValidCells() == (s > 0), "cell counts are positive")
	vx.Assert(cs.ValidGadget2IDSize() == vx.Or(s == 32, s == 64), "ids have 32 or 64 bits")
	vx.Assert(cs.ValidIterationStart() == (s >= 0) && cs.ValidIterationEnd() == (s >= 0), "iterations are not negative")
}

// Histogram ranges.
//vx: mode=fp split
func VX_C20_hist() {
	scale := []string{"Linear", "Log", "", "log", "Cubic"}[vx.Choose("scale", 0, 4)]
	th := &TetraHistConfig{HistScale: scale, HistMin: vx.F64Any("min"), HistMax: vx.F64Any("max")}
	vx.Assert(th.ValidHistScale() == (scale == "Linear" || scale == "Log"), "scales are Linear or Log")
	ok := vx.And(th.HistMin < th.HistMax, vx.Or(scale == "Linear", vx.And(scale == "Log", th.HistMin > 0)))
	vx.Assert(vx.And(th.ValidHistMin(), th.ValidHistMax()) == ok, "ranges are increasing, and positive if logarithmic")
	th.Quantity = []string{"Density", "density", "Velocity", ""}[vx.Choose("q", 0, 3)]
	vx.Assert(th.ValidQuantity() == (th.Quantity == "Density"), "histograms are of the density")
}

// Names of quantities, and required strings.
//vx: mode=fp split
func VX_C20_names() {
	name := []string{"Density", "DensityGradient", "Velocity", "VelocityDivergence", "VelocityCurl"}[vx.Choose("q", 0, 4)]
	con := &RenderConfig{Quantity: name}
	vx.Assert(con.ValidQuantity(), "every quantity can be requested")
	con.Quantity = strings.ToLower(name)
	vx.Assert(con.ValidQuantity(), "whatever its case")
	_, known := density.QuantityFromString(con.Quantity)
	vx.Assert(known, "accepted quantities can be rendered")
	for _, bad := range []string{"", " ", "Dens", "Density ", name + "x", "EndQuantity", "Vorticity"} {
		con.Quantity = bad
		_, known := density.QuantityFromString(bad)
		vx.Assert(!vx.And(con.ValidQuantity(), !known), "accepted quantities can be rendered")
		vx.Assert(!con.ValidQuantity(), "unknown quantities are refused")
	}
	vx.Assert(!con.ValidInput() && !con.ValidOutput() && !con.ValidLogFile() && !con.ValidProfileFile(), "missing names are recognised")
	con.Input, con.Output, con.LogFile, con.ProfileFile = "a", "b", "c", "d"
	vx.Assert(con.ValidInput() && con.ValidOutput() && con.ValidLogFile() && con.ValidProfileFile(), "given names are recognised")
}
