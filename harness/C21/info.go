//vx:pkg render/io
package io

import (
	"github.com/phil-mansfield/gotetra/cosmo"
	vx "github.com/phil-mansfield/gotetra/zzvx"
)

// Regions of every place and size.
//vx: mode=real timeout=100
func VX_C21_location() {
	var lo, w [3]int
	for k := range lo {
		lo[k], w[k] = vx.Int("origin", -100000, 100000), vx.Int("span", 0, 100000)
	}
	cw := vx.F64("cw", 0.0009765625, 1000)
	loc := NewLocationInfo(lo, w, cw)
	vx.Assert(vx.EqR(loc.PixelWidth, cw), "the header tells the width of pixels")
	for k := range lo {
		vx.Assert(vx.And(loc.PixelOrigin[k] == int64(lo[k]), loc.PixelSpan[k] == int64(w[k])), "the header tells the region in pixels")
		vx.Assert(vx.And(vx.EqR(loc.Origin[k], float64(lo[k])*cw), vx.EqR(loc.Span[k], float64(w[k])*cw)), "the header tells the region")
	}
}

// Settings of every value.
//vx: mode=real timeout=100
func VX_C21_render() {
	p, c, s := vx.Int("particles", 1, 1000000), vx.Int("cells", 1, 100000), vx.Int("skip", 1, 64)
	i := vx.Choose("axis", 0, 3)
	ri := NewRenderInfo(p, c, s, []string{"X", "Y", "Z", ""}[i])
	vx.Assert(vx.And(ri.Particles == int64(p), vx.And(ri.TotalPixels == int64(c), ri.SubsampleLength == int64(s))), "the header tells the settings")
	vx.Assert(ri.ProjectionAxis == []int64{0, 1, 2, -1}[i], "the header tells the axis that was projected")
}

// Cosmologies of every kind.
//vx: mode=real timeout=100
func VX_C21_cosmology() {
	h0, om, ol, z, w := vx.F64("h0", 10, 200), vx.F64("om", 0, 2), vx.F64("ol", 0, 2), vx.F64("z", -0.5, 20), vx.F64("w", 1, 1e5)
	ci := NewCosmoInfo(h0, om, ol, z, w)
	vx.Assert(vx.And(vx.EqR(ci.Redshift, z), vx.EqR(ci.ScaleFactor*(1+z), 1)), "the header tells the time")
	vx.Assert(vx.And(vx.And(vx.EqR(ci.Hubble, h0), vx.EqR(ci.OmegaM, om)), vx.And(vx.EqR(ci.OmegaL, ol), vx.EqR(ci.BoxWidth, w))), "the header tells the cosmology of the simulation")
	vx.Assert(vx.And(vx.EqR(ci.RhoMean, cosmo.RhoAverage(h0, om, ol, z)), vx.EqR(ci.RhoCritical, cosmo.RhoCritical(h0, om, ol, z))), "the header tells the densities of the simulation")
}
