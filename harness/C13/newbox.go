//vx:pkg render
package render

import (
	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/io"
	vx "github.com/phil-mansfield/gotetra/zzvx"
)

var c13quantities = []density.Quantity{
	density.Density, density.DensityGradient, density.Velocity, density.VelocityDivergence, density.VelocityCurl,
}

// c13part is the start of a pixel (where rounding does not blur it) or anywhere well inside it.
func c13part(name string, cells int) float64 {
	f := vx.F64(name, 0, 1)
	vx.Assume(vx.Or(vx.And(f == 0, cells&(cells-1) == 0), vx.And(f >= 1.0/1024, f <= 1-1.0/1024)))
	return f
}

// c13check compares a pixel grid with the region it was made for.
func c13check(b Box, o, w [3]float64, boxWidth float64, pts, cells int, proj int) {
	cw := boxWidth / float64(cells)
	vx.Assert(b.Cells() == cells && b.Points() == pts, "the number of pixels and samples is as requested")
	vx.Assert(vx.EqR(b.CellWidth()*float64(cells), boxWidth), "pixels divide the box")
	dim, ok := b.ProjectionAxis()
	vx.Assert(ok == (proj >= 0) && (!ok || dim == proj), "the requested axis is projected")
	origin, span := b.CellOrigin(), b.CellSpan()
	n := 1
	for j := 0; j < 3; j++ {
		lo, hi := float64(origin[j])*cw, float64(origin[j]+span[j])*cw
		vx.Assert(vx.And(vx.LeR(lo, o[j]), o[j] < lo+cw*(1-1.0/2048)), "the grid starts at the pixel of the region's origin")
		vx.Assert(span[j] >= 1 && span[j] <= cells, "the grid is not empty and not wider than the box")
		vx.Assert(vx.Or(vx.LeR(o[j]+w[j], hi), span[j] == cells), "the grid ends at or after the region's end")
		vx.Assert(vx.LeR(hi, o[j]+w[j]+cw), "the grid ends at most a pixel after the region's end")
		if j != proj {
			n *= span[j]
		}
	}
	vx.Assert(b.Vals().Length() == n, "there is a value for every pixel")
}

// Regions of any origin and width along one axis.
//vx: mode=real split timeout=400 maxpath=40000
func VX_C13_regions() {
	cells := []int{1, 2, 8, 3, 7, 50}[vx.Choose("cells", 0, 5)]
	boxWidth := []float64{1, 8, 62.5, 0.75}[vx.Choose("boxWidth", 0, 3)]
	cw := boxWidth / float64(cells)
	k := vx.Choose("axis", 0, 2)
	proj := vx.Choose("proj", -1, 2)
	if vx.Tier() == 0 {
		vx.Assume(cells < 10 || (k+cells)%3 == 1)
		vx.Assume(boxWidth > 10 || proj == k || cells == 3)
	}
	var o, w [3]float64
	for j := 0; j < 3; j++ {
		o[j], w[j] = boxWidth/4, boxWidth/2
	}
	// The region starts in, or at the start of, a pixel, and so it ends.
	i := vx.Choose("i", 0, cells-1)
	e := i + vx.Choose("e", 0, cells)
	vx.Assume(cells < 7 || (i < 2 || i == cells/2 || i == cells-1) && (e-i < 2 || e-i == cells/2 || e-i >= cells-1))
	o[k] = (float64(i) + c13part("f", cells)) * cw
	end := (float64(e) + c13part("g", cells)) * cw
	w[k] = end - o[k]
	vx.Assume(vx.And(w[k] > 0, w[k] <= boxWidth))
	config := &io.BoxConfig{}
	config.X, config.Y, config.Z = o[0], o[1], o[2]
	config.XWidth, config.YWidth, config.ZWidth = w[0], w[1], w[2]
	if proj >= 0 {
		config.ProjectionAxis = string("XYZ"[proj])
	}
	c13check(NewBox(boxWidth, 5, cells, density.Density, config), o, w, boxWidth, 5, cells, proj)
}

// Every quantity: those that cannot be projected never are.
//vx: mode=real split timeout=300
func VX_C13_quantities() {
	q := c13quantities[vx.Choose("q", 0, 4)]
	proj := vx.Choose("proj", -1, 2)
	at := [][2][3]int{{{0, 2, 5}, {1, 2, 7}}, {{7, 0, 3}, {14, 7, 3}}, {{4, 6, 0}, {9, 13, 7}}}[vx.Choose("at", 0, 2)]
	var o, w [3]float64
	for j := 0; j < 3; j++ {
		o[j] = float64(at[0][j]) + c13part("f", 8)
		end := float64(at[1][j]) + c13part("g", 8)
		w[j] = end - o[j]
		vx.Assume(vx.And(w[j] > 0, w[j] <= 8))
	}
	config := &io.BoxConfig{}
	config.X, config.Y, config.Z = o[0], o[1], o[2]
	config.XWidth, config.YWidth, config.ZWidth = w[0], w[1], w[2]
	if proj >= 0 {
		config.ProjectionAxis = string("XYZ"[proj])
	}
	if q != density.Density && q != density.Velocity {
		proj = -1
	}
	b := NewBox(8, 3, 8, q, config)
	c13check(b, o, w, 8, 3, 8, proj)
	vx.Assert(b.Vals().Quantity() == q, "the values are of the requested quantity")
}
