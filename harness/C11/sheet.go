//vx:pkg render
package render

import (
	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
	vx "github.com/phil-mansfield/gotetra/zzvx"
)

// The mass of a segment in an image of the whole box is that of its part of the box, wherever one of its
// particles is.
//vx: mode=real timeout=300 unwind=4000000 clock=fixed sched=fifo
func VX_C11_sheet() {
	NumCores = vx.Choose("workers", 1, 2)
	k := vx.Choose("axis", 0, 2)
	proj := vx.Choose("proj", -1, 2)
	at := [3]int{1, 3, 2}
	hd := &io.SheetHeader{}
	hd.Count, hd.CountWidth = 64, 4
	hd.SegmentWidth, hd.GridWidth, hd.GridCount = 2, 3, 27
	hd.Cells = 2
	hd.Mass, hd.TotalWidth = 1, 4
	xs, vs := make([]geom.Vec, 27), make([]geom.Vec, 27)
	for i := range xs {
		p := [3]int{i % 3, i / 3 % 3, i / 9}
		for j := 0; j < 3; j++ {
			xs[i][j] = float32((at[j] + p[j]) % 4)
		}
	}
	for j := 0; j < 3; j++ {
		hd.Origin[j], hd.Width[j] = float32(at[j]), 2
	}
	for j := 0; j <= 1+vx.Tier(); j++ {
		a := (k + j) % 3
		x := float32((at[a]+1)%4) + vx.F32("d", -0.75, 0.75)
		if x < 0 {
			x += 4
		}
		xs[13][a] = x
	}
	file := vx.Temp() + "/sheet.dat"
	io.WriteSheet(file, hd, xs, vs)
	c := &io.BoxConfig{XWidth: 4, YWidth: 4, ZWidth: 4}
	if proj >= 0 {
		c.ProjectionAxis = string("XYZ"[proj])
	}
	b := NewBox(4, 1, 4, density.Density, c)
	man, err := NewManager([]string{file}, []Box{b}, false, density.Density)
	vx.Assert(err == nil && man.RenderDensity() == nil, "sheets can be rendered")
	rhos, _ := b.Vals().ScalarBuffer()
	sum, deep := 0.0, 1.0
	if proj >= 0 {
		deep = 4
	}
	for _, rho := range rhos {
		sum += rho * deep
	}
	vx.Assert(vx.EqR(sum, 8), "mass is conserved")
}

// Images of other resolutions in the same run make no difference, whichever comes first.
//vx: mode=real timeout=300 unwind=4000000 clock=fixed sched=fifo
func VX_C11_together() {
	NumCores = vx.Choose("workers", 1, 2)
	at := [3]int{1, 3, 2}
	hd := &io.SheetHeader{}
	hd.Count, hd.CountWidth = 64, 4
	hd.SegmentWidth, hd.GridWidth, hd.GridCount = 2, 3, 27
	hd.Cells = 2
	hd.Mass, hd.TotalWidth = 1, 4
	xs, vs := make([]geom.Vec, 27), make([]geom.Vec, 27)
	for i := range xs {
		p := [3]int{i % 3, i / 3 % 3, i / 9}
		for j := 0; j < 3; j++ {
			xs[i][j] = float32((at[j] + p[j]) % 4)
		}
	}
	for j := 0; j < 3; j++ {
		hd.Origin[j], hd.Width[j] = float32(at[j]), 2
	}
	mass := vx.F32("shift", 0.125, 0.875)
	xs[13][0] = float32(at[0]) + 0.5 + mass
	file := vx.Temp() + "/sheet.dat"
	io.WriteSheet(file, hd, xs, vs)
	var boxes []Box
	sizes := []int{4, 8, 2}
	first := vx.Choose("first", 0, 2)
	for i := 0; i < 3; i++ {
		c := &io.BoxConfig{XWidth: 4, YWidth: 4, ZWidth: 4}
		if i == 1 {
			c = &io.BoxConfig{X: 1, Y: 3, Z: 2, XWidth: 1.9375, YWidth: 1.9375, ZWidth: 1.9375}
		}
		if i == 2 && vx.Bool("flat") {
			c.ProjectionAxis = "Y"
		}
		boxes = append(boxes, NewBox(4, 1+i, sizes[(first+i)%3], density.Density, c))
	}
	man, err := NewManager([]string{file}, boxes, false, density.Density)
	vx.Assert(err == nil && man.RenderDensity() == nil, "sheets can be rendered")
	for _, b := range boxes {
		rhos, _ := b.Vals().ScalarBuffer()
		vol := b.CellWidth() * b.CellWidth() * b.CellWidth()
		if k, flat := b.ProjectionAxis(); flat {
			vol *= float64(b.CellSpan()[k])
		}
		sum := 0.0
		for _, rho := range rhos {
			sum += rho * vol
		}
		vx.Assert(vx.EqR(sum, 8), "mass is conserved")
	}
}

// All of the mass of a segment within a region is in its image: regions as wide as the box on some axes and
// thin on others, wherever the region starts, and whatever the bounds of the segment are.
//vx: mode=real timeout=300 unwind=4000000 clock=fixed sched=fifo
func VX_C11_slab() {
	NumCores = 1
	thin := vx.Choose("thin", 0, 2)
	start := vx.Choose("start", 0, 3)
	// Where the segment starts relative to the region, on the axes that are not thin.
	rel := vx.Choose("rel", 0, 3)
	also := vx.Choose("also", 0, 2) // A second axis may be thin.
	proj := vx.Choose("proj", -1, 2)
	vx.Assume(vx.Tier() == 1 || proj == -1 && (start+rel+thin)%2 == 0 || (proj+start+2*rel+also)%6 == 0)
	lo := [3]int{start, (start + 2) % 4, (start + 1) % 4}
	c := &io.BoxConfig{}
	c.X, c.Y, c.Z = float64(lo[0]), float64(lo[1]), float64(lo[2])
	w := [3]float64{4, 4, 4}
	w[thin], w[also] = 0.75, 0.75
	c.XWidth, c.YWidth, c.ZWidth = w[0], w[1], w[2]
	if proj >= 0 {
		c.ProjectionAxis = string("XYZ"[proj])
	}
	hd := &io.SheetHeader{}
	hd.Count, hd.CountWidth = 64, 4
	hd.SegmentWidth, hd.GridWidth, hd.GridCount = 2, 3, 27
	hd.Cells = 2
	hd.Mass, hd.TotalWidth = 1, 4
	var at [3]float32
	for j := 0; j < 3; j++ {
		at[j] = float32((lo[j] + rel) % 4)
		hd.Width[j] = 2
		if w[j] < 1 {
			at[j] = float32(lo[j]) + 0.125
			hd.Width[j] = 2.5
		}
		hd.Origin[j] = at[j]
	}
	xs, vs := make([]geom.Vec, 27), make([]geom.Vec, 27)
	for i := range xs {
		p := [3]int{i % 3, i / 3 % 3, i / 9}
		for j := 0; j < 3; j++ {
			d := float32(p[j])
			if w[j] < 1 {
				d *= 0.25
			}
			if i == 13 && j == (thin+1)%3 {
				d = d * vx.F32("d", 0.25, 1.75)
			}
			xs[i][j] = at[j] + d
			if xs[i][j] >= 4 {
				xs[i][j] -= 4
			}
		}
	}
	file := vx.Temp() + "/sheet.dat"
	io.WriteSheet(file, hd, xs, vs)
	b := NewBox(4, 1, 4, density.Density, c)
	man, err := NewManager([]string{file}, []Box{b}, false, density.Density)
	vx.Assert(err == nil && man.RenderDensity() == nil, "sheets can be rendered")
	rhos, _ := b.Vals().ScalarBuffer()
	sum, deep := 0.0, 1.0
	if proj >= 0 {
		deep = float64(b.CellSpan()[proj])
	}
	for _, rho := range rhos {
		sum += rho * deep
	}
	vx.Assert(vx.EqR(sum, 8), "all of the mass in the region is in its image")
}
