//vx:pkg render
package render

import (
	"fmt"

	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
	vx "github.com/phil-mansfield/gotetra/zzvx"
)

// c38sheets writes the segments of a simulation of n*n*n particles on a lattice, one length unit apart.
// The velocity of a particle is base plus its place times slope.
func c38sheets(n, segs int, base [3]float32, slope float32) []string {
	seg := n / segs
	g := seg + 1
	var files []string
	for idx := 0; idx < segs*segs*segs; idx++ {
		at := [3]int{idx % segs * seg, idx / segs % segs * seg, idx / (segs * segs) * seg}
		hd := &io.SheetHeader{}
		hd.Count, hd.CountWidth = int64(n*n*n), int64(n)
		hd.SegmentWidth, hd.GridWidth, hd.GridCount = int64(seg), int64(g), int64(g*g*g)
		hd.Idx, hd.Cells = int64(idx), int64(segs)
		hd.Mass, hd.TotalWidth = 1, float64(n)
		xs, vs := make([]geom.Vec, g*g*g), make([]geom.Vec, g*g*g)
		for i := range xs {
			p := [3]int{i % g, i / g % g, i / (g * g)}
			for k := 0; k < 3; k++ {
				site := (at[k] + p[k]) % n
				xs[i][k] = float32(site)
				vs[i][k] = base[k] + slope*float32(site)
			}
		}
		for k := 0; k < 3; k++ {
			hd.Origin[k], hd.Width[k] = float32(at[k]), float32(seg)
		}
		file := fmt.Sprintf("%s/sheet%d.dat", vx.Temp(), idx)
		io.WriteSheet(file, hd, xs, vs)
		files = append(files, file)
	}
	return files
}

func c38config(lo, width [3]float64, proj int) *io.BoxConfig {
	c := &io.BoxConfig{}
	c.X, c.Y, c.Z = lo[0], lo[1], lo[2]
	c.XWidth, c.YWidth, c.ZWidth = width[0], width[1], width[2]
	if proj >= 0 {
		c.ProjectionAxis = string("XYZ"[proj])
	}
	return c
}


// The workers of whole renders: every quantity, projected or not, one or two images, one or several sheets.
func c38render() {
	n, segs := 4, 2
	NumCores = vx.Choose("workers", 2, 3+vx.Tier())
	qi := vx.Choose("q", 0, 4)
	q := []density.Quantity{density.Density, density.DensityGradient, density.Velocity, density.VelocityDivergence, density.VelocityCurl}[qi]
	images := vx.Choose("images", 1, 3)
	skip := 1 + (qi+images)%2
	proj := (qi+images+NumCores)%3 - 1
	base := [3]float32{vx.F32("vx", -9, 9), 2, 3}
	files := c38sheets(n, segs, base, 0)
	boxes := []Box{NewBox(4, 2, n/skip, q, c38config([3]float64{3, 1, 0}, [3]float64{1.5, 0.5, 2.5}, proj))}
	switch images {
	case 2:
		// The second image has fewer points per tetrahedron.
		boxes = append(boxes, NewBox(4, 1, n/skip, q, c38config([3]float64{0, 3, 2}, [3]float64{0.5, 1.5, 1.5}, -1)))
	case 3:
		files = []string{files[6], files[1]}
		boxes = append(boxes, NewBox(4, 2, 2*n, q, c38config([3]float64{0, 0, 0}, [3]float64{3.5, 1.5, 3.5}, proj)))
	}
	man, err := NewManager(files, boxes, false, q)
	vx.Assert(err == nil, "sheets can be rendered")
	man.Subsample(skip)
	vx.Assert(man.RenderDensity() == nil, "sheets can be rendered")
	if images == 1 {
		vx.Assert(man.RenderDensityFromFile(files[0]) == nil, "sheets can be rendered again")
	}
}

//vx: mode=real race split timeout=300 unwind=4000000 clock=fixed sched=fifo
func VX_C38_renderForward() { c38render() }

//vx: mode=real race split timeout=300 unwind=4000000 clock=fixed sched=lifo
func VX_C38_renderBackward() { c38render() }

// Every order of the workers, for a single sheet.
//vx: mode=real race split timeout=300 unwind=4000000 clock=fixed
func VX_C38_renderOrders() {
	NumCores = vx.Choose("workers", 2, 3+vx.Tier())
	q := []density.Quantity{density.Density, density.Velocity}[vx.Choose("q", 0, 1)]
	base := [3]float32{vx.F32("vx", -9, 9), 2, 3}
	files := c38sheets(4, 2, base, 0)
	at := vx.Choose("file", 0, 1) * 7
	boxes := []Box{NewBox(4, 1, 4, q, c38config([3]float64{}, [3]float64{4, 4, 4}, -1))}
	if NumCores == 2 {
		boxes = append(boxes, NewBox(4, 2, 4, q, c38config([3]float64{0, 3, 2}, [3]float64{2.5, 2.5, 2.5}, 0)))
	}
	man, err := NewManager(files, boxes, false, q)
	vx.Assert(err == nil, "sheets can be rendered")
	vx.Assert(man.RenderDensityFromFile(files[at]) == nil, "sheets can be rendered")
}
