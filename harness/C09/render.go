//vx:pkg render
package render

import (
	"fmt"

	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
	vx "github.com/phil-mansfield/gotetra/zzvx"
)

// c09sheets writes the segments of a simulation of n*n*n particles on a lattice, one length unit apart.
// The velocity of a particle is base plus its place times slope.
func c09sheets(n, segs int, base [3]float32, slope float32) []string {
	seg := n / segs
	g := seg + 1
	var files []string
	for idx := 0; idx < segs*segs*segs; idx++ {
		at := [3]int{idx % segs * seg, idx / segs % segs * seg, idx / (segs * segs) * seg}
		hd := &io.SheetHeader{}
		hd.Count, hd.CountWidth = int64(n*n*n), int64(n)
		hd.SegmentWidth, hd.GridWidth, hd.GridCount = int64(seg), int64(g), int64(g*g*g)
		hd.Idx, hd.Cells = int64(idx), int64(segs)
		hd.Mass, hd.TotalWidth = 1, float64(n)
		xs, vs := make([]geom.Vec, g*g*g), make([]geom.Vec, g*g*g)
		for i := range xs {
			p := [3]int{i % g, i / g % g, i / (g * g)}
			for k := 0; k < 3; k++ {
				site := (at[k] + p[k]) % n
				xs[i][k] = float32(site)
				vs[i][k] = base[k] + slope*float32(site)
			}
		}
		for k := 0; k < 3; k++ {
			hd.Origin[k], hd.Width[k] = float32(at[k]), float32(seg)
		}
		file := fmt.Sprintf("%s/sheet%d.dat", vx.Temp(), idx)
		io.WriteSheet(file, hd, xs, vs)
		files = append(files, file)
	}
	return files
}

func c09config(lo, width [3]float64, proj int) *io.BoxConfig {
	c := &io.BoxConfig{}
	c.X, c.Y, c.Z = lo[0], lo[1], lo[2]
	c.XWidth, c.YWidth, c.ZWidth = width[0], width[1], width[2]
	if proj >= 0 {
		c.ProjectionAxis = string("XYZ"[proj])
	}
	return c
}

// c09density: the density of a uniform sheet is one everywhere.
func c09density(maxWorkers int) {
	n, segs := 4, 2
	skip := vx.Choose("skip", 1, 2)
	cells := n / skip
	NumCores = vx.Choose("workers", 1, maxWorkers)
	files := c09sheets(n, segs, [3]float32{}, 0)
	region := vx.Choose("region", 0, 3)
	var b Box
	fn := float64(n)
	switch region {
	case 0: // All of it.
		b = NewBox(fn, 2, cells, density.Density, c09config([3]float64{}, [3]float64{fn, fn, fn}, -1))
	case 1:
		b = NewBox(fn, 1, cells, density.Density, c09config([3]float64{}, [3]float64{fn, fn, fn}, 1))
	case 2: // A part, across the edge.
		b = NewBox(fn, 2, cells, density.Density, c09config([3]float64{2, 3, 1}, [3]float64{0.5, 1.5, 2.5}, -1))
	case 3:
		b = NewBox(fn, 1, cells, density.Density, c09config([3]float64{2, 3, 1}, [3]float64{0.5, 1.5, 2.5}, 0))
	}
	man, err := NewManager(files, []Box{b}, false, density.Density)
	vx.Assert(err == nil, "sheets can be rendered")
	man.Subsample(skip)
	vx.Assert(man.RenderDensity() == nil, "sheets can be rendered")
	rhos, _ := b.Vals().ScalarBuffer()
	all := true
	for _, rho := range rhos {
		all = vx.And(all, vx.EqR(rho, 1))
	}
	vx.Assert(all, "every part of the sheet is deposited once")
}

//vx: mode=real split timeout=300 unwind=4000000 clock=fixed sched=fifo
func VX_C09_densityForward() { c09density(4 + vx.Tier()*3) }

//vx: mode=real split timeout=300 unwind=4000000 clock=fixed sched=lifo
func VX_C09_densityBackward() { c09density(4 + vx.Tier()*3) }

// c09velocity: the mean velocity of a sheet with a velocity gradient lies between those at the ends of the pixel.
func c09velocity(workers int) {
	n, segs := 4, 2
	NumCores = workers
	base := [3]float32{vx.F32("vx", -9, 9), vx.F32("vy", -9, 9), 3}
	files := c09sheets(n, segs, base, 0)
	// Curls and divergences are made of the same sums.
	proj := vx.Choose("proj", -3, 2)
	q := density.Velocity
	if proj == -2 {
		q = density.VelocityCurl
	} else if proj == -3 {
		q = density.VelocityDivergence
	}
	lo := [3]float64{3, 1, 0}
	b := NewBox(4, 2, 4, q, c09config(lo, [3]float64{1.5, 0.5, 2.5}, proj))
	man, err := NewManager(files, []Box{b}, false, q)
	vx.Assert(err == nil, "sheets can be rendered")
	vx.Assert(man.RenderDensity() == nil, "sheets can be rendered")
	sums, ok := b.Vals().VectorBuffer()
	counts, okc := b.Vals().CountBuffer()
	vx.Assert(ok && okc, "velocities are counted")
	deep := 1
	if proj >= 0 {
		deep = b.CellSpan()[proj]
	}
	all, once := true, true
	for i := range sums {
		once = once && counts[i] == 12*deep
		for k := 0; k < 3; k++ {
			all = vx.And(all, vx.EqR(sums[i][k], float64(12*deep)*float64(base[k])))
		}
	}
	vx.Assert(once, "every part of the sheet is deposited once")
	vx.Assert(all, "velocities are those of the sheet")
	if q != density.Velocity {
		return
	}
	xs, ys, zs, ok := b.Vals().FinalizedVectorBuffer()
	vx.Assert(ok, "velocities are vectors")
	mean := true
	for i := range xs {
		mean = vx.And(mean, vx.And(vx.EqR32(xs[i], base[0]), vx.And(vx.EqR32(ys[i], base[1]), vx.EqR32(zs[i], base[2]))))
	}
	vx.Assert(mean, "the mean of equal velocities is that velocity")
}

//vx: mode=real split timeout=300 unwind=4000000 clock=fixed sched=lifo
func VX_C09_velocity() { c09velocity(vx.Choose("workers", 1, 3+2*vx.Tier())) }

// All orders of the workers, for a single segment.
//vx: mode=real split timeout=300 unwind=4000000 clock=fixed
func VX_C09_orders() {
	NumCores = vx.Choose("workers", 1, 4)
	proj := vx.Choose("proj", -1, 0)
	files := c09sheets(4, 2, [3]float32{}, 0)
	at := vx.Choose("file", 0, 1) * 7
	b := NewBox(4, 1, 4, density.Density, c09config([3]float64{}, [3]float64{4, 4, 4}, proj))
	man, err := NewManager(files, []Box{b}, false, density.Density)
	vx.Assert(err == nil, "sheets can be rendered")
	vx.Assert(man.RenderDensityFromFile(files[at]) == nil, "sheets can be rendered")
	rhos, _ := b.Vals().ScalarBuffer()
	all := true
	for i, rho := range rhos {
		want := 0.0
		x, y := i%4, i/4%4
		if proj == 0 {
			x, y = y, x
			want = vx.IfF((i%4 >= 2) == (at == 7) && (i/4%4 >= 2) == (at == 7), 0.5, 0)
		} else {
			want = vx.IfF((x >= 2) == (at == 7) && (y >= 2) == (at == 7) && (i/16 >= 2) == (at == 7), 1, 0)
		}
		all = vx.And(all, vx.EqR(rho, want))
	}
	vx.Assert(all, "every part of the sheet is deposited once")
}

// Several images at once, larger segments, sheets with nothing in the image.
//vx: mode=real split timeout=300 unwind=4000000 clock=fixed sched=fifo
func VX_C09_images() {
	NumCores = vx.Choose("workers", 1, 2)
	n, segs := 8, 2
	skip := []int{1, 2, 4}[vx.Choose("skip", 0, 2)]
	files := c09sheets(n, segs, [3]float32{}, 0)
	if NumCores == 1 {
		// The order of the files does not matter either.
		for i := 0; i < len(files)/2; i++ {
			files[i], files[len(files)-1-i] = files[len(files)-1-i], files[i]
		}
	}
	q := density.Density
	if NumCores == 2 {
		q = density.DensityGradient
	}
	boxes := []Box{
		NewBox(8, 1, 8/skip, q, c09config([3]float64{4, 4, 0}, [3]float64{3.5, 0.5, 3.5}, -1)),
		NewBox(8, 2, 8/skip, q, c09config([3]float64{0, 4, 4}, [3]float64{3.5, 3.5, 3.5}, 2)),
	}
	man, err := NewManager(files, boxes, false, q)
	vx.Assert(err == nil, "sheets can be rendered")
	man.Subsample(skip)
	vx.Assert(man.RenderDensity() == nil, "sheets can be rendered")
	all := true
	for _, b := range boxes {
		rhos, _ := b.Vals().ScalarBuffer()
		for _, rho := range rhos {
			all = vx.And(all, vx.EqR(rho, 1))
		}
	}
	vx.Assert(all, "every part of the sheet is deposited once")
}

// Subsampling lengths which do not divide the segment are refused.
//vx: mode=real split timeout=300 unwind=4000000 clock=fixed
func VX_C09_subsample() {
	NumCores = 1
	segs := []int{1, 2, 4, 8, 3, 6}[vx.Choose("seg", 0, 5)]
	k := vx.Choose("length", -3, 17)
	hd := &io.SheetHeader{}
	hd.SegmentWidth, hd.GridWidth = int64(segs), int64(segs+1)
	hd.GridCount = hd.GridWidth * hd.GridWidth * hd.GridWidth
	hd.TotalWidth = 100
	for j := 0; j < 3; j++ {
		hd.Width[j] = 10
	}
	file := vx.Temp() + "/sheet.dat"
	io.WriteSheet(file, hd, make([]geom.Vec, hd.GridCount), make([]geom.Vec, hd.GridCount))
	b := NewBox(100, 1, 2, density.Density, c09config([3]float64{}, [3]float64{99, 99, 99}, -1))
	man, err := NewManager([]string{file}, []Box{b}, false, density.Density)
	vx.Assert(err == nil, "sheets can be rendered")
	refused := vx.Catch(func() { man.Subsample(k) })
	good := (k == 1 || k == 2 || k == 4 || k == 8 || k == 16) && segs%k == 0
	vx.Assert(refused == !good, "subsampling lengths that do not divide the segment are refused")
}
