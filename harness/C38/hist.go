//vx:pkg render
package render

import (
	"fmt"
	"os"

	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
	vx "github.com/phil-mansfield/gotetra/zzvx"
)

const c38L = 16

func c38mod(x int) int { return (x%c38L + c38L) % c38L }

// c38segment writes a segment of w cubes per side. Its planes along each axis are at c + at[k] (modulo the box).
func c38segment(file string, w int, c [3]int, at [3][]float64) {
	hd := &io.SheetHeader{}
	hd.CountWidth, hd.Count, hd.Cells = int64(4*w), int64(64*w*w*w), 4
	hd.Cosmo.H100 = 0.7
	hd.SegmentWidth, hd.GridWidth, hd.GridCount = int64(w), int64(w+1), int64((w+1)*(w+1)*(w+1))
	hd.TotalWidth, hd.Mass = c38L, 1
	n := w + 1
	xs, vs := make([]geom.Vec, n*n*n), make([]geom.Vec, n*n*n)
	for k := 0; k < 3; k++ {
		p := make([]float64, n)
		for i := range p {
			p[i] = float64(c[k]) + at[k][i]
			p[i] = vx.IfF(p[i] < 0, p[i]+c38L, vx.IfF(p[i] >= c38L, p[i]-c38L, p[i]))
		}
		for i := range xs {
			xs[i][k] = float32(p[[]int{i % n, i / n % n, i / n / n}[k]])
		}
		hd.Origin[k], hd.Width[k] = float32(p[0]), float32(at[k][w]-at[k][0])
	}
	io.WriteSheet(file, hd, xs, vs)
}

// c38grid writes a grid of pixels of the given width.
func c38grid(file string, org, span [3]int, pw float64, rhos []float64) {
	f, err := os.Create(file)
	vx.Assert(err == nil, "setup")
	io.WriteBuffer(density.WrapperDensityBuffer(rhos), io.NewCosmoInfo(70, 0.3, 0.7, 0, c38L), io.NewRenderInfo(1, int(c38L/pw), 1, ""), io.NewLocationInfo(org, span, pw), f)
	f.Close()
}


// The workers of histograms: arbitrary densities, so arbitrary bins.
func c38hist(workers int) {
	dir := vx.Temp()
	NumCores = workers
	pts := 1 + workers%2
	w := vx.Choose("cubes", 1, 2)
	segs := vx.Choose("sheets", 1, 2)
	var files []string
	a, b := 0.25, 0.5
	if workers == 2 && segs == 1 {
		b = vx.F64("after", 1.0/64, 63.0/64)
	}
	p := []float64{1 - a, 1, 1 + b}[:w+1]
	if w == 1 {
		p = []float64{a / 2, (1 + b) / 2}
	}
	flat := []float64{0.75, 1, 1.5}[:w+1]
	if w == 1 {
		flat = []float64{0.125, 0.75}
	}
	for i := 0; i < segs; i++ {
		file := fmt.Sprintf("%s/sheet%d", dir, i)
		c38segment(file, w, [3]int{15 - i, 6, 10}, [3][]float64{p, flat, flat})
		files = append(files, file)
	}
	rhos := make([]float64, 16*2*2)
	for i := range rhos {
		rhos[i] = 1000
	}
	for i := 0; i < 4; i++ {
		rhos[[]int{15, 0, 14, 15 + 16}[i]] = vx.F64(fmt.Sprint("rho", i), 0, 14)
	}
	c38grid(dir+"/grid", [3]int{0, 6, 10}, [3]int{16, 2, 2}, 1, rhos)
	boxes := []HistBox{{Origin: [3]float64{14, 2, 4}, Span: [3]float64{4, 8, 10}}}
	if segs == 1 {
		boxes = append(boxes, HistBox{Origin: [3]float64{1, 2, 4}, Span: [3]float64{15, 8, 10}})
	}
	man, err := NewHistManager(files, boxes, pts, "Density", dir+"/grid")
	vx.Assert(err == nil, "the manager is made")
	man.Subsample(vx.Choose("skip", 1, w))
	info := &HistInfo{Min: 1, Max: 13, Bins: 3, Scale: "linear"}
	if w == 1 {
		info.Scale = "log"
	}
	vx.Assert(man.Hist(info) == nil, "the histogram is made")
	if w == 1 {
		vx.Assert(man.Hist(info) == nil, "the histogram is made again")
	}
}

//vx: mode=real race clock=fixed unwind=4000000 sched=fifo timeout=400
func VX_C38_histForward() { c38hist(vx.Choose("workers", 2, 4)) }

//vx: mode=real race clock=fixed unwind=4000000 sched=lifo timeout=400
func VX_C38_histBackward() { c38hist(vx.Choose("workers", 2, 4)) }

// Every order of two or three workers.
//vx: mode=real race clock=fixed unwind=4000000 timeout=400
func VX_C38_histOrders() {
	c38hist(vx.Choose("workers", 2, 2+vx.Tier()))
}
