//vx:pkg render
package render

import (
	"fmt"
	"os"

	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
	vx "github.com/phil-mansfield/gotetra/zzvx"
)

const c33L = 16

func c33mod(x int) int { return (x%c33L + c33L) % c33L }

// c33segment writes a segment of w cubes per side. Its planes along each axis are at c + at[k] (modulo the box).
func c33segment(file string, w int, c [3]int, at [3][]float64) {
	hd := &io.SheetHeader{}
	hd.CountWidth, hd.Count, hd.Cells = int64(4*w), int64(64*w*w*w), 4
	hd.Cosmo.H100 = 0.7
	hd.SegmentWidth, hd.GridWidth, hd.GridCount = int64(w), int64(w+1), int64((w+1)*(w+1)*(w+1))
	hd.TotalWidth, hd.Mass = c33L, 1
	n := w + 1
	xs, vs := make([]geom.Vec, n*n*n), make([]geom.Vec, n*n*n)
	for k := 0; k < 3; k++ {
		p := make([]float64, n)
		for i := range p {
			p[i] = float64(c[k]) + at[k][i]
			p[i] = vx.IfF(p[i] < 0, p[i]+c33L, vx.IfF(p[i] >= c33L, p[i]-c33L, p[i]))
		}
		for i := range xs {
			xs[i][k] = float32(p[[]int{i % n, i / n % n, i / n / n}[k]])
		}
		hd.Origin[k], hd.Width[k] = float32(p[0]), float32(at[k][w]-at[k][0])
	}
	io.WriteSheet(file, hd, xs, vs)
}

// c33grid writes a grid of pixels of the given width.
func c33grid(file string, org, span [3]int, pw float64, rhos []float64) {
	f, err := os.Create(file)
	vx.Assert(err == nil, "setup")
	io.WriteBuffer(density.WrapperDensityBuffer(rhos), io.NewCosmoInfo(70, 0.3, 0.7, 0, c33L), io.NewRenderInfo(1, int(c33L/pw), 1, ""), io.NewLocationInfo(org, span, pw), f)
	f.Close()
}

// Planes between which every cube lies in one pixel of width 1 (or, if wide, in one of width 2).
func c33planes(w int, wide, sym bool) []float64 {
	a, b := 0.25, 0.5
	if sym {
		a, b = vx.F64("before", 1.0/64, 63.0/64), vx.F64("after", 1.0/64, 63.0/64)
	}
	if wide {
		return []float64{1 - a, 1, 1 + b}
	}
	if w == 1 {
		return []float64{a / 2, (1 + b) / 2}
	}
	p := []float64{1 - a, 1, 1 + b}
	for len(p) < w+1 {
		p[len(p)-1] = float64(len(p) - 1)
		p = append(p, float64(len(p)-1)+b)
	}
	return p
}

func c33within(org, span, pix, pw int) bool { return c33mod(pix-org) < span }

// Every point drawn in a region is counted once, with the density of its pixel.
//vx: mode=real clock=fixed unwind=4000000 sched=fifo timeout=400
func VX_C33_hist() {
	dir := vx.Temp()
	w := vx.Choose("cubes", 1, 2)
	skip := vx.Choose("skip", 1, w)
	k := vx.Choose("axis", 0, 2)
	wide := skip == 2
	pw := skip
	// The pixels which the cubes are in.
	c := [3]int{2, 6, 10}
	place := vx.Choose("at", 0, 3+4*vx.Tier())
	c[k] = pw * (([]int{15, 0, 5, 14, 7, 1, 4, 13}[place]) % (c33L / pw))
	// Workers and points follow the other choices.
	NumCores = 1 + (place+k+w)%(3+vx.Tier())
	pts := 1 + (place+k)%2
	at := [3][]float64{}
	for j := range at {
		at[j] = c33planes(w, wide, j == k)
	}
	c33segment(dir+"/a", w, c, at)
	nc := w / skip
	// The grid has all or a part of the box.
	org, span := [3]int{}, [3]int{c33L / pw, c33L / pw, c33L / pw}
	switch vx.Choose("grid", 0, 2) {
	case 1:
		org, span = [3]int{2 / pw, 6 / pw, 10 / pw}, [3]int{4, 3, 2}
		org[k], span[k] = 12/pw, 8/pw
	case 2:
		org, span = [3]int{0, 4 / pw, 8 / pw}, [3]int{5, 6, 4}
		org[k], span[k] = 5, 1
	}
	rhos := make([]float64, span[0]*span[1]*span[2])
	for i := range rhos {
		rhos[i] = 1000
	}
	info := &HistInfo{Min: 1, Max: 13, Bins: 3, Scale: "linear"}
	box := HistBox{Origin: [3]float64{1, 2, 4}, Span: [3]float64{6, 8, 10}}
	b0, bw := 0, c33L
	switch vx.Choose("region", 0, 4) {
	case 1:
		b0, bw = 14, 6
	case 2:
		b0, bw = c[k], pw
	case 3:
		b0, bw = c33mod(c[k]+pw), pw
	case 4:
		b0, bw = c33mod(c[k]-pw), pw
	}
	box.Origin[k], box.Span[k] = float64(b0), float64(bw)
	want := make([]int, 3)
	for z := 0; z < nc; z++ {
		for y := 0; y < nc; y++ {
			for x := 0; x < nc; x++ {
				i, idx := [3]int{x, y, z}, [3]int{}
				in := c33within(b0, bw, c[k]+i[k]*pw, pw)
				for j := range idx {
					idx[j] = (c33mod(c[j]+i[j]*pw-org[j]*pw)) / pw
					in = in && idx[j] < span[j]
				}
				if !in {
					continue
				}
				rho := vx.F64(fmt.Sprint("rho", x, y, z), 0, 14)
				rhos[idx[0]+span[0]*(idx[1]+span[1]*idx[2])] = rho
				for b := range want {
					want[b] += vx.IfI(vx.And(float64(1+4*b) <= rho, rho < float64(5+4*b)), geom.TetraDirCount*pts, 0)
				}
			}
		}
	}
	c33grid(dir+"/grid", org, span, float64(pw), rhos)
	boxes := []HistBox{box}
	man, err := NewHistManager([]string{dir + "/a"}, boxes, pts, "Density", dir+"/grid")
	vx.Assert(err == nil, "the manager is made")
	man.Subsample(skip)
	vx.Assert(man.Hist(info) == nil, "the histogram is made")
	vx.Assert(len(boxes[0].Counts) == 3 && len(boxes[0].Centers) == 3, "every bin has a count")
	for b := range want {
		vx.Assert(boxes[0].Counts[b] == want[b], "every point in the region is counted once, in the bin around the density of its pixel")
		vx.Assert(vx.EqR(boxes[0].Centers[b], float64(3+4*b)), "centres are halfway between the limits of the bins")
	}
}
