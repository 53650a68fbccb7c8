//vx:pkg render
package render

import (
	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
	vx "github.com/phil-mansfield/gotetra/zzvx"
)

const c12cells = 6

// c12box is a region of lo[k], ..., lo[k]+span[k]-1 pixels.
func c12box(q density.Quantity, lo, span [3]int, proj int) Box {
	config := &io.BoxConfig{}
	config.X, config.Y, config.Z = float64(lo[0]), float64(lo[1]), float64(lo[2])
	config.XWidth, config.YWidth, config.ZWidth = float64(span[0])-0.5, float64(span[1])-0.5, float64(span[2])-0.5
	if proj >= 0 {
		config.ProjectionAxis = string("XYZ"[proj])
	}
	return NewBox(c12cells, 4, c12cells, q, config)
}

func c12header(at, n [3]int) *io.SheetHeader {
	hd := &io.SheetHeader{}
	hd.TotalWidth = c12cells
	for k := 0; k < 3; k++ {
		hd.Origin[k], hd.Width[k] = float32(at[k])+0.25, float32(n[k])-0.5
	}
	return hd
}

// c12deposit deposits the points into the image through a segment with the given header, shared between workers.
// The workers finish in the given order.
func c12deposit(b Box, hd *io.SheetHeader, q density.Quantity, xs, vs []geom.Vec, ws []float64, ptVal float64, order []int) {
	over := b.Overlap(hd)
	xs = append([]geom.Vec{}, xs...)
	over.ScaleVecs(xs, hd.CellBounds(c12cells))
	weights := density.Buffer(density.NilBuffer)
	if vs != nil {
		weights = density.NewBuffer(density.Velocity, len(vs), 0, nil)
		weights.SetVectors(vs)
	} else if ws != nil {
		weights = density.WrapperDensityBuffer(ws)
	}
	g := geom.NewGridLocation(b.CellOrigin(), b.CellSpan(), c12cells, c12cells)
	for _, id := range order {
		buf := density.NewBuffer(q, over.BufferSize(), 4, g)
		over.Interpolate(buf, xs, nil, ptVal, weights, id, len(xs), len(order))
		over.Add(buf, b.Vals())
	}
}

func c12same(a, b Box) bool {
	same := a.Vals().Length() == b.Vals().Length()
	if x, ok := a.Vals().ScalarBuffer(); ok {
		y, _ := b.Vals().ScalarBuffer()
		for i := range x {
			same = vx.And(same, vx.EqR(x[i], y[i]))
		}
	}
	if x, ok := a.Vals().VectorBuffer(); ok {
		y, _ := b.Vals().VectorBuffer()
		nx, okx := a.Vals().CountBuffer()
		ny, oky := b.Vals().CountBuffer()
		same = same && okx && oky
		for i := range x {
			same = vx.And(same, nx[i] == ny[i])
			for k := 0; k < 3; k++ {
				same = vx.And(same, vx.EqR(x[i][k], y[i][k]))
			}
		}
	}
	return same
}

// c12points are points in the segment's pixels; on axis k, somewhere in the given ones. On the other axes all
// of them are in pixel 1, but for the second point.
func c12points(at [3]int, k int, p []int) []geom.Vec {
	xs := make([]geom.Vec, len(p))
	for i := range xs {
		for j := 0; j < 3; j++ {
			f := vx.F32("x", 0, 1)
			vx.Assume(vx.And(f >= 0.25, f <= 0.75))
			c := 1
			if i == 1 {
				c = j % 2
			}
			if j == k {
				c = p[i]
			}
			xs[i][j] = float32((at[j]+c)%c12cells) + f
		}
	}
	return xs
}

// A segment known by a tight box (deposited into a buffer of its own) and by a large one (deposited directly).
//vx: mode=real split timeout=400 maxpath=400000 unwind=4000
func VX_C12_paths() {
	k := vx.Choose("axis", 0, 2)
	proj := vx.Choose("proj", -1, 2)
	q := []density.Quantity{density.Density, density.Velocity, density.DensityGradient, density.VelocityDivergence, density.VelocityCurl}[vx.Choose("q", 0, 2+2*vx.Tier())]
	vx.Assume(q.CanProject() || proj == -1)
	var lo, span, at [3]int
	for j := 0; j < 3; j++ {
		lo[j], span[j], at[j] = 5, 2, 4
	}
	lo[k], span[k], at[k] = vx.Choose("lo", 0, 5), vx.Choose("span", 1, 6), vx.Choose("at", 0, 5)
	xs := c12points(at, k, []int{vx.Choose("p", 0, 1), 0, 1})
	n, large := [3]int{2, 2, 2}, [3]int{}
	atLarge := [3]int{}
	for j := 0; j < 3; j++ {
		large[j], atLarge[j] = 6, at[j]
	}
	var vs []geom.Vec
	var ws []float64
	if q.RequiresVelocity() {
		for range xs {
			vs = append(vs, geom.Vec{vx.F32("v", -9, 9), vx.F32("v", -9, 9), vx.F32("v", -9, 9)})
		}
	} else if lo[k]%2 == 0 {
		for range xs {
			ws = append(ws, vx.F64("w", -9, 9))
		}
	}
	ptVal := vx.F64("ptVal", 0, 9)
	a, b := c12box(q, lo, span, proj), c12box(q, lo, span, proj)
	c12deposit(a, c12header(at, n), q, xs, vs, ws, ptVal, []int{0, 1})
	c12deposit(b, c12header(atLarge, large), q, xs, vs, ws, ptVal, []int{0})
	vx.Assert(c12same(a, b), "the image does not depend on how the segment is deposited")
}

// Any number of workers that finish in any order.
//vx: mode=real split timeout=400 maxpath=400000 unwind=4000
func VX_C12_workers() {
	proj := vx.Choose("proj", -1, 2)
	q := []density.Quantity{density.Density, density.Velocity}[vx.Choose("q", 0, 1)]
	at := [3]int{4, 2, 0}
	n := [3]int{2, 2, 2}
	if vx.Choose("large", 0, 1) == 1 {
		n = [3]int{6, 6, 6}
	}
	k := vx.Choose("axis", 0, 2)
	xs := c12points(at, k, []int{1, 0, 1, 1})
	var vs []geom.Vec
	if q.RequiresVelocity() {
		for range xs {
			vs = append(vs, geom.Vec{vx.F32("v", -9, 9), vx.F32("v", -9, 9), vx.F32("v", -9, 9)})
		}
	}
	ptVal := vx.F64("ptVal", 0, 9)
	lo, span := [3]int{5, 3, 1}, [3]int{2, 2, 2}
	a, b := c12box(q, lo, span, proj), c12box(q, lo, span, proj)
	c12deposit(a, c12header(at, n), q, xs, vs, nil, ptVal, []int{0})
	order := [][]int{{0, 1}, {1, 0}, {0, 1, 2}, {2, 1, 0}, {1, 2, 0}, {2, 0, 1}, {4, 3, 2, 1, 0}}[vx.Choose("order", 0, 6)]
	c12deposit(b, c12header(at, n), q, xs, vs, nil, ptVal, order)
	vx.Assert(c12same(a, b), "the image does not depend on the workers")
}
