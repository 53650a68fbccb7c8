//vx:pkg render/halo
package halo

import (
	vx "github.com/phil-mansfield/gotetra/zzvx"
)

func c40mod(x, w int) int {
	return ((x % w) + w) % w
}

// Bounds are somewhere in the box, up to as wide as it, and may reach across its edge. Cells are given by their
// number in the box or, across the edge, by a number of up to twice the width of the box.
//vx: mode=real split timeout=300
func VX_C40_inside() {
	w := vx.Int("w", 1, 5000)
	b := &Bounds{}
	var x [3]int
	for k := 0; k < 3; k++ {
		b.Origin[k], b.Span[k] = vx.Int("origin", 0, 4999), vx.Int("span", 1, 5000)
		x[k] = vx.Int("x", 0, 9999)
		vx.Assume(vx.And(b.Origin[k] < w, b.Span[k] <= w))
		vx.Assume(x[k] < 2*w)
	}
	before := *b
	for k := 0; k < 3; k++ {
		// The cell's place after the first of the bounds.
		d := x[k] - b.Origin[k]
		d = vx.IfI(d < 0, d+w, d)
		d = vx.IfI(d >= w, d-w, d)
		in := b.Inside(x[k], w, k)
		vx.Assert(in == (d < b.Span[k]), "a cell is inside if it is one of the cells of the bounds")
	}
	vx.Assert(*b == before, "bounds are left alone")
}

//vx: mode=real split timeout=300
func VX_C40_convert() {
	w := vx.Int("w", 1, 5000)
	b := &Bounds{}
	var x [3]int
	for k := 0; k < 3; k++ {
		b.Origin[k], b.Span[k] = vx.Int("origin", 0, 4999), vx.Int("span", 1, 5000)
		x[k] = vx.Int("x", 0, 9999)
		vx.Assume(vx.And(b.Origin[k] < w, b.Span[k] <= w))
		vx.Assume(x[k] < 2*w)
	}
	var got [3]int
	got[0], got[1], got[2] = b.ConvertIndices(x[0], x[1], x[2], w)
	for k := 0; k < 3; k++ {
		d := x[k] - b.Origin[k]
		d = vx.IfI(d < 0, d+w, d)
		d = vx.IfI(d >= w, d-w, d)
		vx.Assert(got[k] == d, "indices count from the start of the bounds")
		vx.Assert(vx.Or(!b.Inside(x[k], w, k), vx.And(got[k] >= 0, got[k] < b.Span[k])), "cells inside of the bounds have a place in their grid")
	}
}

// The first and the last layers of the bounds of a sphere touch it, in boxes larger than the sphere.
//vx: mode=real split timeout=300 maxpath=40000
func VX_C40_tight() {
	cells := vx.Choose("cells", 1, 5)
	width := 10.0
	cw := width / float64(cells)
	k := vx.Choose("axis", 0, 2)
	pos := [3]float64{1, 2, 3}
	f := vx.F64("f", 0, 1)
	vx.Assume(f < 1)
	pos[k] = (float64(vx.Choose("cell", 0, cells-1)) + f) * cw
	r := vx.F64("r", 0, 5)
	vx.Assume(r < 5)
	b := &Bounds{}
	b.SphereBounds(pos, r, cw, width)
	lo, hi := pos[k]-r, pos[k]+r
	o, e := float64(b.Origin[k])*cw, float64(b.Origin[k]+b.Span[k])*cw
	ok := false
	for s := 0; s < 2; s++ {
		d := float64(s) * width
		ok = vx.Or(ok, vx.And(vx.And(o <= lo+d, lo+d < o+cw), vx.And(e-cw <= hi+d, hi+d < e)))
	}
	vx.Assert(ok, "the bounds of a sphere are no larger than they must be")
	vx.Assert(vx.And(b.Origin[k] >= 0, b.Origin[k] < cells), "bounds start in the box")
}

// A cell is blanked out of a halo's grid if and only if it is one of those around the other sphere, whatever
// edges of the box the two reach across.
//vx: mode=real split timeout=300 maxpath=40000 unwind=4000
func VX_C40_shared() {
	const cells, width = 6, 6.0
	k := vx.Choose("axis", 0, 2)
	var bs [2]Bounds
	for i := range bs {
		pos := [3]float64{0.5, 3.5, 5.5}
		f := vx.F64("f", 0, 1)
		vx.Assume(f < 1)
		pos[k] = float64(vx.Choose("cell", 0, cells-1)) + f
		r := float64(vx.Choose("r", 0, 2)) + 0.25
		bs[i].SphereBounds(pos, r, 1, width)
	}
	a, b := &bs[0], &bs[1]
	seen := make([]bool, cells)
	var at [3]int
	for i := range at {
		at[i] = a.Origin[i]
	}
	for x := b.Origin[k]; x < b.Origin[k]+b.Span[k]; x++ {
		if !a.Inside(x, cells, k) {
			continue
		}
		at[k] = x
		var got [3]int
		got[0], got[1], got[2] = a.ConvertIndices(at[0], at[1], at[2], cells)
		vx.Assert(got[k] >= 0 && got[k] < a.Span[k], "shared cells have a place in the grid")
		seen[got[k]] = true
		for i := 0; i < 3; i++ {
			vx.Assert(i == k || got[i] == 0, "other axes are not affected")
		}
	}
	for j := 0; j < a.Span[k]; j++ {
		c := c40mod(a.Origin[k]+j, cells)
		in := c40mod(c-b.Origin[k], cells) < b.Span[k]
		vx.Assert(seen[j] == in, "the cells of both are those that are found")
	}
}
