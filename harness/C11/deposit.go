//vx:pkg render
package render

import (
	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
	vx "github.com/phil-mansfield/gotetra/zzvx"
)

// c11setup is a region and a segment in a periodic box which is cells pixels wide.
type c11setup struct {
	cells    int
	cw       float64
	off      float32 // where the segment starts in its first pixel
	lo, span [3]int // the region's pixels
	at, n    [3]int // the segment's pixels
	proj     int
	q        density.Quantity
	box      Box
	hd       *io.SheetHeader
}

func (s *c11setup) make() {
	width := s.cw * float64(s.cells)
	config := &io.BoxConfig{}
	config.X, config.Y, config.Z = s.cw*float64(s.lo[0]), s.cw*float64(s.lo[1]), s.cw*float64(s.lo[2])
	// Regions end in the middle of their last pixel.
	config.XWidth, config.YWidth, config.ZWidth = s.cw*(float64(s.span[0])-0.5), s.cw*(float64(s.span[1])-0.5), s.cw*(float64(s.span[2])-0.5)
	if s.proj >= 0 {
		config.ProjectionAxis = string("XYZ"[s.proj])
	}
	s.box = NewBox(width, 4, s.cells, s.q, config)
	hd := &io.SheetHeader{}
	hd.TotalWidth = width
	for k := 0; k < 3; k++ {
		hd.Origin[k] = float32(s.cw * (float64(s.at[k]) + float64(s.off)))
		hd.Width[k] = float32(s.cw * (float64(s.n[k]) - 0.25 - float64(s.off)))
	}
	s.hd = hd
}

// c11point is a point of the segment: somewhere in the segment's pixel p on every axis.
func (s *c11setup) point(name string, p [3]int) geom.Vec {
	var v geom.Vec
	for k := 0; k < 3; k++ {
		f := vx.F32(name, 0, 1)
		// At the start of the pixel or well inside it, and inside the segment.
		vx.Assume(vx.Or(f == 0, vx.And(f >= 1.0/64, f <= 1-1.0/64)))
		if p[k] == 0 {
			vx.Assume(f >= s.off)
		}
		if p[k] == s.n[k]-1 {
			vx.Assume(f <= 0.75)
		}
		v[k] = float32(s.cw) * (float32((s.at[k]+p[k])%s.cells) + f)
	}
	return v
}

// pixel is the place of the segment's pixel p in the image, if it is there.
func (s *c11setup) pixel(p [3]int) (idx int, ok bool) {
	stride := 1
	for k := 0; k < 3; k++ {
		rel := (s.at[k] + p[k] - s.lo[k] + 2*s.cells) % s.cells
		if rel >= s.span[k] {
			return 0, false
		}
		if k != s.proj {
			idx += rel * stride
			stride *= s.span[k]
		}
	}
	return idx, true
}

func (s *c11setup) depth() float64 {
	if s.proj < 0 {
		return 1
	}
	return float64(s.span[s.proj])
}

// scalar deposits points (of the given pixels of the segment) into an image with arbitrary contents.
func (s *c11setup) scalar(pts [][3]int, weighted bool) {
	s.q = density.Density
	s.make()
	xs := make([]geom.Vec, len(pts))
	want := make([]float64, s.box.Vals().Length())
	img, ok := s.box.Vals().ScalarBuffer()
	vx.Assert(ok, "the image of a scalar has values")
	for i := range img {
		img[i] = vx.F64("before", -100, 100)
		want[i] = img[i]
	}
	ptVal := vx.F64("ptVal", 0, 100)
	ws := make([]float64, len(pts))
	weights := density.Buffer(density.NilBuffer)
	for i, p := range pts {
		xs[i] = s.point("x", p)
		w := 1.0
		if weighted {
			ws[i] = vx.F64("w", -10, 10)
			w = ws[i]
		}
		if idx, in := s.pixel(p); in {
			want[idx] += ptVal * w / s.depth()
		}
	}
	if weighted {
		weights = density.WrapperDensityBuffer(ws)
	}
	over := s.box.Overlap(s.hd)
	buf := density.NewBuffer(s.q, over.BufferSize(), 4, nil)
	over.ScaleVecs(xs, s.hd.CellBounds(s.cells))
	over.Interpolate(buf, xs, nil, ptVal, weights, 0, len(xs), 1)
	over.Add(buf, s.box.Vals())
	same := true
	for i := range img {
		same = vx.And(same, vx.EqR(img[i], want[i]))
	}
	vx.Assert(same, "every point adds its weight to the pixel that contains it and to no other")
}

// vector does the same with a velocity per point.
func (s *c11setup) vector(pts [][3]int) {
	s.q = density.Velocity
	s.make()
	xs, vs := make([]geom.Vec, len(pts)), make([]geom.Vec, len(pts))
	want, num := make([][3]float64, s.box.Vals().Length()), make([]int, s.box.Vals().Length())
	img, ok := s.box.Vals().VectorBuffer()
	counts, okc := s.box.Vals().CountBuffer()
	vx.Assert(ok && okc, "the image of a mean vector has sums and counts")
	for i := range img {
		for k := 0; k < 3; k++ {
			img[i][k] = vx.F64("before", -100, 100)
		}
		counts[i] = i
		want[i], num[i] = img[i], i
	}
	ptVal := vx.F64("ptVal", 0, 100)
	for i, p := range pts {
		xs[i] = s.point("x", p)
		for k := 0; k < 3; k++ {
			vs[i][k] = vx.F32("v", -100, 100)
		}
		if idx, in := s.pixel(p); in {
			num[idx]++
			for k := 0; k < 3; k++ {
				want[idx][k] += ptVal * float64(vs[i][k])
			}
		}
	}
	weights := density.NewBuffer(density.Velocity, len(pts), 0, nil)
	weights.SetVectors(vs)
	over := s.box.Overlap(s.hd)
	buf := density.NewBuffer(s.q, over.BufferSize(), 4, nil)
	over.ScaleVecs(xs, s.hd.CellBounds(s.cells))
	over.Interpolate(buf, xs, nil, ptVal, weights, 0, len(xs), 1)
	over.Add(buf, s.box.Vals())
	same, once := true, true
	for i := range img {
		for k := 0; k < 3; k++ {
			same = vx.And(same, vx.EqR(img[i][k], want[i][k]))
		}
		once = once && counts[i] == num[i]
	}
	vx.Assert(same, "every point adds its velocity to the pixel that contains it and to no other")
	vx.Assert(once, "every point is counted in the pixel that contains it and in no other")
}

// c11any chooses a segment and a region; they are arbitrary along one axis. It gives the pixel of a point.
func c11any(cells int) (*c11setup, [3]int) {
	s := &c11setup{cells: cells, cw: 1}
	k := vx.Choose("axis", 0, 2)
	s.proj = vx.Choose("proj", -1, 2)
	// Along the other axes.
	other := vx.Choose("other", 0, 2)
	var p [3]int
	for j := 0; j < 3; j++ {
		s.lo[j], s.span[j] = 1, 2
		switch other {
		case 0: // A small segment that reaches out of the region.
			s.at[j], s.n[j], p[j] = 2, 2, (j+k)%2
		case 1: // A large one, across the edge of the box.
			s.at[j], s.n[j], p[j] = cells-2, cells-1, 2+(j+k)%2
		case 2: // Both are across the edge.
			s.lo[j], s.at[j], s.n[j], p[j] = cells-1, cells-2, 4, 1+(j+k)%2
		}
	}
	s.cw, s.off = float64(1+other), float32((k+other+s.proj+1)%2)/4
	s.lo[k], s.span[k] = vx.Choose("lo", 0, cells-1), vx.Choose("span", 1, cells)
	s.at[k], s.n[k] = vx.Choose("at", 0, cells-1), vx.Choose("n", 1, cells)
	p[k] = vx.Choose("p", 0, s.n[k]-1)
	return s, p
}

// One point at any place of any segment, and any region.
//vx: mode=real split timeout=400 maxpath=400000 unwind=4000
func VX_C11_scalar() {
	s, p := c11any(5 + vx.Tier())
	if vx.Tier() == 0 {
		vx.Assume((s.lo[0]+s.lo[1]+s.lo[2]+s.span[0]+s.at[1]+s.n[2]+p[0]+2*p[1])%4 == 1)
	}
	s.scalar([][3]int{p}, (p[0]+p[1]+p[2])%2 == 0)
}

// Several points, in the same pixel or not.
//vx: mode=real split timeout=400 maxpath=400000 unwind=4000
func VX_C11_points() {
	s := &c11setup{cells: 6, cw: 0.5, proj: vx.Choose("proj", -1, 2)}
	for k := 0; k < 3; k++ {
		s.lo[k], s.span[k], s.n[k] = 4, 3, 2+vx.Choose("large", 0, 1)*3
		s.at[k] = (4*k + 5) % 6
	}
	pts := make([][3]int, 3)
	for i := range pts {
		for k := 0; k < 3; k++ {
			pts[i][k] = vx.Choose("p", 0, 1)
		}
	}
	if vx.Tier() == 0 {
		vx.Assume(pts[0][0] == 0 && pts[1][1] == pts[2][0] && pts[0][2] == pts[1][0])
	}
	s.scalar(pts, pts[0][1] == 1)
}

// A point with a velocity at any place of any segment.
//vx: mode=real split timeout=400 maxpath=400000 unwind=4000
func VX_C11_vector() {
	s, p := c11any(5)
	t := (s.lo[0] + s.lo[1] + s.lo[2] + s.span[0] + s.at[1] + s.n[2] + p[0] + 2*p[1])
	vx.Assume(vx.Tier() == 1 && t%2 == 0 || t%10 == 3)
	s.vector([][3]int{p, {0, 0, 0}})
}
