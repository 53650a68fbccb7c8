//vx:pkg render/density
package density

import (
	"github.com/phil-mansfield/gotetra/render/geom"
	vx "github.com/phil-mansfield/gotetra/zzvx"
)

// c09recorder is an interpolator which adds up what it is given.
type c09recorder struct {
	cb    geom.CellBounds
	cells int
	calls int
	x, v  [3]float64
	pts   int
	ptVal float64
	same  bool
}

func (r *c09recorder) DomainCellBounds() *geom.CellBounds { return &r.cb }
func (r *c09recorder) BufferCellBounds() *geom.CellBounds { return &r.cb }
func (r *c09recorder) Cells() int                         { return r.cells }
func (r *c09recorder) Interpolate(buf Buffer, xs, vs []geom.Vec, ptVal float64, weights Buffer, low, high, jump int) {
	r.calls++
	w, _ := weights.VectorBuffer()
	for i := low; i < high; i += jump {
		r.pts++
		r.same = vx.And(r.same, vx.EqR(ptVal, r.ptVal))
		for k := 0; k < 3; k++ {
			r.x[k] += float64(xs[i][k])
			if len(w) > 0 {
				r.v[k] += w[i][k]
			}
		}
	}
}

// Every number of workers in every order: arbitrary velocities tell which tetrahedra were done how often.
//vx: mode=real split timeout=300 unwind=100000 clock=fixed
func VX_C09_cubes() {
	seg := []int{1, 2, 3, 4, 6, 8}[vx.Choose("seg", 0, 4+vx.Tier())]
	skip := 1 << uint(vx.Choose("skip", 0, 3))
	vx.Assume(seg%skip == 0)
	workers := []int{1, 2, 3, 4, 5, 7, 9, 16}[vx.Choose("workers", 0, 5+2*vx.Tier())]
	first := vx.Choose("first", 0, workers-1)
	q := []Quantity{Density, Velocity}[vx.Choose("q", 0, 1)]
	vx.Assume(seg <= 3 || first == workers/2 && (q == Velocity || seg == 4))
	points := 1 + seg%2
	grid := seg + 1
	xs, vs := make([]geom.Vec, grid*grid*grid), make([]geom.Vec, grid*grid*grid)
	for i := range xs {
		xs[i] = geom.Vec{float32(i % grid), float32(i / grid % grid), float32(i / (grid * grid))}
		vs[i] = geom.Vec{vx.F32("vx", -9, 9), xs[i][1] * xs[i][2], 2}
	}
	unit := [][]geom.Vec{make([]geom.Vec, points)}
	for i := range unit[0] {
		unit[0][i] = geom.Vec{1.0 / 16, 1.0 / 8, float32(1+i) / 4}
	}
	cells := 4 * grid
	ptVal := 48.0

	// What is expected: each cube of the coarser grid once, cut into six tetrahedra.
	var x, v [3]float64
	idxs, tet, out := &geom.TetraIdxs{}, &geom.Tetra{}, make([]geom.Vec, points)
	for z := 0; z < seg; z += skip {
		for y := 0; y < seg; y += skip {
			for xx := 0; xx < seg; xx += skip {
				for dir := 0; dir < 6; dir++ {
					idxs.Init(int64(xx+y*grid+z*grid*grid), int64(grid), int64(skip), dir)
					for which, vecs := range [][]geom.Vec{xs, vs} {
						tet.Init(&vecs[idxs[0]], &vecs[idxs[1]], &vecs[idxs[2]], &vecs[idxs[3]])
						tet.DistributeTetra(unit[0], out)
						for i := range out {
							for k := 0; k < 3; k++ {
								if which == 0 {
									x[k] += float64(out[i][k])
								} else {
									v[k] += float64(out[i][k])
								}
							}
						}
					}
				}
			}
		}
	}
	n := seg / skip
	rec := &c09recorder{cells: cells, same: true}
	rec.cb.Width = [3]int{cells, cells, cells}
	rec.ptVal = ptVal / float64(points) / 6 * float64(skip*skip*skip)
	if q == Velocity {
		rec.ptVal = ptVal
	}
	for w := 0; w < workers; w++ {
		buf := NewBuffer(q, 1, points, geom.NewGridLocation([3]int{}, [3]int{1, 1, 1}, 1, 1))
		intr := MonteCarlo(int64(seg), points, cells, int64(skip), unit, rec)
		intr.Interpolate(buf, xs, vs, ptVal, NilBuffer, (w+first)%workers, n*n*n, workers)
	}
	vx.Assert(rec.calls == 6*n*n*n && rec.pts == points*6*n*n*n, "as many tetrahedra as there are in the sheet")
	vx.Assert(rec.same, "every sample stands for its share of the sheet")
	for k := 0; k < 3; k++ {
		vx.Assert(vx.EqR(rec.x[k], x[k]), "every tetrahedron once")
		if q == Velocity {
			vx.Assert(vx.EqR(rec.v[k], v[k]), "every tetrahedron once")
		}
	}
}
