//vx:pkg render/io
package io

import (
	"encoding/binary"
	"io/ioutil"
	"math"

	"github.com/phil-mansfield/gotetra/render/geom"
	vx "github.com/phil-mansfield/gotetra/zzvx"
)

type c04writer struct {
	b     []byte
	order binary.ByteOrder
}

func (w *c04writer) u32(x uint32) {
	var b [4]byte
	w.order.PutUint32(b[:], x)
	w.b = append(w.b, b[:]...)
}
func (w *c04writer) u64(x uint64) {
	var b [8]byte
	w.order.PutUint64(b[:], x)
	w.b = append(w.b, b[:]...)
}
func (w *c04writer) f64(x float64) { w.u64(math.Float64bits(x)) }

// c04head are the fields of a Gadget-2 header that gotetra uses.
type c04head struct {
	nPart, nTotal                 [6]uint32
	mass                          [6]float64
	time, z, box, om, ol, hubble float64
}

func (w *c04writer) header(h *c04head) {
	w.u32(256)
	start := len(w.b)
	for _, n := range h.nPart {
		w.u32(n)
	}
	for _, m := range h.mass {
		w.f64(m)
	}
	w.f64(h.time)
	w.f64(h.z)
	w.u32(vx.U32("sfr"))
	w.u32(vx.U32("feedback"))
	for _, n := range h.nTotal {
		w.u32(n)
	}
	w.u32(vx.U32("cooling"))
	w.u32(vx.U32("files"))
	w.f64(h.box)
	w.f64(h.om)
	w.f64(h.ol)
	w.f64(h.hubble)
	w.u32(vx.U32("age"))
	w.u32(vx.U32("hash"))
	for len(w.b) < start+256 {
		w.b = append(w.b, vx.U8("pad"))
	}
	w.u32(256)
}

func c04order() binary.ByteOrder {
	if vx.Choose("big", 0, 1) == 1 {
		return binary.BigEndian
	}
	return binary.LittleEndian
}

func c04write(w *c04writer) string {
	file := vx.Temp() + "/snap.0"
	vx.Assert(ioutil.WriteFile(file, w.b, 0666) == nil, "setup")
	return file
}

var c04variants = []string{"LGadget-2", "Arepo-type-2"}

// Every header, both byte orders.
//vx: mode=fp split unwind=4000 timeout=300
func VX_C04_header() {
	h := &c04head{time: vx.F64Any("time"), z: vx.F64Any("z"), box: vx.F64Any("box"),
		om: vx.F64Any("om"), ol: vx.F64Any("ol"), hubble: vx.F64Any("h")}
	for i := range h.nPart {
		h.nPart[i], h.nTotal[i], h.mass[i] = vx.U32("n"), vx.U32("nt"), vx.F64Any("m")
	}
	w := &c04writer{order: c04order()}
	w.header(h)
	hd := ReadGadgetHeader(c04write(w), w.order, c04variants[vx.Choose("variant", 0, 1)])
	vx.Assert(hd.Count == int64(h.nPart[1])+int64(h.nPart[0])*4294967296, "the number of particles in the file")
	vx.Assert(hd.TotalCount == int64(h.nTotal[1])+int64(h.nTotal[0])*4294967296, "the number of particles in the simulation")
	vx.Assert(vx.Same(hd.Mass, h.mass[1]), "the particle mass")
	vx.Assert(vx.Same(hd.TotalWidth, h.box), "the box width")
	vx.Assert(vx.Same(hd.Cosmo.Z, h.z), "the redshift")
	vx.Assert(vx.And(vx.Same(hd.Cosmo.OmegaM, h.om), vx.Same(hd.Cosmo.OmegaL, h.ol)), "the cosmology")
	vx.Assert(vx.Same(hd.Cosmo.H100, h.hubble), "the Hubble constant")
}

type c04snap struct {
	n, idSize int
	x64, v64  bool
	h         *c04head
	xs, vs    [][3]float64
	ids       []uint64
}

// c04particles writes the particle blocks.
func (w *c04writer) particles(s *c04snap) {
	vecs := func(vs [][3]float64, wide bool) {
		size := 12 * len(vs)
		if wide {
			size *= 2
		}
		w.u32(uint32(size))
		for _, v := range vs {
			for _, x := range v {
				if wide {
					w.f64(x)
				} else {
					w.u32(math.Float32bits(float32(x)))
				}
			}
		}
		w.u32(uint32(size))
	}
	vecs(s.xs, s.x64)
	vecs(s.vs, s.v64)
	w.u32(uint32(s.n * s.idSize / 8))
	for _, id := range s.ids {
		if s.idSize == 64 {
			w.u64(id)
		} else {
			w.u32(uint32(id))
		}
	}
	w.u32(uint32(s.n * s.idSize / 8))
}

func c04new(n int) *c04snap {
	s := &c04snap{n: n, h: &c04head{time: 1, box: 64}, xs: make([][3]float64, n), vs: make([][3]float64, n), ids: make([]uint64, n)}
	s.h.nPart[1], s.h.nTotal[1] = uint32(n), uint32(n)
	s.idSize = 32 + 32*vx.Choose("id64", 0, 1)
	s.x64, s.v64 = vx.Choose("x64", 0, 1) == 1, vx.Choose("v64", 0, 1) == 1
	for i := range s.ids {
		s.ids[i] = vx.U64("id")
		if s.idSize == 32 {
			vx.Assume(s.ids[i] < 4294967296)
		}
	}
	return s
}

func (s *c04snap) read(order binary.ByteOrder, file string) (xs, vs []geom.Vec, ids []int64) {
	xs, vs, ids = make([]geom.Vec, s.n), make([]geom.Vec, s.n), make([]int64, s.n)
	for i := range xs {
		xs[i], vs[i], ids[i] = geom.Vec{-1, -1, -1}, geom.Vec{-1, -1, -1}, -1
	}
	ReadGadgetParticlesAt(file, order, xs, vs, ids, s.idSize, c04variants[0])
	return xs, vs, ids
}

// Positions inside the box, velocities and ids come back unchanged; every layout.
//vx: mode=fp split unwind=4000 timeout=300
func VX_C04_particles() {
	s := c04new(vx.Choose("n", 0, 2+vx.Tier()))
	for i := range s.xs {
		for k := 0; k < 3; k++ {
			s.xs[i][k], s.vs[i][k] = float64(vx.F32("x", 0, 64)), float64(vx.F32("v", -1e6, 1e6))
			vx.Assume(s.xs[i][k] < 64)
		}
	}
	w := &c04writer{order: c04order()}
	w.header(s.h)
	w.particles(s)
	xs, vs, ids := s.read(w.order, c04write(w))
	ok := true
	for i := range xs {
		for k := 0; k < 3; k++ {
			ok = vx.And(ok, vx.And(xs[i][k] == float32(s.xs[i][k]), vs[i][k] == float32(s.vs[i][k])))
		}
	}
	vx.Assert(ok, "positions and velocities come back unchanged")
	ok = true
	for i := range ids {
		ok = vx.And(ok, uint64(ids[i]) == s.ids[i])
	}
	vx.Assert(ok, "ids come back unchanged")
	hd, xs2, vs2, ids2 := ReadGadget(c04write(w), w.order, s.idSize, c04variants[1])
	vx.Assert(hd.Count == int64(s.n) && len(xs2) == s.n && len(vs2) == s.n && len(ids2) == s.n, "all particles are read")
	ok = true
	for i := range xs2 {
		ok = vx.And(ok, vx.And(xs2[i] == xs[i], vx.And(vs2[i] == vs[i], ids2[i] == ids[i])))
	}
	vx.Assert(ok, "both readers agree")
}

// Positions within a box width of the box are wrapped into it.
//vx: mode=fp split unwind=4000 timeout=300 solve=120 feas=2
func VX_C04_wrap() {
	box := []float64{1, 62.5, 0.1, 1000}[vx.Choose("box", 0, 3)]
	s := &c04snap{n: 1, idSize: 64, h: &c04head{time: 1, box: box}, xs: make([][3]float64, 1), vs: make([][3]float64, 1), ids: []uint64{1}}
	s.h.nPart[1], s.h.nTotal[1] = 1, 1
	k := vx.Choose("axis", 0, 2)
	if vx.Tier() == 0 {
		vx.Assume(k == int(box)%3)
	}
	x := vx.F32("x", -1000, 2000)
	vx.Assume(vx.And(float64(x) >= -box, float64(x) < 2*box))
	s.xs[0][k] = float64(x)
	s.x64 = vx.Choose("x64", 0, 1) == 1
	w := &c04writer{order: binary.LittleEndian}
	w.header(s.h)
	w.particles(s)
	xs, _, _ := s.read(w.order, c04write(w))
	got := xs[0][k]
	vx.Assert(vx.And(got >= 0, float64(got) < box), "positions are wrapped into the box")
	d := float64(got) - float64(x)
	tol := box / 4194304
	in := vx.And(d <= tol, d >= -tol)
	up := vx.And(d-box <= tol, d-box >= -tol)
	down := vx.And(d+box <= tol, d+box >= -tol)
	vx.Assert(vx.Or(in, vx.Or(up, down)), "wrapped positions are equivalent")
	if float64(x) < box && x >= 0 {
		vx.Assert(got == x, "positions in the box are kept")
	}
	vx.Assert(xs[0][(k+1)%3] == 0 && xs[0][(k+2)%3] == 0, "other axes are not affected")
}

// Velocities are multiplied with the root of the scale factor.
//vx: mode=fp split unwind=4000 timeout=300 solve=120
func VX_C04_velocity() {
	a := []float64{1, 0.25, 4, 0.5}[vx.Choose("a", 0, 3)]
	s := &c04snap{n: 1, idSize: 64, h: &c04head{time: a, box: 64}, xs: make([][3]float64, 1), vs: make([][3]float64, 1), ids: []uint64{1}}
	s.h.nPart[1], s.h.nTotal[1] = 1, 1
	k := vx.Choose("axis", 0, 2)
	v := vx.F32("v", -1e6, 1e6)
	if a == 0.5 { // The product is too hard for the solvers otherwise.
		v = []float32{-1e6, -333.25, -1, -1e-3, 0, 1e-6, 0.7, 3, 1234.5, 654321}[vx.Choose("which", 0, 9)]
	}
	s.vs[0][k] = float64(v)
	s.v64 = vx.Choose("v64", 0, 1) == 1
	w := &c04writer{order: binary.LittleEndian}
	w.header(s.h)
	w.particles(s)
	_, vs, _ := s.read(w.order, c04write(w))
	d := float64(vs[0][k]) - float64(v)*math.Sqrt(a)
	vx.Assert(vx.And(d <= 0.25, d >= -0.25), "velocities are converted from Gadget units")
	if a != 0.5 {
		vx.Assert(vs[0][k] == v*float32(math.Sqrt(a)), "conversions are exact where the root is")
	}
	vx.Assert(vs[0][(k+1)%3] == 0 && vs[0][(k+2)%3] == 0, "other axes are not affected")
}

// Snapshots cut short at any byte are never decoded.
//vx: mode=fp split unwind=20000 maxpath=20000 timeout=300
func VX_C04_truncated() {
	s := &c04snap{n: 1 + vx.Tier(), h: &c04head{time: 1, box: 64}}
	s.xs, s.vs, s.ids = make([][3]float64, s.n), make([][3]float64, s.n), make([]uint64, s.n)
	s.h.nPart[1], s.h.nTotal[1] = uint32(s.n), uint32(s.n)
	s.idSize = 32 + 32*vx.Choose("id64", 0, 1)
	s.x64 = vx.Choose("wide", 0, 1) == 1
	s.v64 = s.x64
	w := &c04writer{order: binary.LittleEndian}
	w.header(s.h)
	w.particles(s)
	size := len(w.b) - 4 // The last marker is not needed.
	cut := vx.Choose("cut", 0, 264+2*(8+24*s.n)+8+8*s.n)
	vx.Assume(cut < size)
	w.b = w.b[:cut]
	file := c04write(w)
	bad := vx.Catch(func() { s.read(w.order, file) })
	vx.Assert(bad, "truncated snapshots are not decoded")
	bad = vx.Catch(func() { ReadGadgetHeader(file, w.order, c04variants[0]) })
	if cut < 4+256 {
		vx.Assert(bad, "truncated headers are not decoded")
	}
}

// Buffers that do not fit and block sizes that do not match the header are refused.
//vx: mode=fp split unwind=20000 timeout=300
func VX_C04_mismatch() {
	s := c04new(1)
	w := &c04writer{order: c04order()}
	w.header(s.h)
	posAt := len(w.b)
	w.particles(s)
	velAt := posAt + 8 + 12
	if s.x64 {
		velAt += 12
	}
	at := posAt
	if vx.Choose("which", 0, 1) == 1 {
		at = velAt
	}
	size := vx.U32("size")
	vx.Assume(vx.And(size != 12, size != 24))
	w.order.PutUint32(w.b[at:], size)
	file := c04write(w)
	vx.Assert(vx.Catch(func() { s.read(w.order, file) }), "blocks of the wrong size are refused")
}

// Buffers of the wrong length are refused.
//vx: mode=fp split unwind=20000 timeout=300
func VX_C04_lengths() {
	s := c04new(1)
	w := &c04writer{order: binary.LittleEndian}
	w.header(s.h)
	w.particles(s)
	file := c04write(w)
	n := [3]int{vx.Choose("nx", 0, 2), vx.Choose("nv", 0, 2), vx.Choose("ni", 0, 2)}
	bad := vx.Catch(func() {
		ReadGadgetParticlesAt(file, w.order, make([]geom.Vec, n[0]), make([]geom.Vec, n[1]), make([]int64, n[2]), s.idSize, c04variants[0])
	})
	vx.Assert(bad == (n != [3]int{1, 1, 1}), "buffers of the wrong length are refused")
}

// Snapshots which are larger than any buffer between them and the file; every layout.
//vx: mode=fp split unwind=2000000 timeout=300 cpu=600
func VX_C04_large() {
	n := 3100
	s := &c04snap{n: n, h: &c04head{time: 1, box: 4096}, xs: make([][3]float64, n), vs: make([][3]float64, n), ids: make([]uint64, n)}
	s.h.nPart[1], s.h.nTotal[1] = uint32(n), uint32(n)
	layout := vx.Choose("layout", 0, 3)
	s.idSize = 32 + 32*(layout%2)
	s.x64, s.v64 = layout%2 == 1, layout/2 == 1
	for i := range s.xs {
		f := float64(i)
		s.xs[i] = [3]float64{f + 0.25, f + 0.5, 4095 - f}
		s.vs[i] = [3]float64{-f, 2 * f, f - 7}
		s.ids[i] = uint64(3*i + 1)
	}
	for _, i := range []int{0, n/2 + 1, n - 1} {
		for k := 0; k < 3; k++ {
			s.vs[i][k] = float64(vx.F32("v", -1e6, 1e6))
		}
		s.ids[i] = uint64(vx.U32("id"))
	}
	w := &c04writer{order: c04order()}
	w.header(s.h)
	w.particles(s)
	xs, vs, ids := s.read(w.order, c04write(w))
	okX, okV, okI := true, true, true
	for i := range xs {
		for k := 0; k < 3; k++ {
			okX, okV = vx.And(okX, xs[i][k] == float32(s.xs[i][k])), vx.And(okV, vs[i][k] == float32(s.vs[i][k]))
		}
		okI = vx.And(okI, uint64(ids[i]) == s.ids[i])
	}
	vx.Assert(okX, "positions come back unchanged")
	vx.Assert(okV, "velocities come back unchanged")
	vx.Assert(okI, "ids come back unchanged")
}
