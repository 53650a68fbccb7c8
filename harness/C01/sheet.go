//vx:pkg render/io
package io

import (
	"encoding/binary"
	"io/ioutil"
	"math"

	"github.com/phil-mansfield/gotetra/render/geom"
	vx "github.com/phil-mansfield/gotetra/zzvx"
)

func c01vec(name string) geom.Vec {
	return geom.Vec{vx.F32Any(name), vx.F32Any(name), vx.F32Any(name)}
}

func c01vecs(name string, n int) []geom.Vec {
	vs := make([]geom.Vec, n)
	for i := range vs {
		vs[i] = c01vec(name)
	}
	return vs
}

// c01header is any header with the given grid width.
func c01header(gw int) *SheetHeader {
	h := &SheetHeader{}
	h.Cosmo = CosmologyHeader{vx.F64Any("z"), vx.F64Any("om"), vx.F64Any("ol"), vx.F64Any("h")}
	h.CountWidth = vx.I64("countWidth")
	h.Count = h.CountWidth * h.CountWidth * h.CountWidth
	h.SegmentWidth = vx.I64("segWidth")
	h.GridWidth = int64(gw)
	h.GridCount = int64(gw * gw * gw)
	h.Idx, h.Cells = vx.I64("idx"), vx.I64("cells")
	h.Mass, h.TotalWidth = vx.F64Any("mass"), vx.F64Any("width")
	h.Origin, h.Width = c01vec("origin"), c01vec("span")
	h.VelocityOrigin, h.VelocityWidth = c01vec("vorigin"), c01vec("vspan")
	return h
}

func c01sameVec(a, b geom.Vec) bool {
	return vx.And(vx.And(vx.Same32(a[0], b[0]), vx.Same32(a[1], b[1])), vx.Same32(a[2], b[2]))
}

func c01sameVecs(a, b []geom.Vec) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vx.And(ok, c01sameVec(a[i], b[i]))
	}
	return ok
}

func c01sameHeader(a, b *SheetHeader) bool {
	ok := vx.And(vx.And(vx.Same(a.Cosmo.Z, b.Cosmo.Z), vx.Same(a.Cosmo.OmegaM, b.Cosmo.OmegaM)),
		vx.And(vx.Same(a.Cosmo.OmegaL, b.Cosmo.OmegaL), vx.Same(a.Cosmo.H100, b.Cosmo.H100)))
	ok = vx.And(ok, vx.And(a.Count == b.Count, a.CountWidth == b.CountWidth))
	ok = vx.And(ok, vx.And(a.SegmentWidth == b.SegmentWidth, a.GridWidth == b.GridWidth))
	ok = vx.And(ok, vx.And(a.GridCount == b.GridCount, a.Idx == b.Idx))
	ok = vx.And(ok, vx.And(a.Cells == b.Cells, vx.Same(a.Mass, b.Mass)))
	ok = vx.And(ok, vx.Same(a.TotalWidth, b.TotalWidth))
	ok = vx.And(ok, vx.And(c01sameVec(a.Origin, b.Origin), c01sameVec(a.Width, b.Width)))
	return vx.And(ok, vx.And(c01sameVec(a.VelocityOrigin, b.VelocityOrigin), c01sameVec(a.VelocityWidth, b.VelocityWidth)))
}

func c01copy(vs []geom.Vec) []geom.Vec {
	out := make([]geom.Vec, len(vs))
	copy(out, vs)
	return out
}

func c01width() int {
	if vx.Tier() == 1 {
		return vx.Choose("gridWidth", 0, 4)
	}
	return vx.Choose("gridWidth", 0, 3)
}

func c01load(file string, h *SheetHeader, xs, vs []geom.Vec) {
	hd := &SheetHeader{}
	vx.Assert(ReadSheetHeaderAt(file, hd) == nil, "the header is read")
	vx.Assert(c01sameHeader(hd, h), "the header comes back unchanged")
	junk := geom.Vec{float32(math.NaN()), -1, 7}
	gotX, gotV := make([]geom.Vec, len(xs)), make([]geom.Vec, len(vs))
	for i := range gotX {
		gotX[i], gotV[i] = junk, junk
	}
	vx.Assert(ReadSheetPositionsAt(file, gotX) == nil, "the positions are read")
	vx.Assert(c01sameVecs(gotX, xs), "the positions come back unchanged")
	vx.Assert(ReadSheetVelocitiesAt(file, gotV) == nil, "the velocities are read")
	vx.Assert(c01sameVecs(gotV, vs), "the velocities come back unchanged")
}

// Everything written comes back bit for bit and the caller's data are untouched.
//vx: mode=fp split unwind=4000 timeout=300
func VX_C01_roundtrip() {
	gw := c01width()
	n := gw * gw * gw
	h, xs, vs := c01header(gw), c01vecs("x", n), c01vecs("v", n)
	h0, xs0, vs0 := *h, c01copy(xs), c01copy(vs)
	file := vx.Temp() + "/sheet.dat"
	WriteSheet(file, h, xs, vs)
	vx.Assert(c01sameHeader(h, &h0) && c01sameVecs(xs, xs0) && c01sameVecs(vs, vs0),
		"writing leaves the caller's data alone")
	c01load(file, &h0, xs0, vs0)
	vx.ObsI("cells", int(h.Cells))
}

// A file written over a longer one does not keep any of it.
//vx: mode=fp split unwind=4000 timeout=300
func VX_C01_overwrite() {
	file := vx.Temp() + "/sheet.dat"
	h, xs, vs := c01header(2), c01vecs("x", 8), c01vecs("v", 8)
	WriteSheet(file, h, xs, vs)
	gw := vx.Choose("gridWidth", 1, 2)
	h1, xs1, vs1 := c01header(gw), c01vecs("x", gw*gw*gw), c01vecs("v", gw*gw*gw)
	WriteSheet(file, h1, xs1, vs1)
	c01load(file, h1, xs1, vs1)
	b, err := ioutil.ReadFile(file)
	vx.Assert(err == nil && len(b) == 8+binary.Size(h1)+24*len(xs1), "the file ends after the last velocity")
}

type c01reader struct {
	b     []byte
	off   int
	order binary.ByteOrder
}

func (r *c01reader) u32() uint32 { r.off += 4; return r.order.Uint32(r.b[r.off-4:]) }
func (r *c01reader) u64() uint64 { r.off += 8; return r.order.Uint64(r.b[r.off-8:]) }

// The bytes in the file are the documented blocks, little endian.
//vx: mode=fp split unwind=4000 timeout=300
func VX_C01_layout() {
	gw := vx.Choose("gridWidth", 1, 2)
	n := gw * gw * gw
	h, xs, vs := c01header(gw), c01vecs("x", n), c01vecs("v", n)
	file := vx.Temp() + "/sheet.dat"
	WriteSheet(file, h, xs, vs)
	b, err := ioutil.ReadFile(file)
	vx.Assert(err == nil && len(b) == 8+binary.Size(h)+24*n, "the file has the documented size")
	r := &c01reader{b, 0, binary.LittleEndian}
	vx.Assert(r.u32() == 0, "block 1: the byte order flag")
	vx.Assert(int(r.u32()) == binary.Size(h), "block 2: the size of the header")
	ok := true
	for _, f := range []float64{h.Cosmo.Z, h.Cosmo.OmegaM, h.Cosmo.OmegaL, h.Cosmo.H100} {
		ok = vx.And(ok, r.u64() == math.Float64bits(f))
	}
	for _, i := range []int64{h.Count, h.CountWidth, h.SegmentWidth, h.GridWidth, h.GridCount, h.Idx, h.Cells} {
		ok = vx.And(ok, int64(r.u64()) == i)
	}
	for _, f := range []float64{h.Mass, h.TotalWidth} {
		ok = vx.And(ok, r.u64() == math.Float64bits(f))
	}
	for _, v := range []geom.Vec{h.Origin, h.Width, h.VelocityOrigin, h.VelocityWidth} {
		for k := 0; k < 3; k++ {
			ok = vx.And(ok, r.u32() == math.Float32bits(v[k]))
		}
	}
	vx.Assert(ok, "block 3: the header")
	ok = true
	for i := range xs {
		for k := 0; k < 3; k++ {
			ok = vx.And(ok, r.u32() == math.Float32bits(xs[i][k]))
		}
	}
	vx.Assert(ok, "block 4: the positions")
	ok = true
	for i := range vs {
		for k := 0; k < 3; k++ {
			ok = vx.And(ok, r.u32() == math.Float32bits(vs[i][k]))
		}
	}
	vx.Assert(ok, "block 5: the velocities")
}

// Files of either byte order can be read.
//vx: mode=fp split unwind=4000 timeout=300
func VX_C01_foreign() {
	gw := vx.Choose("gridWidth", 1, 2)
	n := gw * gw * gw
	h, xs, vs := c01header(gw), c01vecs("x", n), c01vecs("v", n)
	flag, order := int32(0), binary.ByteOrder(binary.LittleEndian)
	if vx.Choose("big", 0, 1) == 1 {
		flag, order = -1, binary.BigEndian
	}
	b := make([]byte, 8+binary.Size(h)+24*n)
	off := 0
	u32 := func(x uint32) { order.PutUint32(b[off:], x); off += 4 }
	u64 := func(x uint64) { order.PutUint64(b[off:], x); off += 8 }
	u32(uint32(flag))
	u32(uint32(binary.Size(h)))
	for _, f := range []float64{h.Cosmo.Z, h.Cosmo.OmegaM, h.Cosmo.OmegaL, h.Cosmo.H100} {
		u64(math.Float64bits(f))
	}
	for _, i := range []int64{h.Count, h.CountWidth, h.SegmentWidth, h.GridWidth, h.GridCount, h.Idx, h.Cells} {
		u64(uint64(i))
	}
	u64(math.Float64bits(h.Mass))
	u64(math.Float64bits(h.TotalWidth))
	all := []geom.Vec{h.Origin, h.Width, h.VelocityOrigin, h.VelocityWidth}
	all = append(all, xs...)
	all = append(all, vs...)
	for _, v := range all {
		for k := 0; k < 3; k++ {
			u32(math.Float32bits(v[k]))
		}
	}
	file := vx.Temp() + "/sheet.dat"
	vx.Assert(ioutil.WriteFile(file, b, 0666) == nil, "setup")
	c01load(file, h, xs, vs)
}

// Buffers and grids of the wrong length are refused.
//vx: mode=fp split unwind=4000 timeout=300
func VX_C01_lengths() {
	h, xs, vs := c01header(2), c01vecs("x", 8), c01vecs("v", 8)
	file := vx.Temp() + "/sheet.dat"
	WriteSheet(file, h, xs, vs)
	n := vx.Choose("len", 0, 16)
	errX := ReadSheetPositionsAt(file, make([]geom.Vec, n))
	errV := ReadSheetVelocitiesAt(file, make([]geom.Vec, n))
	vx.Assert((errX == nil) == (n == 8), "position buffers of the wrong length are refused")
	vx.Assert((errV == nil) == (n == 8), "velocity buffers of the wrong length are refused")
	if n != 8 {
		vx.Assert(vx.Catch(func() { WriteSheet(file, h, make([]geom.Vec, n), vs) }), "positions that do not match the header are refused")
		vx.Assert(vx.Catch(func() { WriteSheet(file, h, xs, make([]geom.Vec, n)) }), "velocities that do not match the header are refused")
	}
}

// c01large is a grid which is larger than any buffer that could sit between it and the file;
// some of its vectors are arbitrary and all others differ.
func c01large(name string, n, seed int) []geom.Vec {
	vs := make([]geom.Vec, n)
	for i := range vs {
		vs[i] = geom.Vec{float32(3*i + seed), float32(3*i+seed) + 0.25, -float32(3*i + seed)}
	}
	for _, i := range []int{0, n/2 + 1, n - 1} {
		vs[i] = c01vec(name)
	}
	return vs
}

// Large grids, in files of either byte order.
//vx: mode=fp split unwind=2000000 timeout=300 cpu=600
func VX_C01_large() {
	gw := 18 + 8*vx.Tier()
	n := gw * gw * gw
	h, xs, vs := c01header(gw), c01large("x", n, 1), c01large("v", n, 2)
	h0, xs0, vs0 := *h, c01copy(xs), c01copy(vs)
	file := vx.Temp() + "/sheet.dat"
	WriteSheet(file, h, xs, vs)
	vx.Assert(c01sameVecs(xs, xs0) && c01sameVecs(vs, vs0), "writing leaves the caller's data alone")
	b, err := ioutil.ReadFile(file)
	vx.Assert(err == nil && len(b) == 8+binary.Size(h)+24*n, "the file has the documented size")
	if vx.Choose("big", 0, 1) == 1 {
		// The same file, in the other byte order.
		binary.BigEndian.PutUint32(b, 0xffffffff)
		binary.BigEndian.PutUint32(b[4:], binary.LittleEndian.Uint32(b[4:]))
		for off := 8; off < len(b); {
			if off < 8+15*8-16 {
				binary.BigEndian.PutUint64(b[off:], binary.LittleEndian.Uint64(b[off:]))
				off += 8
			} else {
				binary.BigEndian.PutUint32(b[off:], binary.LittleEndian.Uint32(b[off:]))
				off += 4
			}
		}
		vx.Assert(ioutil.WriteFile(file, b, 0666) == nil, "setup")
	}
	c01load(file, &h0, xs0, vs0)
}
