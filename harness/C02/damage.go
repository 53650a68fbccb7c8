//vx:pkg render/io
package io

import (
	"encoding/binary"
	"io/ioutil"

	"github.com/phil-mansfield/gotetra/render/geom"
	vx "github.com/phil-mansfield/gotetra/zzvx"
)

func c02vecs(name string, n int) []geom.Vec {
	vs := make([]geom.Vec, n)
	for i := range vs {
		vs[i] = geom.Vec{vx.F32Any(name), vx.F32Any(name), vx.F32Any(name)}
	}
	return vs
}

// c02file writes a good segment with the given grid width and returns its contents.
func c02file(file string, gw int) (b []byte, xs, vs []geom.Vec) {
	h := &SheetHeader{}
	h.GridWidth, h.GridCount = int64(gw), int64(gw*gw*gw)
	h.CountWidth, h.SegmentWidth, h.Cells = vx.I64("countWidth"), vx.I64("segWidth"), vx.I64("cells")
	h.TotalWidth, h.Mass = vx.F64Any("width"), vx.F64Any("mass")
	xs, vs = c02vecs("x", gw*gw*gw), c02vecs("v", gw*gw*gw)
	WriteSheet(file, h, xs, vs)
	b, err := ioutil.ReadFile(file)
	vx.Assert(err == nil, "setup")
	return b, xs, vs
}

// c02try runs all readers. Errors are reported as errors, not by panicking or exiting.
// The header buffer is used several times, as the programs in this repository do.
func c02try(file string, xs, vs []geom.Vec) (hErr, xErr, vErr error) {
	return c02tryBuf(file, &SheetHeader{}, xs, vs)
}

func c02tryBuf(file string, hd *SheetHeader, xs, vs []geom.Vec) (hErr, xErr, vErr error) {
	bad := vx.Catch(func() {
		hErr = ReadSheetHeaderAt(file, hd)
		xErr = ReadSheetPositionsAt(file, xs)
		vErr = ReadSheetVelocitiesAt(file, vs)
	})
	vx.Assert(!bad, "damage is reported as an error")
	return hErr, xErr, vErr
}

func c02same(a, b []geom.Vec) bool {
	ok := true
	for i := range a {
		for k := 0; k < 3; k++ {
			ok = vx.And(ok, vx.Same32(a[i][k], b[i][k]))
		}
	}
	return ok
}

// Files cut short at any byte.
//vx: mode=fp split unwind=20000 maxpath=20000 timeout=300
func VX_C02_truncated() {
	gw := 1 + vx.Choose("gridWidth", 0, 1)
	file, good := vx.Temp()+"/sheet.dat", vx.Temp()+"/good.dat"
	b, xs, vs := c02file(file, gw)
	vx.Assert(ioutil.WriteFile(good, b, 0666) == nil, "setup")
	n := gw * gw * gw
	hEnd := 8 + binary.Size(&SheetHeader{})
	cut := vx.Choose("cut", 0, 8+152+24*8)
	vx.Assume(cut <= len(b))
	vx.Assert(ioutil.WriteFile(file, b[:cut], 0666) == nil, "setup")
	gotX, gotV := make([]geom.Vec, n), make([]geom.Vec, n)
	hd := &SheetHeader{}
	if vx.Choose("used", 0, 1) == 1 {
		// The buffer already holds the header of an intact file.
		vx.Assert(ReadSheetHeaderAt(good, hd) == nil, "setup")
		vx.Assert(ReadSheetPositionsAt(good, make([]geom.Vec, n)) == nil, "setup")
	}
	hErr, xErr, vErr := c02tryBuf(file, hd, gotX, gotV)
	if cut < hEnd {
		vx.Assert(hErr != nil, "a truncated header is an error")
	}
	if cut < hEnd+12*n {
		vx.Assert(xErr != nil, "truncated positions are an error")
	} else {
		vx.Assert(xErr == nil && c02same(gotX, xs), "complete positions are returned")
	}
	if cut < hEnd+24*n {
		vx.Assert(vErr != nil, "truncated velocities are an error")
	} else {
		vx.Assert(vErr == nil && c02same(gotV, vs), "complete velocities are returned")
	}
}

// Any stored header size other than the right one, in both byte orders.
//vx: mode=fp split unwind=20000 timeout=300
func VX_C02_size() {
	file := vx.Temp() + "/sheet.dat"
	b, _, _ := c02file(file, 1)
	order := binary.ByteOrder(binary.LittleEndian)
	if vx.Choose("big", 0, 1) == 1 {
		order = binary.BigEndian
		for i := 0; i < 4; i++ {
			b[i] = 255
		}
	}
	size := vx.U32("size")
	vx.Assume(size != uint32(binary.Size(&SheetHeader{})))
	order.PutUint32(b[4:], size)
	vx.Assert(ioutil.WriteFile(file, b, 0666) == nil, "setup")
	hErr, xErr, vErr := c02try(file, make([]geom.Vec, 1), make([]geom.Vec, 1))
	vx.Assert(hErr != nil, "the header reader checks the header size")
	vx.Assert(xErr != nil, "the position reader checks the header size")
	vx.Assert(vErr != nil, "the velocity reader checks the header size")
}

// Any byte order flag that is not one of the documented two.
//vx: mode=fp split unwind=20000 timeout=300
func VX_C02_flag() {
	file := vx.Temp() + "/sheet.dat"
	b, _, _ := c02file(file, 1)
	flag := vx.U32("flag")
	vx.Assume(vx.And(flag != 0, flag != 0xffffffff))
	binary.LittleEndian.PutUint32(b, flag)
	vx.Assert(ioutil.WriteFile(file, b, 0666) == nil, "setup")
	hErr, xErr, vErr := c02try(file, make([]geom.Vec, 1), make([]geom.Vec, 1))
	vx.Assert(hErr != nil && xErr != nil && vErr != nil, "unknown byte orders are errors")
}

// Files of the right length for n vectors holding any bytes whatsoever never panic the
// readers, and data are only returned when the header announces that many.
//vx: mode=fp split unwind=20000 timeout=300
func VX_C02_garbage() {
	n := vx.Choose("n", 0, 1)
	b := make([]byte, 8+binary.Size(&SheetHeader{})+24*n)
	for i := range b {
		b[i] = vx.U8("b")
	}
	file := vx.Temp() + "/sheet.dat"
	vx.Assert(ioutil.WriteFile(file, b, 0666) == nil, "setup")
	gotX, gotV := make([]geom.Vec, n), make([]geom.Vec, n)
	hErr, xErr, vErr := c02try(file, gotX, gotV)
	hd := &SheetHeader{}
	if hErr == nil {
		vx.Assert(ReadSheetHeaderAt(file, hd) == nil, "reading twice gives the same result")
		vx.Assert((xErr == nil) == (hd.GridCount == int64(n)), "positions are returned exactly if the header announces them")
		vx.Assert((vErr == nil) == (hd.GridCount == int64(n)), "velocities are returned exactly if the header announces them")
	} else {
		vx.Assert(xErr != nil && vErr != nil, "header errors are errors of every reader")
	}
}

// Files that do not exist.
//vx: mode=fp split timeout=100
func VX_C02_missing() {
	hErr, xErr, vErr := c02try(vx.Temp()+"/none.dat", make([]geom.Vec, 1), make([]geom.Vec, 1))
	vx.Assert(hErr != nil && xErr != nil && vErr != nil, "missing files are errors of every reader")
}
