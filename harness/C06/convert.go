//vx:pkg render/main
package main

import (
	"encoding/binary"
	"flag"
	"fmt"
	"io/ioutil"
	"math"
	"os"

	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
	vx "github.com/phil-mansfield/gotetra/zzvx"
)

// c06snap is a simulation of n*n*n particles; site (x, y, z) is particle 1 + x + y*n + z*n*n.
type c06snap struct {
	n      int
	xs, vs []geom.Vec
	width  float64
	mass   float64
	z, om, ol, h float64
}

// c06new places every particle near its site, so that all of them differ.
func c06new(n int) *c06snap {
	s := &c06snap{n: n, width: float64(4 * n), mass: 3, z: 0.5, om: 0.25, ol: 0.75, h: 0.5}
	s.xs, s.vs = make([]geom.Vec, n*n*n), make([]geom.Vec, n*n*n)
	for i := range s.xs {
		at := [3]int{i % n, i / n % n, i / (n * n)}
		for k := 0; k < 3; k++ {
			s.xs[i][k] = float32(4*at[k]) + float32(1+(i*(k+3))%7)/8
			s.vs[i][k] = float32((i*(k+5)+k)%97) - 48
		}
	}
	return s
}

func c06bytes(b *[]byte, x interface{}) {
	put32 := func(u uint32) {
		var w [4]byte
		binary.LittleEndian.PutUint32(w[:], u)
		*b = append(*b, w[:]...)
	}
	put64 := func(u uint64) { put32(uint32(u)); put32(uint32(u >> 32)) }
	switch v := x.(type) {
	case uint32:
		put32(v)
	case uint64:
		put64(v)
	case float32:
		put32(math.Float32bits(v))
	case float64:
		put64(math.Float64bits(v))
	}
}

// write stores the snapshot in several files, with the particles in the order of ids.
func (s *c06snap) write(dir string, files int, ids []int, idSize int) {
	vx.Assert(os.MkdirAll(dir, 0777) == nil, "setup")
	lo := 0
	for f := 0; f < files; f++ {
		hi := len(ids) * (f + 1) / files
		var b []byte
		c06bytes(&b, uint32(256))
		for i := 0; i < 6; i++ {
			c06bytes(&b, uint32(vx.IfI(i == 1, hi-lo, 0)))
		}
		for i := 0; i < 6; i++ {
			if i == 1 {
				c06bytes(&b, s.mass)
			} else {
				c06bytes(&b, 0.0)
			}
		}
		c06bytes(&b, 1.0)
		c06bytes(&b, s.z)
		c06bytes(&b, uint64(0))
		for i := 0; i < 6; i++ {
			c06bytes(&b, uint32(vx.IfI(i == 1, len(ids), 0)))
		}
		c06bytes(&b, uint64(0))
		for _, x := range []float64{s.width, s.om, s.ol, s.h} {
			c06bytes(&b, x)
		}
		b = append(b, make([]byte, 260-len(b))...)
		c06bytes(&b, uint32(256))
		for _, vecs := range [][]geom.Vec{s.xs, s.vs} {
			c06bytes(&b, uint32(12*(hi-lo)))
			for _, id := range ids[lo:hi] {
				for _, x := range vecs[id] {
					c06bytes(&b, x)
				}
			}
			c06bytes(&b, uint32(12*(hi-lo)))
		}
		c06bytes(&b, uint32(idSize/8*(hi-lo)))
		for _, id := range ids[lo:hi] {
			if idSize == 64 {
				c06bytes(&b, uint64(id+1))
			} else {
				c06bytes(&b, uint32(id+1))
			}
		}
		c06bytes(&b, uint32(idSize/8*(hi-lo)))
		vx.Assert(ioutil.WriteFile(fmt.Sprintf("%s/snap.%d", dir, f), b, 0666) == nil, "setup")
		lo = hi
	}
}

// c06main runs the program with the given command line.
func c06main(args ...string) {
	os.Args = append([]string{"gotetra", "-Threads", "2"}, args...)
	flag.CommandLine = flag.NewFlagSet("gotetra", flag.PanicOnError)
	main()
}

func c06convert(in, out, cells, more string) {
	cfg := vx.Temp() + "/convert.cfg"
	text := "[ConvertSnapshot]\nInput = " + in + "\nOutput = " + out + "\nInputFormat = LGadget-2\nCells = " + cells + "\n" + more
	vx.Assert(ioutil.WriteFile(cfg, []byte(text), 0666) == nil, "setup")
	c06main("-ConvertSnapshot", cfg)
}

// c06ids is an order of the particles.
func c06ids(n3, which int) []int {
	ids := make([]int, n3)
	for i := range ids {
		switch which {
		case 0:
			ids[i] = i
		case 1:
			ids[i] = n3 - 1 - i
		default:
			ids[i] = (i*13 + 5) % n3
		}
	}
	return ids
}

type c06seg struct {
	hd     io.SheetHeader
	xs, vs []geom.Vec
}

func c06same(a, b geom.Vec) bool {
	return vx.And(vx.Same32(a[0], b[0]), vx.And(vx.Same32(a[1], b[1]), vx.Same32(a[2], b[2])))
}

// c06read reads all segments, by index.
func c06read(dir string, total int) []*c06seg {
	infos, err := ioutil.ReadDir(dir)
	vx.Assert(err == nil && len(infos) == total, "every segment has its own file")
	segs := make([]*c06seg, total)
	for _, info := range infos {
		s, file := &c06seg{}, dir+"/"+info.Name()
		vx.Assert(io.ReadSheetHeaderAt(file, &s.hd) == nil, "segments can be read")
		s.xs, s.vs = make([]geom.Vec, s.hd.GridCount), make([]geom.Vec, s.hd.GridCount)
		vx.Assert(io.ReadSheetPositionsAt(file, s.xs) == nil && io.ReadSheetVelocitiesAt(file, s.vs) == nil, "segments can be read")
		vx.Assert(s.hd.Idx >= 0 && s.hd.Idx < int64(total) && segs[s.hd.Idx] == nil, "every segment is stored once")
		segs[s.hd.Idx] = s
	}
	return segs
}

// c06check compares all segments with the snapshot.
func c06check(s *c06snap, segs []*c06seg, cells int) {
	w := s.n / cells
	for idx, seg := range segs {
		hd := seg.hd
		vx.Assert(hd.CountWidth == int64(s.n) && hd.Count == int64(s.n*s.n*s.n), "the particle count")
		vx.Assert(hd.SegmentWidth == int64(w) && hd.GridWidth == int64(w+1) && hd.GridCount == int64((w+1)*(w+1)*(w+1)), "the shape of segments")
		vx.Assert(hd.Cells == int64(cells), "the number of segments")
		vx.Assert(vx.And(hd.Mass == s.mass, hd.TotalWidth == s.width), "the mass and the box width")
		vx.Assert(vx.And(vx.Same(hd.Cosmo.Z, s.z), vx.And(vx.Same(hd.Cosmo.OmegaM, s.om), vx.And(vx.Same(hd.Cosmo.OmegaL, s.ol), vx.Same(hd.Cosmo.H100, s.h)))), "the cosmology")
		start := [3]int{idx % cells * w, idx / cells % cells * w, idx / (cells * cells) * w}
		okX, okV := true, true
		for i := range seg.xs {
			at := [3]int{i % (w + 1), i / (w + 1) % (w + 1), i / ((w + 1) * (w + 1))}
			site, stride := 0, 1
			for k := 0; k < 3; k++ {
				site += (start[k] + at[k]) % s.n * stride
				stride *= s.n
			}
			okX, okV = vx.And(okX, c06same(seg.xs[i], s.xs[site])), vx.And(okV, c06same(seg.vs[i], s.vs[site]))
		}
		vx.Assert(okX, "positions are at their Lagrangian place")
		vx.Assert(okV, "velocities are at their Lagrangian place")
	}
}

// All widths and cell counts, files, orders and id sizes.
//vx: mode=real unwind=400000 timeout=300
func VX_C06_places() {
	n := vx.Choose("n", 1, 4+vx.Tier()*2)
	cells := vx.Choose("cells", 1, n)
	vx.Assume(n%cells == 0)
	s := c06new(n)
	files := vx.Choose("files", 1, 3)
	vx.Assume(files <= n)
	idSize := 32 * (1 + (n+cells+files)%2)
	// The velocities of a particle and the header are arbitrary.
	at := vx.Choose("at", 0, 2) * (n*n*n - 1) / 2
	s.vs[at] = geom.Vec{vx.F32("v", -1000, 1000), vx.F32("v", -1000, 1000), vx.F32("v", -1000, 1000)}
	s.z, s.om, s.ol, s.h = vx.F64Any("z"), vx.F64Any("om"), vx.F64Any("ol"), vx.F64Any("h")
	dir := vx.Temp() + "/in"
	s.write(dir, files, c06ids(n*n*n, (n+files+at)%3), idSize)
	c06convert(dir, vx.Temp()+"/out", fmt.Sprint(cells), fmt.Sprintf("Gadget2IDSize = %d\n", idSize))
	c06check(s, c06read(vx.Temp()+"/out", cells*cells*cells), cells)
}

// Units are applied to positions, velocities, masses and the box width alike.
//vx: mode=real unwind=400000 timeout=300
func VX_C06_units() {
	s := c06new(2)
	s.vs[3] = geom.Vec{vx.F32("v", -1000, 1000), vx.F32("v", -1000, 1000), vx.F32("v", -1000, 1000)}
	units := [][3]float64{{0.5, 1, 1}, {1, 4, 1}, {1, 1, 0.25}, {2, 0.5, 8}}[vx.Choose("units", 0, 3)]
	in := vx.Temp() + "/in"
	s.write(in, 2, c06ids(8, 2), 64)
	c06convert(in, vx.Temp()+"/out", "2", fmt.Sprintf("XUnits = %g\nVUnits = %g\nMUnits = %g\n", units[0], units[1], units[2]))
	for i := range s.xs {
		for k := 0; k < 3; k++ {
			s.xs[i][k] *= float32(units[0])
			s.vs[i][k] *= float32(units[1])
		}
	}
	s.width *= units[0]
	s.mass *= units[2]
	c06check(s, c06read(vx.Temp()+"/out", 8), 2)
}

// Several snapshots in one go.
//vx: mode=real unwind=400000 timeout=300
func VX_C06_iterated() {
	first := vx.Choose("first", 0, 2)
	out := vx.Temp() + "/out"
	var snaps []*c06snap
	for k := 0; k < 2; k++ {
		s := c06new(2)
		s.mass = float64(10 + k)
		s.vs[k] = geom.Vec{vx.F32("v", -1000, 1000), 1, 2}
		s.write(fmt.Sprintf("%s/in%03d", vx.Temp(), first+k), 1, c06ids(8, k), 64)
		snaps = append(snaps, s)
	}
	cfg := fmt.Sprintf("IteratedInput = %s/in%%03d\nIteratedOutput = %s%%d\nIterationStart = %d\nIterationEnd = %d\n", vx.Temp(), out, first, first+1)
	c06convert("unused", "unused", "1", cfg)
	for k, s := range snaps {
		c06check(s, c06read(fmt.Sprintf("%s%d", out, first+k), 1), 1)
	}
}

// Decompositions that would lose particles, and snapshots that are not cubes, are refused.
//vx: mode=real unwind=400000 timeout=300
func VX_C06_refused() {
	n := vx.Choose("n", 1, 4)
	cells := vx.Choose("cells", 1, 6)
	extra := vx.Choose("extra", 0, 1)
	vx.Assume(extra == 0 || n > 1)
	s := c06new(n)
	ids := c06ids(n*n*n, 0)
	in := vx.Temp() + "/in"
	s.write(in, 1, ids[:len(ids)-extra], 64)
	bad := vx.Catch(func() { c06convert(in, vx.Temp()+"/out", fmt.Sprint(cells), "") })
	vx.Assert(bad == (n%cells != 0 || extra == 1), "decompositions that lose particles are refused")
}

// More than ten segments on a side: no two of them share a file.
//vx: mode=real unwind=4000000 timeout=600
func VX_C06_names() {
	n := []int{10, 11, 12}[vx.Choose("n", 0, 2)]
	if vx.Tier() == 0 {
		vx.Assume(n == 11)
	}
	s := c06new(n)
	in := vx.Temp() + "/in"
	s.write(in, 1, c06ids(n*n*n, 2), 64)
	c06convert(in, vx.Temp()+"/out", fmt.Sprint(n), "")
	c06check(s, c06read(vx.Temp()+"/out", n*n*n), n)
}

// More particles than are buffered at a time, in files of different sizes.
//vx: mode=real unwind=40000000 timeout=600 cpu=600
func VX_C06_large() {
	n := 17
	s := c06new(n)
	for k, at := range []int{0, 4095, 4096, n*n*n - 1} {
		lo := float32(1000 * (k + 1))
		s.vs[at] = geom.Vec{vx.F32("v", lo, lo+500), vx.F32("v", lo, lo+500), vx.F32("v", lo, lo+500)}
	}
	ids := c06ids(n*n*n, 2*vx.Choose("order", 0, 1))
	in, out := vx.Temp()+"/in", vx.Temp()+"/out"
	s.write(in, 3, ids, 32)
	c06convert(in, out, "1", "Gadget2IDSize = 32\n")
	c06check(s, c06read(out, 1), 1)
}
