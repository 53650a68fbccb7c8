//vx:pkg render/main
package main

import (
	"encoding/binary"
	"flag"
	"fmt"
	"io/ioutil"
	"math"
	"os"

	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
	vx "github.com/phil-mansfield/gotetra/zzvx"
)

// c07snap is a simulation of n*n*n particles; site (x, y, z) is particle 1 + x + y*n + z*n*n.
type c07snap struct {
	n      int
	xs, vs []geom.Vec
	width  float64
	mass   float64
	z, om, ol, h float64
}

// c07new places every particle near its site, so that all of them differ.
func c07new(n int) *c07snap {
	s := &c07snap{n: n, width: float64(4 * n), mass: 3, z: 0.5, om: 0.25, ol: 0.75, h: 0.5}
	s.xs, s.vs = make([]geom.Vec, n*n*n), make([]geom.Vec, n*n*n)
	for i := range s.xs {
		at := [3]int{i % n, i / n % n, i / (n * n)}
		for k := 0; k < 3; k++ {
			s.xs[i][k] = float32(4*at[k]) + float32(1+(i*(k+3))%7)/8
			s.vs[i][k] = float32((i*(k+5)+k)%97) - 48
		}
	}
	return s
}

func c07bytes(b *[]byte, x interface{}) {
	put32 := func(u uint32) {
		var w [4]byte
		binary.LittleEndian.PutUint32(w[:], u)
		*b = append(*b, w[:]...)
	}
	put64 := func(u uint64) { put32(uint32(u)); put32(uint32(u >> 32)) }
	switch v := x.(type) {
	case uint32:
		put32(v)
	case uint64:
		put64(v)
	case float32:
		put32(math.Float32bits(v))
	case float64:
		put64(math.Float64bits(v))
	}
}

// write stores the snapshot in several files, with the particles in the order of ids.
func (s *c07snap) write(dir string, files int, ids []int, idSize int) {
	vx.Assert(os.MkdirAll(dir, 0777) == nil, "setup")
	lo := 0
	for f := 0; f < files; f++ {
		hi := len(ids) * (f + 1) / files
		var b []byte
		c07bytes(&b, uint32(256))
		for i := 0; i < 6; i++ {
			c07bytes(&b, uint32(vx.IfI(i == 1, hi-lo, 0)))
		}
		for i := 0; i < 6; i++ {
			if i == 1 {
				c07bytes(&b, s.mass)
			} else {
				c07bytes(&b, 0.0)
			}
		}
		c07bytes(&b, 1.0)
		c07bytes(&b, s.z)
		c07bytes(&b, uint64(0))
		for i := 0; i < 6; i++ {
			c07bytes(&b, uint32(vx.IfI(i == 1, len(ids), 0)))
		}
		c07bytes(&b, uint64(0))
		for _, x := range []float64{s.width, s.om, s.ol, s.h} {
			c07bytes(&b, x)
		}
		b = append(b, make([]byte, 260-len(b))...)
		c07bytes(&b, uint32(256))
		for _, vecs := range [][]geom.Vec{s.xs, s.vs} {
			c07bytes(&b, uint32(12*(hi-lo)))
			for _, id := range ids[lo:hi] {
				for _, x := range vecs[id] {
					c07bytes(&b, x)
				}
			}
			c07bytes(&b, uint32(12*(hi-lo)))
		}
		c07bytes(&b, uint32(idSize/8*(hi-lo)))
		for _, id := range ids[lo:hi] {
			if idSize == 64 {
				c07bytes(&b, uint64(id+1))
			} else {
				c07bytes(&b, uint32(id+1))
			}
		}
		c07bytes(&b, uint32(idSize/8*(hi-lo)))
		vx.Assert(ioutil.WriteFile(fmt.Sprintf("%s/snap.%d", dir, f), b, 0666) == nil, "setup")
		lo = hi
	}
}

// c07main runs the program with the given command line.
func c07main(args ...string) {
	os.Args = append([]string{"gotetra", "-Threads", "2"}, args...)
	flag.CommandLine = flag.NewFlagSet("gotetra", flag.PanicOnError)
	main()
}

func c07convert(in, out, cells, more string) {
	cfg := vx.Temp() + "/convert.cfg"
	text := "[ConvertSnapshot]\nInput = " + in + "\nOutput = " + out + "\nInputFormat = LGadget-2\nCells = " + cells + "\n" + more
	vx.Assert(ioutil.WriteFile(cfg, []byte(text), 0666) == nil, "setup")
	c07main("-ConvertSnapshot", cfg)
}

// c07ids is an order of the particles.
func c07ids(n3, which int) []int {
	ids := make([]int, n3)
	for i := range ids {
		switch which {
		case 0:
			ids[i] = i
		case 1:
			ids[i] = n3 - 1 - i
		default:
			ids[i] = (i*13 + 5) % n3
		}
	}
	return ids
}

type c07seg struct {
	hd     io.SheetHeader
	xs, vs []geom.Vec
}

func c07same(a, b geom.Vec) bool {
	return vx.And(vx.Same32(a[0], b[0]), vx.And(vx.Same32(a[1], b[1]), vx.Same32(a[2], b[2])))
}

// c07read reads all segments, by index.
func c07read(dir string, total int) []*c07seg {
	infos, err := ioutil.ReadDir(dir)
	vx.Assert(err == nil && len(infos) == total, "every segment has its own file")
	segs := make([]*c07seg, total)
	for _, info := range infos {
		s, file := &c07seg{}, dir+"/"+info.Name()
		vx.Assert(io.ReadSheetHeaderAt(file, &s.hd) == nil, "segments can be read")
		s.xs, s.vs = make([]geom.Vec, s.hd.GridCount), make([]geom.Vec, s.hd.GridCount)
		vx.Assert(io.ReadSheetPositionsAt(file, s.xs) == nil && io.ReadSheetVelocitiesAt(file, s.vs) == nil, "segments can be read")
		vx.Assert(s.hd.Idx >= 0 && s.hd.Idx < int64(total) && segs[s.hd.Idx] == nil, "every segment is stored once")
		segs[s.hd.Idx] = s
	}
	return segs
}


// c07patch is a simulation whose particles fill a patch less than half a box wide on each axis.
// The patch may lie across the edge of the box: all planes from cut[k] on are on the other side.
type c07patch struct {
	s   *c07snap
	u   [][3]float32 // positions in the unwrapped patch
}

const c07width = 32

// c07place puts the unwrapped positions into the box; t is where the patch starts.
func c07place(n int, u [][3]float32, cut [3]int) *c07snap {
	s := c07new(n)
	s.width = c07width
	for i := range u {
		at := [3]int{i % n, i / n % n, i / (n * n)}
		for k := 0; k < 3; k++ {
			s.xs[i][k] = u[i][k]
			if at[k] >= cut[k] {
				s.xs[i][k] -= c07width
			}
			vx.Assume(vx.And(s.xs[i][k] >= 0, s.xs[i][k] < c07width))
		}
	}
	return s
}

func c07max(a, b float64) float64 { return vx.IfF(a < b, b, a) }
func c07min(a, b float64) float64 { return vx.IfF(a < b, a, b) }

// c07check compares the boxes of all segments with their particles.
func c07check(n, cells int, u [][3]float32, s *c07snap, segs []*c07seg) {
	w := n / cells
	for idx, seg := range segs {
		start := [3]int{idx % cells * w, idx / cells % cells * w, idx / (cells * cells) * w}
		for k := 0; k < 3; k++ {
			o, width := float64(seg.hd.Origin[k]), float64(seg.hd.Width[k])
			vo, vw := float64(seg.hd.VelocityOrigin[k]), float64(seg.hd.VelocityWidth[k])
			vx.Assert(vx.And(vx.LeR(0, o), vx.LeR(o, c07width)), "boxes start inside the simulation")
			var lo, hi, vlo, vhi float64
			in, vin := true, true
			for i := range seg.xs {
				site, stride := 0, 1
				for d, a := range []int{i % (w + 1), i / (w + 1) % (w + 1), i / ((w + 1) * (w + 1))} {
					site += (start[d] + a) % n * stride
					stride *= n
				}
				x, v, un := float64(s.xs[site][k]), float64(s.vs[site][k]), float64(u[site][k])
				if i == 0 {
					lo, hi, vlo, vhi = un, un, v, v
				} else {
					lo, hi, vlo, vhi = c07min(lo, un), c07max(hi, un), c07min(vlo, v), c07max(vhi, v)
				}
				here := false
				for _, img := range []float64{0, c07width, -c07width} {
					here = vx.Or(here, vx.And(vx.LeR(o, x+img), vx.LeR(x+img, o+width)))
				}
				in = vx.And(in, here)
				vin = vx.And(vin, vx.And(vx.LeR(vo, v), vx.LeR(v, vo+vw)))
			}
			vx.Assert(in, "boxes contain all their particles")
			vx.Assert(vx.Or(vx.LeR(width, hi-lo), vx.LeR(c07width/2, hi-lo)), "boxes are no wider than their particles")
			vx.Assert(vin, "velocity bounds contain all velocities")
			vx.Assert(vx.And(vx.LeR(vlo, vo), vx.LeR(vo+vw, vhi)), "velocity bounds are no wider than the velocities")
		}
	}
}

// c07unwrapped makes a patch with planes two apart that starts at t, and bumps in it.
func c07unwrapped(n int, k int, t float32) [][3]float32 {
	u := make([][3]float32, n*n*n)
	for i := range u {
		at := [3]int{i % n, i / n % n, i / (n * n)}
		for d := 0; d < 3; d++ {
			u[i][d] = float32(3*at[d]) + float32((i*(d+3))%5)/4
			if d == k {
				u[i][d] += t
			} else {
				u[i][d] += float32(2 + 5*d)
			}
		}
	}
	return u
}

// The patch starts anywhere along an axis and one of its particles is anywhere near it.
//vx: mode=real split unwind=400000 timeout=400
func VX_C07_boxes() {
	n := 2 + vx.Choose("n", 0, 1+vx.Tier())
	cells := vx.Choose("cells", 1, n)
	vx.Assume(n%cells == 0)
	k := vx.Choose("axis", 0, 2)
	t := vx.F32("t", 0, c07width)
	cut := [3]int{n, n, n}
	cut[k] = vx.Choose("cut", 1, n)
	u := c07unwrapped(n, k, t)
	p := vx.Choose("p", 0, 2) * (n*n*n - 1) / 2
	if vx.Tier() == 0 && n > 2 {
		vx.Assume(p == (n*n*n-1)/2 || cells == n)
	}
	u[p][k] += vx.F32("d", -2, 2)
	s := c07place(n, u, cut)
	dir := vx.Temp() + "/in"
	s.write(dir, 1, c07ids(n*n*n, k), 64)
	c07convert(dir, vx.Temp()+"/out", fmt.Sprint(cells), "")
	c07check(n, cells, u, s, c07read(vx.Temp()+"/out", cells*cells*cells))
}

// Segments that are wider than half the box: one particle anywhere along an axis.
//vx: mode=real unwind=400000 timeout=400
func VX_C07_wide() {
	n := 2
	cells := vx.Choose("cells", 1, 2)
	k := vx.Choose("axis", 0, 2)
	p := vx.Choose("p", 0, 7)
	vx.Assume(vx.Tier() > 0 || k == p%3)
	u := c07unwrapped(n, 0, 1)
	u[p][k] = vx.F32("x", 0, c07width)
	s := c07place(n, u, [3]int{n, n, n})
	dir := vx.Temp() + "/in"
	s.write(dir, 1, c07ids(n*n*n, k), 64)
	c07convert(dir, vx.Temp()+"/out", fmt.Sprint(cells), "")
	c07check(n, cells, u, s, c07read(vx.Temp()+"/out", cells*cells*cells))
}

// Arbitrary velocities of two particles.
//vx: mode=real unwind=400000 timeout=400
func VX_C07_velocities() {
	n := 2
	cells := vx.Choose("cells", 1, 2)
	p, q := vx.Choose("p", 0, 7), 0
	q = (p + vx.Choose("q", 1, 7)) % 8
	k := vx.Choose("axis", 0, 2)
	vx.Assume(vx.Tier() > 0 || k == (p+q)%3)
	u := c07unwrapped(n, 0, 1)
	s := c07place(n, u, [3]int{n, n, n})
	s.vs[p][k], s.vs[q][k] = vx.F32("vp", -1000, 1000), vx.F32("vq", -1000, 1000)
	dir := vx.Temp() + "/in"
	s.write(dir, 1, c07ids(n*n*n, k), 64)
	c07convert(dir, vx.Temp()+"/out", fmt.Sprint(cells), "")
	c07check(n, cells, u, s, c07read(vx.Temp()+"/out", cells*cells*cells))
}
