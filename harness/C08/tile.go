//vx:pkg render/geom
package geom

import vx "github.com/phil-mansfield/gotetra/zzvx"

// c08coords decodes a flat index of a grid that is w points wide.
func c08coords(i, w int64) [3]int64 {
	return [3]int64{i % w, i / w % w, i / w / w}
}

func c08det(a, b, c [3]float64) float64 {
	return a[0]*(b[1]*c[2]-b[2]*c[1]) - a[1]*(b[0]*c[2]-b[2]*c[0]) + a[2]*(b[0]*c[1]-b[1]*c[0])
}

// c08bary gives the barycentric coordinates of p times six times the volume, and that volume.
func c08bary(t [4][3]float64, p [3]float64) (l [4]float64, vol float64) {
	sub := func(a, b [3]float64) [3]float64 {
		return [3]float64{a[0] - b[0], a[1] - b[1], a[2] - b[2]}
	}
	vol = c08det(sub(t[1], t[0]), sub(t[2], t[0]), sub(t[3], t[0]))
	s := 1.0
	if vol < 0 {
		s = -1
	}
	for k := 0; k < 4; k++ {
		q := t
		q[k] = p
		l[k] = s * c08det(sub(q[1], q[0]), sub(q[2], q[0]), sub(q[3], q[0]))
	}
	return l, s * vol
}

func c08inside(t [4][3]float64, p [3]float64) (closed, open bool) {
	l, _ := c08bary(t, p)
	closed, open = true, true
	for k := 0; k < 4; k++ {
		closed = vx.And(closed, l[k] >= 0)
		open = vx.And(open, l[k] > 0)
	}
	return closed, open
}

// Corners are corners of the cube anchored at the given index, for every anchor.
//vx: mode=real split unwind=300 timeout=300
func VX_C08_corners() {
	w := int64([]int{2, 3, 5, 9, 65, 257}[vx.Choose("width", 0, 5)])
	skip := int64([]int{1, 2, 4, 64}[vx.Choose("skip", 0, 3)])
	vx.Assume(skip < w)
	x, y, z := int64(vx.Int("x", 0, 255)), int64(vx.Int("y", 0, 255)), int64(vx.Int("z", 0, 255))
	vx.Assume(vx.And(x+skip < w, vx.And(y+skip < w, z+skip < w)))
	dir := vx.Choose("dir", 0, TetraDirCount-1)
	idx := x + y*w + z*w*w
	ti := NewTetraIdxs(idx, w, skip, dir)
	at := [3]int64{x, y, z}
	var seen [4]int
	for k := 0; k < 4; k++ {
		off := int64(0)
		mult := []int64{1, w, w * w}
		ok := false
		// one of the eight corners
		for c := 0; c < 8; c++ {
			off = idx
			for a := uint(0); a < 3; a++ {
				if c>>a&1 == 1 {
					off += skip * mult[a]
				}
			}
			if ti[k] == off {
				ok = true
				seen[k] = c
			}
		}
		vx.Assert(ok, "every corner is a corner of the cube")
		cc := c08coords(ti[k], w)
		for a := 0; a < 3; a++ {
			vx.Assert(vx.And(cc[a] >= at[a], vx.And(cc[a] <= at[a]+skip, cc[a] < w)), "every corner is inside the grid")
		}
	}
	for k := 0; k < 4; k++ {
		for j := 0; j < k; j++ {
			vx.Assert(seen[j] != seen[k], "the corners are different")
		}
	}
	if skip == 1 {
		var tc TetraIdxs
		tc.InitCartesian(x, y, z, w, dir)
		for k := 0; k < 4; k++ {
			vx.Assert(tc[k] == ti[k], "both ways of naming a cube give the same tetrahedron")
		}
	}
	vx.ObsI("i0", int(ti[0]))
}

// c08tets: all tetrahedra of all cubes of a small grid, in Lagrangian coordinates.
func c08tets(w, skip int64) [][4][3]float64 {
	out := [][4][3]float64{}
	for z := int64(0); z+skip < w; z += skip {
		for y := int64(0); y+skip < w; y += skip {
			for x := int64(0); x+skip < w; x += skip {
				for dir := 0; dir < TetraDirCount; dir++ {
					ti := NewTetraIdxs(x+y*w+z*w*w, w, skip, dir)
					var t [4][3]float64
					for k := 0; k < 4; k++ {
						c := c08coords(ti[k], w)
						t[k] = [3]float64{float64(c[0]), float64(c[1]), float64(c[2])}
					}
					out = append(out, t)
				}
			}
		}
	}
	return out
}

// Every point of the sheet is in a tetrahedron and no point is inside two.
//vx: mode=real split unwind=1000 timeout=300
func VX_C08_tiling() {
	w, skip := int64(2), int64(1)
	switch vx.Choose("grid", 0, 2) {
	case 1:
		w = 3
	case 2:
		w, skip = 5, 4
	}
	top := float64(w - 1)
	p := [3]float64{vx.F64("x", 0, 4), vx.F64("y", 0, 4), vx.F64("z", 0, 4)}
	vx.Assume(vx.And(p[0] <= top, vx.And(p[1] <= top, p[2] <= top)))
	tets := c08tets(w, skip)
	some, n := false, 0
	vol := 0.0
	for _, t := range tets {
		closed, open := c08inside(t, p)
		some = vx.Or(some, closed)
		n += vx.IfI(open, 1, 0)
		_, v := c08bary(t, p)
		vol += v
	}
	vx.Assert(some, "every point of the sheet is in a tetrahedron")
	vx.Assert(n <= 1, "no point is inside two tetrahedra")
	vx.Assert(vol == 6*top*top*top, "the volumes of the tetrahedra add up to the volume of the sheet")
	vx.ObsI("n", n)
}

// The eight centred tetrahedra of a particle.
//vx: mode=real split timeout=300
func VX_C08_centred() {
	w := int64([]int{2, 3, 5, 65}[vx.Choose("width", 0, 3)])
	skip := int64(vx.Choose("skip", 1, 2))
	x, y, z := int64(vx.Int("x", 0, 64)), int64(vx.Int("y", 0, 64)), int64(vx.Int("z", 0, 64))
	vx.Assume(vx.And(x < w, vx.And(y < w, z < w)))
	dir := vx.Choose("dir", 0, TetraCenteredCount-1)
	idx := x + y*w + z*w*w
	var ti TetraIdxs
	_, ok := ti.InitCentered(idx, w, skip, dir)

	// the octant is found on a grid where everything fits
	s, valid := c08octant(dir)
	vx.Assert(valid, "the tetrahedron is spanned by one neighbour along each axis")
	fits := true
	for a, v := range [3]int64{x, y, z} {
		fits = vx.And(fits, vx.And(v+skip*s[a] >= 0, v+skip*s[a] < w))
	}
	vx.Assert(ok == fits, "a tetrahedron is accepted exactly if its corners are in the grid")
	if ok {
		vx.Assert(ti[3] == idx, "the particle is a corner")
		mult := [3]int64{1, w, w * w}
		for a := 0; a < 3; a++ {
			want := idx + skip*s[a]*mult[a]
			vx.Assert(ti[0] == want || ti[1] == want || ti[2] == want, "the neighbours along the axes are corners")
		}
	}
}

// c08octant reads the signs of the octant of a centred tetrahedron off a 5-wide grid.
func c08octant(dir int) (s [3]int64, ok bool) {
	var ti TetraIdxs
	c := int64(2 + 2*5 + 2*25)
	if _, ok = ti.InitCentered(c, 5, 1, dir); !ok {
		return s, false
	}
	mult := [3]int64{1, 5, 25}
	for k := 0; k < 3; k++ {
		for a := 0; a < 3; a++ {
			if ti[k]-c == mult[a] {
				s[a] = 1
			} else if ti[k]-c == -mult[a] {
				s[a] = -1
			}
		}
	}
	return s, s[0] != 0 && s[1] != 0 && s[2] != 0
}

// The eight octants are different, so the tetrahedra surround the particle without overlap.
//vx: mode=real
func VX_C08_octants() {
	d1, d2 := vx.Choose("d1", 0, TetraCenteredCount-1), vx.Choose("d2", 0, TetraCenteredCount-1)
	s1, ok1 := c08octant(d1)
	s2, ok2 := c08octant(d2)
	vx.Assert(ok1 && ok2, "the tetrahedron is spanned by one neighbour along each axis")
	vx.Assert((s1 == s2) == (d1 == d2), "each octant has one tetrahedron")
	p := [3]float64{vx.F64("x", -1, 1), vx.F64("y", -1, 1), vx.F64("z", -1, 1)}
	in := func(s [3]int64) bool {
		t := [4][3]float64{{}, {float64(s[0]), 0, 0}, {0, float64(s[1]), 0}, {0, 0, float64(s[2])}}
		_, open := c08inside(t, p)
		return open
	}
	vx.Assert(vx.Implies(d1 != d2, vx.Not(vx.And(in(s1), in(s2)))), "centred tetrahedra do not overlap")
}

// Unknown directions are refused.
//vx: mode=real
func VX_C08_dirs() {
	dir := vx.Int("dir", -100, 100)
	var ti TetraIdxs
	bad := vx.Catch(func() { ti.Init(0, 5, 1, dir) })
	vx.Assert(bad == (dir < 0 || dir >= TetraDirCount), "exactly the known directions are accepted")
	bad = vx.Catch(func() { ti.InitCentered(62, 5, 1, dir) })
	vx.Assert(bad == (dir < 0 || dir >= TetraCenteredCount), "exactly the known centred directions are accepted")
}
