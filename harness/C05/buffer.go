//vx:pkg render/io
package io

import (
	"github.com/phil-mansfield/gotetra/render/geom"
	vx "github.com/phil-mansfield/gotetra/zzvx"
)

func c05vecs(name string, n int) []geom.Vec {
	vs := make([]geom.Vec, n)
	for i := range vs {
		for k := 0; k < 3; k++ {
			vs[i][k] = vx.F32Any(name)
		}
	}
	return vs
}

func c05same(a, b geom.Vec) bool {
	return vx.And(vx.Same32(a[0], b[0]), vx.And(vx.Same32(a[1], b[1]), vx.Same32(a[2], b[2])))
}

// c05run cuts n particles with the given ids into batches, with flushes in between.
func c05run(n, sites int, ids []int64) {
	capacity := vx.Choose("capacity", 1, n+1)
	xs, vs := c05vecs("x", n), c05vecs("v", n)
	xs0, vs0 := c05vecs("x0", sites), c05vecs("v0", sites)
	outX, outV := append([]geom.Vec{}, xs0...), append([]geom.Vec{}, vs0...)
	inX, inV, inID := append([]geom.Vec{}, xs...), append([]geom.Vec{}, vs...), append([]int64{}, ids...)
	pb := NewParticleBuffer(outX, outV, capacity)
	// A bit per boundary between particles: cut there or not; flush there or not.
	cuts, flush := vx.Choose("cuts", 0, 1<<uint(n-1)-1), vx.Choose("flush", 0, 2)
	lo := 0
	for hi := 1; hi <= n; hi++ {
		if hi < n && cuts>>uint(hi-1)&1 == 0 {
			continue
		}
		pb.Append(inX[lo:hi], inV[lo:hi], inID[lo:hi])
		if flush == 2 || flush == 1 && lo == 0 {
			pb.Flush()
		}
		lo = hi
	}
	pb.Flush()
	for round := 0; round < 2; round++ {
		// Site by site: the last particle with that id, or what was there before.
		okX, okV := true, true
		for s := 0; s < sites; s++ {
			sameX, sameV := c05same(outX[s], xs0[s]), c05same(outV[s], vs0[s])
			for i := 0; i < n; i++ {
				here := ids[i] == int64(s+1)
				sameX = vx.Or(vx.And(here, c05same(outX[s], xs[i])), vx.And(vx.Not(here), sameX))
				sameV = vx.Or(vx.And(here, c05same(outV[s], vs[i])), vx.And(vx.Not(here), sameV))
			}
			okX, okV = vx.And(okX, sameX), vx.And(okV, sameV)
		}
		vx.Assert(okX, "positions are at their particle's place")
		vx.Assert(okV, "velocities are at their particle's place")
		pb.Flush() // Flushing again changes nothing.
	}
	ok := true
	for i := range inX {
		ok = vx.And(ok, vx.And(c05same(inX[i], xs[i]), vx.And(c05same(inV[i], vs[i]), inID[i] == ids[i])))
	}
	vx.Assert(ok, "the caller's batches are not altered")
}

// Every order of the particles of a snapshot.
//vx: mode=fp split
func VX_C05_permutations() {
	n := 4 + vx.Tier()
	ids := make([]int64, n)
	for i := range ids {
		ids[i] = vx.I64("id")
		vx.Assume(vx.And(ids[i] >= 1, ids[i] <= int64(n)))
		for j := 0; j < i; j++ {
			vx.Assume(ids[i] != ids[j])
		}
	}
	c05run(n, n, ids)
}

// Particles of some of the sites only, repeated ids included: the last one stays.
//vx: mode=fp split
func VX_C05_any() {
	n := 4
	ids := make([]int64, n)
	for i := range ids {
		ids[i] = vx.I64("id")
		vx.Assume(vx.And(ids[i] >= 1, ids[i] <= 5))
	}
	c05run(n, 5, ids)
}

// Empty batches are harmless.
//vx: mode=fp split
func VX_C05_empty() {
	xs, vs := c05vecs("x", 2), c05vecs("v", 2)
	outX, outV := make([]geom.Vec, 2), make([]geom.Vec, 2)
	pb := NewParticleBuffer(outX, outV, vx.Choose("capacity", 1, 4))
	pb.Flush()
	pb.Append(nil, nil, nil)
	pb.Append(xs[:1], vs[:1], []int64{2})
	pb.Append(xs[1:1], vs[1:1], []int64{})
	pb.Append(xs[1:], vs[1:], []int64{1})
	pb.Append(nil, nil, nil)
	pb.Flush()
	for i := range xs {
		vx.Assert(vx.And(c05same(outX[1-i], xs[i]), c05same(outV[1-i], vs[i])), "every particle is placed")
	}
}

// Long streams: arbitrary capacities and batch lengths.
//vx: mode=fp split unwind=4000
func VX_C05_long() {
	n := 40 * (1 + 2*vx.Tier())
	capacity, batch, off := vx.Choose("capacity", 1, n+2), vx.Choose("batch", 1, 9), vx.Choose("off", 0, 2)
	xs, vs := c05vecs("x", n), c05vecs("v", n)
	ids := make([]int64, n)
	for i := range ids {
		ids[i] = int64((i*7+off*11)%n + 1)
	}
	outX, outV := make([]geom.Vec, n), make([]geom.Vec, n)
	pb := NewParticleBuffer(outX, outV, capacity)
	for lo := 0; lo < n; lo += batch {
		hi := lo + batch
		if hi > n {
			hi = n
		}
		// Batches come out of a buffer that is used again.
		bx, bv, bi := append([]geom.Vec{}, xs[lo:hi]...), append([]geom.Vec{}, vs[lo:hi]...), append([]int64{}, ids[lo:hi]...)
		pb.Append(bx, bv, bi)
		for i := range bx {
			bx[i], bv[i], bi[i] = geom.Vec{}, geom.Vec{}, 1
		}
	}
	pb.Flush()
	ok := true
	for i := range xs {
		s := ids[i] - 1
		ok = vx.And(ok, vx.And(c05same(outX[s], xs[i]), c05same(outV[s], vs[i])))
	}
	vx.Assert(ok, "every particle of a long stream is placed")
}
