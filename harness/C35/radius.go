//vx:pkg render/halo
package halo

import (
	"strings"

	"github.com/phil-mansfield/gotetra/cosmo"
	"github.com/phil-mansfield/gotetra/render/io"
	vx "github.com/phil-mansfield/gotetra/zzvx"
)

var c35all = []Radius{RVirial, R200c, R200m, R500c, R2500c}

func c35cosmo() *io.CosmologyHeader {
	return &io.CosmologyHeader{Z: vx.F64("z", -0.5, 20), OmegaM: vx.F64("om", 0.0625, 2), OmegaL: vx.F64("ol", 0, 2), H100: vx.F64("h", 0.25, 2)}
}

// c35threshold is the mean physical density within a radius.
func c35threshold(r Radius, c *io.CosmologyHeader) float64 {
	crit := cosmo.RhoCritical(c.H100*100, c.OmegaM, c.OmegaL, c.Z)
	switch r {
	case R200c:
		return 200 * crit
	case R500c:
		return 500 * crit
	case R2500c:
		return 2500 * crit
	case R200m:
		return 200 * cosmo.RhoAverage(c.H100*100, c.OmegaM, c.OmegaL, c.Z)
	}
	return 177.653 * crit // 18 pi^2
}

// The mass within a radius is the threshold times the volume.
//vx: mode=real timeout=200
func VX_C35_mass() {
	r, c := c35all[vx.Choose("def", 0, 4)], c35cosmo()
	rs := []float64{vx.F64("r0", 0, 100), vx.F64("r1", 0, 100)}
	r0, r1 := rs[0], rs[1]
	ms := make([]float64, 2)
	r.Mass(c, rs, ms)
	vx.Assert(vx.And(vx.EqR(rs[0], r0), vx.EqR(rs[1], r1)), "inputs are left alone")
	for i, r0 := range []float64{r0, r1} {
		phys := r0 / (1 + c.Z)
		vol := 4 * 3.14159265358979323846264338327950288 / 3 * phys * phys * phys
		want := c35threshold(r, c) * vol
		vx.Assert(vx.And(vx.LeR(want*(1-1e-6), ms[i]), vx.LeR(ms[i], want*(1+1e-6))), "the density within the radius is the threshold of the definition")
	}
	vx.Obs("m", ms[0])
}

// A mass converted to a radius and back is the same mass.
//vx: mode=real timeout=200
func VX_C35_back() {
	r, c := c35all[vx.Choose("def", 0, 4)], c35cosmo()
	ms := []float64{vx.F64("m0", 0, 1e4) * 1e12, vx.F64("m1", 0, 1e4) * 1e12}
	m0, m1 := ms[0], ms[1]
	rs := make([]float64, 2)
	r.Radius(c, ms, rs)
	vx.Assert(vx.And(vx.EqR(ms[0], m0), vx.EqR(ms[1], m1)), "inputs are left alone")
	vx.Assert(vx.And(vx.LeR(0, rs[0]), vx.LeR(0, rs[1])), "radii are not negative")
	back := make([]float64, 2)
	r.Mass(c, rs, back)
	vx.Assert(vx.EqR(back[0], m0), "a mass comes back from its radius")
	vx.Assert(vx.EqR(back[1], m1), "a mass comes back from its radius")
	// In place, as the catalog readers use it.
	r.Radius(c, ms, ms)
	vx.Assert(vx.And(vx.EqR(ms[0], rs[0]), vx.EqR(ms[1], rs[1])), "conversions work in place")
	r.Mass(c, ms, ms)
	vx.Assert(vx.EqR(ms[1], m1), "conversions work in place")
}

// The radius is comoving: radii of one mass for two definitions enclose that mass.
//vx: mode=real timeout=200
func VX_C35_comoving() {
	r, c := c35all[vx.Choose("def", 0, 4)], c35cosmo()
	m := vx.F64("m", 1, 1e4) * 1e12
	out := make([]float64, 1)
	r.Radius(c, []float64{m}, out)
	phys := out[0] / (1 + c.Z)
	vol := 4 * 3.14159265358979323846264338327950288 / 3 * phys * phys * phys
	want := c35threshold(r, c) * vol
	vx.Assert(vx.And(vx.LeR(want*(1-1e-6), m), vx.LeR(m, want*(1+1e-6))), "the density within the radius is the threshold of the definition")
}

// Names.
//vx: mode=real
func VX_C35_names() {
	r := c35all[vx.Choose("def", 0, 4)]
	s := r.String()
	switch vx.Choose("case", 0, 3) {
	case 1:
		s = strings.ToUpper(s)
	case 2:
		s = strings.ToLower(s)
	case 3:
		s = s[1:]
	}
	got, ok := RadiusFromString(s)
	vx.Assert(ok && got == r, "names convert to definitions and back")
	names := []string{"vir", "200c", "200m", "500c", "2500c"}
	got, ok = RadiusFromString(names[r])
	vx.Assert(ok && got == r, "names convert to definitions and back")
	for _, bad := range []string{"", "r", "200", "200x", "r2500m", " 200c", "rr200c", "500", "rvirial"} {
		_, ok := RadiusFromString(bad)
		vx.Assert(!ok, "other names are refused")
	}
}

// The column of a catalog that a definition is read from.
//vx: mode=real
func VX_C35_columns() {
	want := map[Radius]Val{RVirial: RVir, R200c: M200c, R200m: M200b, R500c: M500c, R2500c: M2500c}
	r := c35all[vx.Choose("def", 0, 4)]
	vx.Assert(r.RockstarColumn() == int(want[r]), "definitions are read from their own columns")
	vx.Assert(r.RockstarMass() == (r != RVirial), "masses are told from radii")
}
