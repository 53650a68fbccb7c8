//vx:pkg cosmo
package cosmo

import vx "github.com/phil-mansfield/gotetra/zzvx"

func c22draw() (h0, om, ol, z float64) {
	return vx.F64("H0", 10, 200), vx.F64("omegaM", 0, 2), vx.F64("omegaL", 0, 2), vx.F64("z", -0.9375, 20)
}

func c22e2(om, ol, z float64) float64 { return om*(1+z)*(1+z)*(1+z) + ol }

// c22near: equal up to one part in a thousand (for positive a and b).
func c22near(a, b float64) bool {
	return vx.And(vx.LeR(0.999*b, a), vx.LeR(a, 1.001*b))
}

// The expansion rate is the root of the Friedmann equation.
//vx: mode=real timeout=100
func VX_C22_hubble() {
	_, om, ol, z := c22draw()
	h := HubbleFrac(om, ol, z)
	vx.Assert(vx.LeR(0, h), "the expansion rate is not negative")
	vx.Assert(vx.EqR(h*h, c22e2(om, ol, z)), "the expansion rate satisfies the Friedmann equation")
	vx.Obs("h", h)
}

// The critical density follows the square of the expansion rate, in units where the Hubble
// constant is 100: 3 H^2 / 8 pi G.
//vx: mode=real timeout=100
func VX_C22_critical() {
	h0, om, ol, z := c22draw()
	h0b := vx.F64("H0b", 10, 200)
	omb, olb := vx.F64("omb", 0.125, 2), vx.F64("olb", 0.125, 2)
	e2 := c22e2(om, ol, z)
	r := RhoCritical(h0, om, ol, z)
	ref := RhoCritical(h0b, omb, olb, 0)
	vx.Assert(vx.EqR(r*(omb+olb), ref*e2), "the critical density scales with the square of the expansion rate and not with H0")
	vx.Assert(c22near(RhoCritical(h0, 0.25, 0.75, 0), 2.7754e11), "the critical density today is that of H0 = 100 h")
	vx.Obs("r", r)
}

// The mean density scales as (1+z)^3 and equals the matter fraction today.
//vx: mode=real timeout=100
func VX_C22_average() {
	h0, om, ol, z := c22draw()
	a0, az := RhoAverage(h0, om, ol, 0), RhoAverage(h0, om, ol, z)
	vx.Assert(vx.EqR(az, a0*(1+z)*(1+z)*(1+z)), "matter density scales as the cube of one plus redshift")
	vx.Assert(vx.EqR(a0, om*RhoCritical(h0, om, ol, 0)), "the mean density today is the matter fraction of the critical density")
	vx.Obs("az", az)
}

// In a flat universe the fractions of matter and dark energy add up to one at every redshift.
//vx: mode=real timeout=100
func VX_C22_flat() {
	h0, z := vx.F64("H0", 10, 200), vx.F64("z", -0.9375, 20)
	om := vx.F64("omegaM", 0, 1)
	ol := 1 - om
	rc := RhoCritical(h0, om, ol, z)
	dark := ol * RhoCritical(h0, om, ol, 0)
	vx.Assert(vx.EqR(RhoAverage(h0, om, ol, z)+dark, rc), "matter and dark energy make up the critical density of a flat universe")
}
