//vx:pkg render/halo
package halo

import (
	"io/ioutil"
	"os"

	"github.com/phil-mansfield/gotetra/render/io"
	"github.com/phil-mansfield/table"
	vx "github.com/phil-mansfield/gotetra/zzvx"
)

func c39cosmo() *io.CosmologyHeader {
	return &io.CosmologyHeader{Z: 1, OmegaM: 0.25, OmegaL: 0.75, H100: 0.75}
}

// c39table makes a catalog of n halos; column c of halo i holds c*16 + i, apart from those in sym.
func c39table(n int, sym ...Val) [][]float64 {
	cols := make([][]float64, int(valNum))
	for c := range cols {
		cols[c] = make([]float64, n)
		for i := range cols[c] {
			cols[c][i] = float64(c*16 + i + 1)
		}
	}
	for _, s := range sym {
		for i := range cols[s] {
			cols[s][i] = vx.F64("v", 0, 1024)
		}
	}
	table.Data["cat"] = cols
	return cols
}

// All values survive conversion to a binary catalog.
//vx: mode=real unwind=4000
func VX_C39_convert() {
	n := vx.Choose("n", 0, 3)
	cols := c39table(n, X, M200b)
	out := vx.Temp() + "/cat"
	vx.Assert(RockstarConvert("cat", out) == nil, "a catalog can be converted")
	fi, err := os.Stat(out)
	vx.Assert(err == nil && fi.Size() == int64(8+8*n*len(cols)), "the converted catalog holds all columns and no more")
	all := make([]Val, len(cols))
	for i := range all {
		all[i] = Val(i)
	}
	ids, vals, err := ReadBinaryRockstarVals(out, c39cosmo(), all...)
	vx.Assert(err == nil && len(ids) == n && len(vals) == len(all), "a converted catalog can be read")
	for i := range ids {
		vx.Assert(ids[i] == int(cols[ID][i]), "ids survive conversion")
		for c := range cols {
			want := cols[c][i]
			if c == int(RVir) || c == int(Rs) || c == int(RsKylpin) {
				want /= 1000
			}
			vx.Assert(vx.EqR(vals[c][i], want), "values survive conversion; lengths are in Mpc")
		}
	}
}

// Text and binary catalogs read alike, also for radii that are found from masses.
//vx: mode=real unwind=4000
func VX_C39_same() {
	n := vx.Choose("n", 0, 2)
	cols := c39table(n, MVir, M200b, M200c, M500c, M2500c, RVir)
	out := vx.Temp() + "/cat"
	vx.Assert(RockstarConvert("cat", out) == nil, "a catalog can be converted")
	flags := []Val{}
	rad := []Val{RadVir, Rad200b, Rad200c, Rad500c, Rad2500c}
	mass := []Val{MVir, M200b, M200c, M500c, M2500c}
	defs := []Radius{RVirial, R200m, R200c, R500c, R2500c}
	k := vx.Choose("val", 0, 5)
	switch k {
	case 5:
	default:
		flags = []Val{X, rad[k], mass[k], RVir, rad[k], ID, Z}
	}
	ids, vals, err := ReadBinaryRockstarVals(out, c39cosmo(), flags...)
	tids, tvals, terr := ReadRockstarVals("cat", c39cosmo(), flags...)
	vx.Assert(err == nil && terr == nil && len(ids) == n && len(tids) == n && len(vals) == len(flags) && len(tvals) == len(flags), "catalogs can be read")
	for i := 0; i < n; i++ {
		vx.Assert(ids[i] == int(cols[ID][i]) && tids[i] == ids[i], "ids are those of the catalog")
	}
	for j, f := range flags {
		vx.Assert(len(vals[j]) == n && len(tvals[j]) == n, "catalogs can be read")
		for i := 0; i < n; i++ {
			vx.Assert(vx.EqR(vals[j][i], tvals[j][i]), "text and binary catalogs read alike")
			switch f {
			case RVir:
				vx.Assert(vx.EqR(vals[j][i], cols[RVir][i]/1000), "values are those of the catalog")
			case rad[k]:
				r := make([]float64, 1)
				defs[k].Radius(c39cosmo(), []float64{cols[mass[k]][i]}, r)
				vx.Assert(vx.EqR(vals[j][i], r[0]), "radii are those of the masses")
			default:
				vx.Assert(vx.EqR(vals[j][i], cols[f][i]), "values are those of the catalog")
			}
		}
	}
}

// The largest halos, with all that belongs to them.
//vx: mode=real split timeout=100 unwind=4000
func VX_C39_top() {
	n := vx.Choose("n", 0, 3+vx.Tier())
	keep := vx.Choose("keep", 0, n+1)
	cols := c39table(n, M200b)
	out := vx.Temp() + "/cat"
	vx.Assert(RockstarConvertTopN("cat", out, keep) == nil, "a catalog can be converted")
	if keep > n {
		keep = n
	}
	fi, err := os.Stat(out)
	vx.Assert(err == nil && fi.Size() == int64(8+8*keep*len(cols)), "the converted catalog holds as many halos as asked for")
	ids, vals, err := ReadBinaryRockstarVals(out, c39cosmo(), M200b, X, AccRateTdyn)
	vx.Assert(err == nil && len(ids) == keep, "the converted catalog holds as many halos as asked for")
	smallest := 2048.0
	var used [8]int
	for i := range ids {
		h := ids[i] - 16 - 1
		vx.Assert(h >= 0 && h < n, "halos are those of the catalog")
		used[h]++
		vx.Assert(used[h] == 1, "no halo is kept twice")
		vx.Assert(vx.And(vx.EqR(vals[0][i], cols[M200b][h]), vals[1][i] == cols[X][h] && vals[2][i] == cols[AccRateTdyn][h]), "values stay with their halo")
		smallest = vx.IfF(vals[0][i] < smallest, vals[0][i], smallest)
	}
	for h := 0; h < n; h++ {
		vx.Assert(used[h] == 1 || vx.LeR(cols[M200b][h], smallest), "the halos kept are the largest")
	}
}

// Catalogs that are read whole are in order of decreasing size.
//vx: mode=real timeout=100
func VX_C39_sorted() {
	def := []Radius{RVirial, R200c, R200m, R500c, R2500c}[vx.Choose("def", 0, 4)]
	col := []Val{RVir, M200c, M200b, M500c, M2500c}[def]
	n := vx.Choose("n", 0, 3)
	vx.Assume(vx.Tier() == 1 || n < 3 || def < 2)
	cols := c39table(n, col)
	ids, xs, ys, zs, ms, rs, err := ReadRockstar("cat", def, c39cosmo())
	vx.Assert(err == nil && len(ids) == n && len(xs) == n && len(ys) == n && len(zs) == n && len(ms) == n && len(rs) == n, "a catalog can be read")
	var used [8]int
	for i := range ids {
		h := ids[i] - 16 - 1
		vx.Assert(h >= 0 && h < n, "halos are those of the catalog")
		used[h]++
		vx.Assert(used[h] == 1, "no halo is read twice")
		vx.Assert(xs[i] == cols[X][h] && ys[i] == cols[Y][h] && zs[i] == cols[Z][h], "values stay with their halo")
		if i > 0 {
			vx.Assert(vx.LeR(rs[i], rs[i-1]), "halos are in order of decreasing size")
		}
		if def == RVirial {
			vx.Assert(vx.EqR(rs[i], cols[col][h]/1000), "values stay with their halo")
		} else {
			vx.Assert(vx.EqR(ms[i], cols[col][h]), "values stay with their halo")
		}
		m := make([]float64, 1)
		def.Mass(c39cosmo(), []float64{rs[i]}, m)
		vx.Assert(vx.EqR(ms[i], m[0]), "masses and radii agree")
	}
}

// Catalogs that are missing or cut short give errors.
//vx: mode=real unwind=4000
func VX_C39_errors() {
	out := vx.Temp() + "/cat"
	n := vx.Choose("n", 1, 2)
	c39table(n)
	_, _, err := ReadBinaryRockstarVals(out, c39cosmo(), X)
	vx.Assert(err != nil, "a missing catalog gives an error")
	_, _, err = ReadRockstarVals("none", c39cosmo(), X)
	vx.Assert(err != nil, "a missing catalog gives an error")
	_, _, _, _, _, _, err = ReadRockstar("none", R200c, c39cosmo())
	vx.Assert(err != nil, "a missing catalog gives an error")
	vx.Assert(RockstarConvert("none", out) != nil && RockstarConvertTopN("none", out, 1) != nil, "a missing catalog gives an error")
	vx.Assert(RockstarConvert("cat", vx.Temp()+"/no/such") != nil && RockstarConvertTopN("cat", vx.Temp()+"/no/such", 1) != nil, "a catalog that cannot be written gives an error")
	vx.Assert(RockstarConvert("cat", out) == nil, "a catalog can be converted")
	b, err := ioutil.ReadFile(out)
	vx.Assert(err == nil, "a catalog can be converted")
	// Cut within the header or within the last column.
	cut := vx.Choose("cut", 0, 15)
	if cut >= 8 {
		cut += len(b) - 16
	}
	ioutil.WriteFile(out, b[:cut], 0644)
	_, _, err = ReadBinaryRockstarVals(out, c39cosmo(), AccRateTdyn)
	vx.Assert(err != nil, "a catalog that is cut short gives an error")
}
