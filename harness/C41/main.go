//vx:pkg render/main
package main

import (
	"encoding/binary"
	"flag"
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"strings"

	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
	vx "github.com/phil-mansfield/gotetra/zzvx"
)

type c41snap struct {
	n            int
	xs, vs       []geom.Vec
	width        float64
	mass         float64
	z, om, ol, h float64
}

// c41new places every particle near its site, so that all of them differ.
func c41new(n int) *c41snap {
	s := &c41snap{n: n, width: float64(4 * n), mass: 3, z: 0.5, om: 0.25, ol: 0.75, h: 0.5}
	s.xs, s.vs = make([]geom.Vec, n*n*n), make([]geom.Vec, n*n*n)
	for i := range s.xs {
		at := [3]int{i % n, i / n % n, i / (n * n)}
		for k := 0; k < 3; k++ {
			s.xs[i][k] = float32(4*at[k]) + float32(1+(i*(k+3))%7)/8
			s.vs[i][k] = float32((i*(k+5)+k)%97) - 48
		}
	}
	return s
}

func c41bytes(b *[]byte, x interface{}) {
	put32 := func(u uint32) {
		var w [4]byte
		binary.LittleEndian.PutUint32(w[:], u)
		*b = append(*b, w[:]...)
	}
	put64 := func(u uint64) { put32(uint32(u)); put32(uint32(u >> 32)) }
	switch v := x.(type) {
	case uint32:
		put32(v)
	case uint64:
		put64(v)
	case float32:
		put32(math.Float32bits(v))
	case float64:
		put64(math.Float64bits(v))
	}
}

// write stores the snapshot in several files, with the particles in the order of ids.
func (s *c41snap) write(dir string, files int, ids []int, idSize int) {
	vx.Assert(os.MkdirAll(dir, 0777) == nil, "setup")
	lo := 0
	for f := 0; f < files; f++ {
		hi := len(ids) * (f + 1) / files
		var b []byte
		c41bytes(&b, uint32(256))
		for i := 0; i < 6; i++ {
			c41bytes(&b, uint32(vx.IfI(i == 1, hi-lo, 0)))
		}
		for i := 0; i < 6; i++ {
			if i == 1 {
				c41bytes(&b, s.mass)
			} else {
				c41bytes(&b, 0.0)
			}
		}
		c41bytes(&b, 1.0)
		c41bytes(&b, s.z)
		c41bytes(&b, uint64(0))
		for i := 0; i < 6; i++ {
			c41bytes(&b, uint32(vx.IfI(i == 1, len(ids), 0)))
		}
		c41bytes(&b, uint64(0))
		for _, x := range []float64{s.width, s.om, s.ol, s.h} {
			c41bytes(&b, x)
		}
		b = append(b, make([]byte, 260-len(b))...)
		c41bytes(&b, uint32(256))
		for _, vecs := range [][]geom.Vec{s.xs, s.vs} {
			c41bytes(&b, uint32(12*(hi-lo)))
			for _, id := range ids[lo:hi] {
				for _, x := range vecs[id] {
					c41bytes(&b, x)
				}
			}
			c41bytes(&b, uint32(12*(hi-lo)))
		}
		c41bytes(&b, uint32(idSize/8*(hi-lo)))
		for _, id := range ids[lo:hi] {
			if idSize == 64 {
				c41bytes(&b, uint64(id+1))
			} else {
				c41bytes(&b, uint32(id+1))
			}
		}
		c41bytes(&b, uint32(idSize/8*(hi-lo)))
		vx.Assert(ioutil.WriteFile(fmt.Sprintf("%s/snap.%d", dir, f), b, 0666) == nil, "setup")
		lo = hi
	}
}

func c41ids(n3, which int) []int {
	ids := make([]int, n3)
	for i := range ids {
		switch which {
		case 0:
			ids[i] = i
		case 1:
			ids[i] = n3 - 1 - i
		default:
			ids[i] = (i*13 + 5) % n3
		}
	}
	return ids
}

// c41main runs the program and tells whether it refused.
func c41main(args ...string) bool {
	os.Args = append([]string{"gotetra", "-Threads", "2"}, args...)
	flag.CommandLine = flag.NewFlagSet("gotetra", flag.PanicOnError)
	return vx.Catch(main)
}

func c41write(file, text string) string {
	file = vx.Temp() + "/" + file
	vx.Assert(ioutil.WriteFile(file, []byte(text), 0666) == nil, "setup")
	return file
}

// c41set fills in the paths of an example.
func c41set(text, key, value string) string {
	lines := strings.Split(text, "\n")
	n := 0
	for i, l := range lines {
		if f := strings.Fields(l); len(f) > 1 && f[0] == key && f[1] == "=" {
			lines[i] = key + " = " + value
			n++
		}
	}
	vx.Assert(n == 1, "examples have every required setting once")
	return strings.Join(lines, "\n")
}

func c41names(dir string) []string {
	infos, err := ioutil.ReadDir(dir)
	if err != nil {
		return nil
	}
	var names []string
	for _, info := range infos {
		names = append(names, info.Name())
	}
	return names
}

// c41sheet is a single cube, [100,200)x[0,100)x[0,100) in a box of 50000, of a simulation of 500 cubes a side.
func c41sheet(dir string, any bool) *io.SheetHeader {
	hd := &io.SheetHeader{}
	hd.Cosmo = io.CosmologyHeader{Z: 1, OmegaM: 0.25, OmegaL: 0.75, H100: 0.5}
	if any {
		hd.Cosmo = io.CosmologyHeader{Z: vx.F64("z", 0, 10), OmegaM: vx.F64("om", 0, 1), OmegaL: vx.F64("ol", 0, 1), H100: vx.F64("h", 0.25, 2)}
	}
	hd.CountWidth, hd.Count, hd.Cells = 500, 500*500*500, 500
	hd.SegmentWidth, hd.GridWidth, hd.GridCount = 1, 2, 8
	hd.TotalWidth, hd.Mass = 50000, 4
	hd.Origin, hd.Width = geom.Vec{100, 0, 0}, geom.Vec{100, 100, 100}
	xs := make([]geom.Vec, 8)
	for i := range xs {
		xs[i] = geom.Vec{100 + 100*float32(i%2), 100 * float32(i/2%2), 100 * float32(i/4)}
	}
	vx.Assert(os.MkdirAll(dir, 0777) == nil, "setup")
	io.WriteSheet(dir+"/sheet000.dat", hd, xs, make([]geom.Vec, 8))
	return hd
}

// c41grid is a grid of pixels of 100 at the start of that box.
func c41grid() string {
	file := vx.Temp() + "/grid.gtet"
	f, err := os.Create(file)
	vx.Assert(err == nil, "setup")
	rhos := []float64{50, 0.5, 60, 70, 0.5, 0.5}
	io.WriteBuffer(density.WrapperDensityBuffer(rhos), io.NewCosmoInfo(70, 0.3, 0.7, 0, 50000), io.NewRenderInfo(1, 500, 1, ""), io.NewLocationInfo([3]int{}, [3]int{3, 2, 1}, 100), f)
	f.Close()
	return file
}

// The examples that the program prints are configurations that it accepts as they are.
//vx: mode=real split clock=fixed unwind=4000000 sched=fifo timeout=300
func VX_C41_examples() {
	in, out := vx.Temp()+"/in", vx.Temp()+"/out"
	vx.Assert(os.MkdirAll(out, 0777) == nil, "setup")
	box, ball := c41write("box.cfg", io.ExampleBoxFile), c41write("ball.cfg", io.ExampleBallFile)
	switch vx.Choose("example", 0, 3) {
	case 0: // images of a simulation
		hd := c41sheet(in, true)
		cfg := c41write("render.cfg", c41set(c41set(io.ExampleRenderFile, "Input", in), "Output", out))
		vx.Assert(!c41main("-Render", cfg, box, ball), "the examples are accepted")
		vx.Assert(strings.Join(c41names(out), " ") == "my_halo.gtet my_z_slice.gtet", "each region has its own file")
		for i, name := range []string{"my_z_slice", "my_halo"} {
			g, err := io.ReadGridHeader(out + "/" + name + ".gtet")
			vx.Assert(err == nil, "images can be read")
			vx.Assert(g.Render.Particles == 25 && g.Render.TotalPixels == 500 && g.Render.SubsampleLength == 1 && g.Render.ProjectionAxis == -1, "the settings of the example are used")
			vx.Assert(vx.And(vx.EqR(g.Cosmo.Redshift, hd.Cosmo.Z), vx.EqR(g.Cosmo.OmegaM, hd.Cosmo.OmegaM)), "images are of the input")
			vx.Assert(g.Loc.PixelOrigin == [3]int64{int64(1 - i), 0, 0} && g.Loc.PixelSpan == [3]int64{1, 2, 1}, "the regions of the examples are rendered")
			v, err := io.ReadGrid(out + "/" + name + ".gtet")
			vx.Assert(err == nil && len(v) == 2, "images can be read")
			vx.Assert(vx.EqR(v[0], float64(1-i)) && v[1] == 0, "the quantity of the example is rendered")
		}
	case 3: // histograms
		c41sheet(in, true)
		cfg := c41write("hist.cfg", c41set(c41set(c41set(io.ExampleTetraHistFile, "Input", in), "Output", out), "GridFile", c41grid()))
		vx.Assert(!c41main("-TetraHist", cfg, box, ball), "the examples are accepted")
		vx.Assert(strings.Join(c41names(out), " ") == "my_halo.txt my_z_slice.txt", "each region has its own file")
	case 1: // conversions
		s := c41new(8)
		s.write(in, 2, c41ids(512, 0), 64)
		cfg := c41write("convert.cfg", c41set(c41set(io.ExampleConvertSnapshotFile, "Input", in), "Output", out))
		vx.Assert(!c41main("-ConvertSnapshot", cfg), "the examples are accepted")
		vx.Assert(len(c41names(out)) == 512, "the settings of the example are used")
	case 2: // examples are printed, and nothing else happens
		which := vx.Choose("which", 0, 6)
		vx.Assert(c41main("-ExampleConfig", []string{"ConvertSnapshot", "Render", "TetraHist", "Box", "Ball", "box", "Sphere"}[which]) == (which >= 5), "there are examples of every file")
	}
}

// c41mode writes what is needed for a mode and returns its file.
func c41mode(mode, in, out string, drop, add string) string {
	text := map[string]string{
		"Render":          "Quantity = Density\nInput = IN\nOutput = OUT\nTotalPixels = 500\nParticles = 2",
		"TetraHist":       "Quantity = Density\nInput = IN\nOutput = OUT\nHistMin = 1\nHistMax = 100\nHistBins = 4\nHistScale = Log\nParticles = 2\nGridFile = GRID",
		"ConvertSnapshot": "Input = IN\nOutput = OUT\nInputFormat = LGadget-2\nCells = 2",
	}[mode]
	cfg := "[" + mode + "]\n"
	for _, l := range strings.Split(text, "\n") {
		if drop == "" || strings.Fields(l)[0] != drop {
			cfg += l + "\n"
		}
	}
	cfg += add + "\n"
	cfg = strings.Replace(cfg, "GRID", vx.Temp()+"/grid.gtet", -1)
	return c41write(mode+".cfg", strings.Replace(strings.Replace(cfg, "OUT", out, -1), "= IN", "= "+in, -1))
}

// Exactly one mode.
//vx: mode=real split clock=fixed unwind=4000000 sched=fifo timeout=300
func VX_C41_modes() {
	names := []string{"Render", "TetraHist", "ConvertSnapshot", "ExampleConfig"}
	set := vx.Choose("set", 0, 15)
	tmp := vx.Temp()
	box := c41write("box.cfg", io.ExampleBoxFile)
	c41sheet(tmp+"/in", false)
	c41grid()
	s := c41new(2)
	s.write(tmp+"/snap", 1, c41ids(8, 0), 64)
	var args []string
	n := 0
	for i, name := range names {
		vx.Assert(os.MkdirAll(tmp+"/out"+name, 0777) == nil, "setup")
		file := "Box"
		if i < 3 {
			in := tmp + "/in"
			if name == "ConvertSnapshot" {
				in = tmp + "/snap"
			}
			file = c41mode(name, in, tmp+"/out"+name, "", "")
		}
		if set>>uint(i)&1 == 1 {
			args = append(args, "-"+name, file)
			n++
		}
	}
	if vx.Choose("bounds", 0, 1) == 1 {
		args = append(args, box)
	}
	refused := c41main(args...)
	needs := n == 1 && set < 4 // a mode that needs bounds
	vx.Assert(refused == (n != 1 || needs && args[len(args)-1] != box), "one mode at a time, with the files that it needs")
	for i, name := range names {
		want := 0
		if !refused && set>>uint(i)&1 == 1 {
			want = []int{1, 1, 8, 0}[i]
		}
		vx.Assert(len(c41names(tmp+"/out"+name)) == want, "the mode that was asked for is run, and no other")
	}
}

// What a mode needs must be there.
//vx: mode=real split clock=fixed unwind=4000000 sched=fifo timeout=300
func VX_C41_required() {
	tmp := vx.Temp()
	box := c41write("box.cfg", io.ExampleBoxFile)
	mode := []string{"Render", "TetraHist", "ConvertSnapshot"}[vx.Choose("mode", 0, 2)]
	cases := map[string][][2]string{
		"Render":          {{"", ""}, {"Input", ""}, {"Output", ""}, {"Quantity", ""}, {"Quantity", "Quantity = Mass"}, {"TotalPixels", ""}, {"TotalPixels", "TotalPixels = -3"}, {"Particles", ""}, {"Particles", "Particles = -1"}, {"", "SubsampleLength = 3"}, {"", "SubsampleLength = 0"}, {"", "SubsampleLength = 2"}, {"Input", "Input = OUT/none"}, {"", "Pixels = 7"}},
		"TetraHist":       {{"", ""}, {"Input", ""}, {"Output", ""}, {"HistScale", ""}, {"HistScale", "HistScale = Sqrt"}, {"HistMin", ""}, {"HistMax", ""}, {"HistMin", "HistMin = 100"}, {"Particles", ""}, {"Particles", "Particles = -1"}, {"", "SubsampleLength = 6"}, {"", "SubsampleLength = -2"}, {"GridFile", ""}, {"GridFile", "GridFile = OUT/none"}, {"HistBins", ""}, {"Quantity", ""}, {"Quantity", "Quantity = Mass"}},
		"ConvertSnapshot": {{"", ""}, {"Input", ""}, {"Output", ""}, {"InputFormat", ""}, {"InputFormat", "InputFormat = Gadget-9"}, {"Cells", ""}, {"Cells", "Cells = -1"}, {"Cells", "Cells = 3"}, {"", "Gadget2IDSize = 16"}, {"", "IteratedInput = OUT/in%d"}, {"", "IteratedOutput = OUT/in%d"}, {"Input", "Input = OUT/none"}},
	}[mode]
	which := vx.Choose("case", 0, 16)
	vx.Assume(which < len(cases))
	c := cases[which]
	in, out := tmp+"/in", tmp+"/out"
	vx.Assert(os.MkdirAll(out, 0777) == nil, "setup")
	if mode == "ConvertSnapshot" {
		s := c41new(2)
		s.write(in, 1, c41ids(8, 0), 64)
	} else {
		c41sheet(in, false)
		c41grid()
	}
	args := []string{"-" + mode, c41mode(mode, in, out, c[0], c[1])}
	if mode != "ConvertSnapshot" {
		args = append(args, box)
	}
	refused := c41main(args...)
	vx.Assert(refused == (which != 0), "settings that are missing or make no sense are refused")
	vx.Assert((len(c41names(out)) == 0) == refused, "nothing is written then")
}

// Iterated conversions without an end go on up to the first snapshot that is not there.
//vx: mode=real unwind=4000000 timeout=300
func VX_C41_iterated() {
	first, n := vx.Choose("first", 0, 2), vx.Choose("snapshots", 0, 3)
	gap := vx.Choose("gap", 0, 1) // another one after a gap
	end := vx.Choose("end", -1, 4)
	tmp := vx.Temp()
	there := func(k int) bool { return k >= first && k < first+n || gap == 1 && k == first+n+1 }
	for k := 0; k < 8; k++ {
		if there(k) {
			s := c41new(2)
			s.mass = float64(10 + k)
			s.xs[k%8][1] = vx.F32("y", 0, 8)
			s.write(fmt.Sprintf("%s/in%02d", tmp, k), 1, c41ids(8, 0), 64)
		}
	}
	cfg := fmt.Sprintf("[ConvertSnapshot]\nInputFormat = LGadget-2\nCells = 1\nIteratedInput = %s/in%%02d\nIteratedOutput = %s/out%%d\nIterationStart = %d\n", tmp, tmp, first)
	if end >= 0 {
		cfg += fmt.Sprintf("IterationEnd = %d\n", first+end)
	}
	refused := c41main("-ConvertSnapshot", c41write("convert.cfg", cfg))
	last := first
	for there(last) && (end < 0 || last <= first+end) {
		last++
	}
	if end >= 0 {
		vx.Assert(refused == (last != first+end+1), "snapshots that are asked for and are not there are refused")
	} else {
		vx.Assert(refused == (n == 0), "iterations without an end go on up to the first snapshot that is not there")
	}
	for k := 0; k < 8; k++ {
		names := c41names(fmt.Sprintf("%s/out%d", tmp, k))
		if k < first || k >= last {
			vx.Assert(len(names) == 0, "no other snapshot is converted")
			continue
		}
		vx.Assert(len(names) == 1, "every snapshot of the iteration is converted")
		hd := &io.SheetHeader{}
		vx.Assert(io.ReadSheetHeaderAt(fmt.Sprintf("%s/out%d/%s", tmp, k, names[0]), hd) == nil, "segments can be read")
		vx.Assert(vx.EqR(hd.Mass, float64(10+k)), "every snapshot goes to its own directory")
	}
}
