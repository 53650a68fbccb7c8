//vx:pkg render/main
package main

import (
	"flag"
	"fmt"
	"io/ioutil"
	"math"
	"os"

	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
	vx "github.com/phil-mansfield/gotetra/zzvx"
)

// The program writes the histogram of every region to its own file.
//vx: mode=real clock=fixed sched=fifo unwind=4000000 timeout=300 exits=assume
func VX_C33_program() {
	dir := vx.Temp()
	vx.Assert(os.MkdirAll(dir+"/in", 0777) == nil && os.MkdirAll(dir+"/out", 0777) == nil, "setup")
	// Two segments of one cube, each in one pixel of width 2 of a box 16 wide.
	at := [][3]float32{{4.5, 6.25, 8.5}, {12.5, 2.25, 0.25}}
	for s, p := range at {
		hd := &io.SheetHeader{}
		hd.CountWidth, hd.Count, hd.Cells = 4, 64, 4
		hd.Cosmo.H100, hd.Cosmo.OmegaM = 0.7, 0.3
		hd.SegmentWidth, hd.GridWidth, hd.GridCount = 1, 2, 8
		hd.TotalWidth, hd.Mass = 16, 1
		xs := make([]geom.Vec, 8)
		for i := range xs {
			for k, j := range []int{i % 2, i / 2 % 2, i / 4} {
				xs[i][k] = p[k] + float32(j)
			}
		}
		hd.Origin, hd.Width = p, geom.Vec{1, 1, 1}
		io.WriteSheet(fmt.Sprintf("%s/in/sheet00%d.dat", dir, s), hd, xs, make([]geom.Vec, 8))
	}
	rhos := make([]float64, 512)
	pixel := []int{2 + 8*3 + 64*4, 6 + 8*1}
	bin := [2]int{vx.Choose("a", -1, 3), vx.Choose("b", -1, 3)}
	log := vx.Choose("log", 0, 1)
	for i, b := range bin {
		rhos[pixel[i]] = float64(b)*2 + 1.5
		if log == 1 {
			rhos[pixel[i]] = math.Pow(10, float64(b)-0.75)
		}
	}
	f, err := os.Create(dir + "/grid")
	vx.Assert(err == nil, "setup")
	io.WriteBuffer(density.WrapperDensityBuffer(rhos), io.NewCosmoInfo(70, 0.3, 0.7, 0, 16), io.NewRenderInfo(1, 8, 1, ""), io.NewLocationInfo([3]int{}, [3]int{8, 8, 8}, 2), f)
	f.Close()
	scale := "HistMin = 0.5\nHistMax = 6.5\nHistBins = 3\nHistScale = Linear\n"
	centres := []float64{1.5, 3.5, 5.5}
	if log == 1 {
		scale = "HistMin = 0.1\nHistMax = 100\nHistBins = 3\nHistScale = Log\n"
		centres = []float64{0.3162, 3.162, 31.62}
	}
	cfg := "[TetraHist]\nQuantity = Density\nInput = " + dir + "/in\nOutput = " + dir + "/out\nParticles = 2\nGridFile = " + dir + "/grid\nPrependName = pre_\nAppendName = _app\n" + scale
	vx.Assert(ioutil.WriteFile(dir+"/cfg", []byte(cfg), 0666) == nil, "setup")
	text := "[Box \"both\"]\nX = 4\nY = 0\nZ = 14\nXWidth = 10\nYWidth = 8\nZWidth = 12\n\n[Box \"one\"]\nX = 2\nY = 6\nZ = 8\nXWidth = 4\nYWidth = 4\nZWidth = 4\n\n[Box \"none\"]\nX = 6\nY = 0\nZ = 0\nXWidth = 4\nYWidth = 12\nZWidth = 12\n"
	vx.Assert(ioutil.WriteFile(dir+"/box", []byte(text), 0666) == nil, "setup")
	os.Args = []string{"gotetra", "-Threads", "2", "-TetraHist", dir + "/cfg", dir + "/box"}
	flag.CommandLine = flag.NewFlagSet("gotetra", flag.PanicOnError)
	main()
	for i, name := range []string{"both", "one", "none"} {
		want := ""
		for b := range centres {
			n := 0
			for s := range bin {
				if bin[s] == b && (i == 0 || i == 1 && s == 0) {
					n += 12
				}
			}
			want += fmt.Sprintf("%8.4g %d\n", centres[b], n)
		}
		got, err := ioutil.ReadFile(dir + "/out/pre_" + name + "_app.txt")
		vx.Assert(err == nil, "every region has its own file")
		rows := ""
		for _, line := range c33lines(string(got)) {
			if line != "" && line[0] != '#' {
				rows += line + "\n"
			}
		}
		vx.Assert(rows == want, "the file of a region lists the count of every bin")
	}
}

func c33lines(s string) []string {
	out := []string{""}
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			out = append(out, "")
		} else {
			out[len(out)-1] += s[i : i+1]
		}
	}
	return out
}
