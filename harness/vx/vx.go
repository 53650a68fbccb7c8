// Package zzvx is the harness interface. Natively (replay) the values come from a model
// file written by the checker; symbolically the calls are intercepted by the engine.
package zzvx

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"os/exec"
	"strconv"
)

type stop struct{ msg string }

var (
	model map[string]string
	count = map[string]int{}
	obs   = map[string]int{}
	out   *os.File
	real_ bool
)

// Begin loads the model (replay only).
func Begin(path, outPath string) {
	b, err := ioutil.ReadFile(path)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &model); err != nil {
		panic(err)
	}
	real_ = model["mode"] == "real"
	out, err = os.Create(outPath)
	if err != nil {
		panic(err)
	}
}

// Run runs a harness and reports how it ended (replay only).
func Run(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(stop); ok {
				fmt.Fprintf(out, "%s\n", s.msg)
			} else {
				fmt.Fprintf(out, "PANIC %q\n", fmt.Sprint(r))
			}
		}
		fmt.Fprintf(out, "DONE\n")
		out.Close()
	}()
	f()
	fmt.Fprintf(out, "REACH end\n")
}

func get(name string) (string, bool) {
	k := fmt.Sprintf("%s#%d", name, count[name])
	count[name]++
	v, ok := model[k]
	return v, ok
}

func bits(name string) uint64 {
	s, ok := get(name)
	if !ok {
		return 0
	}
	u, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		i, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			panic(err)
		}
		return uint64(i)
	}
	return u
}

func Int(name string, lo, hi int) int {
	s, ok := get(name)
	if !ok {
		return lo
	}
	i, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		panic(err)
	}
	return int(i)
}
func IntBV(name string, lo, hi int) int {
	s, ok := get(name)
	if !ok {
		return lo
	}
	u, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		panic(err)
	}
	return int(u)
}
func Choose(name string, lo, hi int) int { return Int(name, lo, hi) }
func Bool(name string) bool              { return bits(name) == 1 }
func U8(name string) uint8               { return uint8(bits(name)) }
func U16(name string) uint16             { return uint16(bits(name)) }
func U32(name string) uint32             { return uint32(bits(name)) }
func U64(name string) uint64             { return bits(name) }
func I32(name string) int32              { return int32(bits(name)) }
func I64(name string) int64              { return int64(bits(name)) }

// F64 and F32 values are given as float64 / float32 bit patterns.
func F64(name string, lo, hi float64) float64 {
	s, ok := get(name)
	if !ok {
		return lo
	}
	u, _ := strconv.ParseUint(s, 10, 64)
	return math.Float64frombits(u)
}
func F32(name string, lo, hi float32) float32 {
	s, ok := get(name)
	if !ok {
		return lo
	}
	u, _ := strconv.ParseUint(s, 10, 64)
	return math.Float32frombits(uint32(u))
}
func F64Any(name string) float64 { return math.Float64frombits(bits(name)) }
func F32Any(name string) float32 { return math.Float32frombits(uint32(bits(name))) }

func Assume(c bool) {
	if !c {
		panic(stop{"ASSUME"})
	}
}
func Assert(c bool, msg string) {
	if !c {
		panic(stop{"FAIL " + msg})
	}
}
func Reach(label string) { fmt.Fprintf(out, "REACH %s\n", label) }
func Obs(name string, v float64) {
	k := "obs:" + name
	fmt.Fprintf(out, "OBS %s#%d %d\n", k, obs[k], math.Float64bits(v))
	obs[k]++
}
func ObsI(name string, v int) {
	k := "obs:" + name
	fmt.Fprintf(out, "OBSI %s#%d %d\n", k, obs[k], v)
	obs[k]++
}

func near(a, b, tol float64) bool {
	if a == b {
		return true
	}
	return math.Abs(a-b) <= tol*(1+math.Abs(a)+math.Abs(b))
}

// EqR is equality over the reals; natively within rounding.
func EqR(a, b float64) bool {
	if !real_ {
		return a == b
	}
	return near(a, b, 1e-7)
}
func EqR32(a, b float32) bool {
	if !real_ {
		return a == b
	}
	return near(float64(a), float64(b), 1e-4)
}
func LeR(a, b float64) bool {
	if !real_ {
		return a <= b
	}
	return a <= b || near(a, b, 1e-7)
}
func LeR32(a, b float32) bool {
	if !real_ {
		return a <= b
	}
	return a <= b || near(float64(a), float64(b), 1e-4)
}
func Same(a, b float64) bool   { return math.Float64bits(a) == math.Float64bits(b) }
func Same32(a, b float32) bool { return math.Float32bits(a) == math.Float32bits(b) }
func IsReal() bool             { return real_ }

// Catch runs f and tells whether it panicked or terminated the program.
func Catch(f func()) (bad bool) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(stop); ok {
				panic(s)
			}
			bad = true
		}
	}()
	f()
	return false
}
func Temp() string {
	d := os.Getenv("VX_TMP")
	if d == "" {
		panic("VX_TMP is not set")
	}
	return d
}

// Py runs one of the repository's Python readers on a file (see harness/C37/reader.py).
func Py(mode, module, file string) (words []uint64, ok bool) {
	b, err := exec.Command("python3-vt", "-B", os.Getenv("VX_PY"), mode, os.Getenv("VX_REPO")+"/"+module, file).Output()
	if err != nil {
		panic(err)
	}
	var r struct {
		OK    bool     `json:"ok"`
		Words []uint64 `json:"words"`
	}
	if err := json.Unmarshal(b, &r); err != nil {
		panic(err)
	}
	return r.Words, r.OK
}
func Tier() int {
	if model["tier"] == "thorough" {
		return 1
	}
	return 0
}
func Split(i int) int        { return i }
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }
func IfI(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func IfF(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}

var streams = map[int64]int{}

// Rand supplies the draws of math/rand during replay.
func Rand(seed int64, idx int, global bool) (float64, bool) {
	sid := "g"
	if !global {
		if _, ok := streams[seed]; !ok {
			streams[seed] = len(streams)
		}
		sid = strconv.Itoa(streams[seed])
	}
	s, ok := model[fmt.Sprintf("gorand%s#%d", sid, idx)]
	if !ok {
		return 0, false
	}
	u, _ := strconv.ParseUint(s, 10, 64)
	f := math.Float64frombits(u)
	if !(f >= 0 && f < 1) {
		f = math.Nextafter(1, 0)
	}
	return f, true
}
