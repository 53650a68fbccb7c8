//vx:pkg math/calc
package calc

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"io/ioutil"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"

	vx "github.com/phil-mansfield/gotetra/zzvx"
)

// These harnesses check the executor, not gotetra: every assertion of a "bad" harness can fail and must be
// reported (one per run, since a failing one ends the run); every assertion of an "ok" harness holds. See tools/selftest.sh.

type selfShape interface{ area() float64 }
type selfSq struct{ a float64 }
type selfRect struct {
	selfSq
	b float64
}

func (s selfSq) area() float64    { return s.a * s.a }
func (s *selfRect) area() float64 { return s.a * s.b }

type selfNode struct {
	next *selfNode
	v    int
}

func selfDefer(n int) (r int, err error) {
	defer func() { r *= 2 }()
	if n == 7 {
		return -n, io.EOF
	}
	return n, nil
}

// Bounds that depend on an earlier choice.
//vx: mode=real split
func VX_SELF_bad_bounds() {
	want := vx.Choose("want", 1, 6)
	n := []int{2, 5, 100}[vx.Choose("n", 0, 2)]
	i, x := vx.Int("i", 0, n), vx.F64("x", 0, float64(n))
	if want == 1 {
		vx.Assert(i <= 90, "b1")
	}
	if want == 2 {
		vx.Assert(x <= 90, "b2")
	}
	if want == 3 {
		vx.Assert(n != 5 || i != 4, "b3")
	}
	if want == 4 {
		vx.Assert(n != 2 || x > 0, "b4")
	}
	m := vx.Choose("m", 1, 3)
	j := vx.Int("j", -m, m)
	if want == 5 {
		vx.Assert(j != -3, "b5")
	}
	if want == 6 {
		vx.Assert(j+m != 6, "b6")
	}
}

//vx: mode=real split
func VX_SELF_ok_bounds() {
	n := []int{100, 5, 2}[vx.Choose("n", 0, 2)]
	i := vx.Int("i", 0, n)
	vx.Assert(i <= n && i >= 0, "o1")
	vx.Assert(n != 2 || i*i <= 4, "o2")
}

// Integer arithmetic.
//vx: mode=real split
func VX_SELF_bad_ints() {
	want := vx.Choose("want", 1, 11)
	a, b := vx.Int("a", -9, 9), vx.Int("b", 1, 4)
	vx.Assert(a/b*b+a%b == a, "never") // holds
	if want == 1 {
		vx.Assert(a%b >= 0, "i1")
	}
	if want == 2 {
		vx.Assert(a/2 <= a>>1, "i2") // -3/2 is -1
	}
	if want == 3 {
		vx.Assert(a&3 == a%4, "i3")
	}
	u := vx.U8("u")
	if want == 4 {
		vx.Assert(u+1 > u, "i4")
	}
	s := vx.I32("s")
	if want == 5 {
		vx.Assert(-s != s || s == 0, "i5")
	}
	if want == 6 {
		vx.Assert(uint16(s) < 65535, "i6")
	}
	if want == 7 {
		vx.Assert(int8(s) >= -127, "i7")
	}
	w := vx.U64("w")
	if want == 8 {
		vx.Assert(w>>63 == 0, "i8")
	}
	if want == 9 {
		vx.Assert(w*w != 4, "i9")
	}
	if want == 10 {
		vx.Assert(uint32(w)<<31 != 1<<31, "i10")
	}
	if want == 11 {
		vx.Assert(w^(w>>7) != 12345, "i11")
	}
}

//vx: mode=real split
func VX_SELF_ok_ints() {
	a, b := vx.Int("a", -20, 20), vx.Int("b", 1, 6)
	m := ((a % b) + b) % b
	vx.Assert(m >= 0 && m < b, "o1")
	vx.Assert((a-m)%b == 0, "o2")
	u := vx.U16("u")
	vx.Assert(uint16(u<<8|u>>8)>>8 == u&255, "o3")
	x := vx.U64("x")
	vx.Assert(x^x>>1^x == x>>1, "o4")
	vx.Assert(uint32(x)+uint32(x>>32)*0 == uint32(x), "o5")
}

// Floats bit for bit.
//vx: mode=fp split timeout=120
func VX_SELF_bad_fp() {
	want := vx.Choose("want", 1, 10)
	x, y := vx.F32("x", -1, 1), vx.F32("y", 1, 2)
	if want == 1 {
		vx.Assert((x+y)-y == x, "f1")
	}
	if want == 2 {
		vx.Assert(float32(float64(x)*float64(y)) > x || x <= 0, "f2")
	}
	z := vx.F64Any("z")
	if want == 3 {
		vx.Assert(z == z, "f3")
	}
	if want == 4 {
		vx.Assert(z-z == 0, "f4")
	}
	if want == 5 {
		vx.Assert(math.Floor(z) <= z, "f5")
	}
	if want == 6 {
		vx.Assert(1/z != math.Inf(-1), "f6")
	}
	if want == 7 {
		vx.Assert(float64(float32(z)) == z, "f7")
	}
	w := vx.F64("w", 0, 8)
	if want == 8 {
		vx.Assert(int(w) != 7, "f8")
	}
	if want == 9 {
		vx.Assert(int(w+0.5) <= int(w), "f9")
	}
	if want == 10 {
		vx.Assert(math.Float64bits(w) != 0x4000000000000001, "f10")
	}
}

//vx: mode=fp split timeout=120
func VX_SELF_ok_fp() {
	x := vx.F32("x", -1, 1)
	vx.Assert(float32(float64(x)) == x, "o1")
	vx.Assert(x+0 == x, "o2")
	w := vx.F64("w", 0, 8)
	vx.Assert(float64(int(w)) <= w, "o3")
	vx.Assert(math.Float64frombits(math.Float64bits(w)) == w, "o4")
}

// Floats as reals.
//vx: mode=real split
func VX_SELF_bad_real() {
	want := vx.Choose("want", 1, 9)
	x, y := vx.F64("x", -4, 4), vx.F64("y", 0.5, 2)
	if want == 1 {
		vx.Assert(x*x > 0, "r1")
	}
	if want == 2 {
		vx.Assert(x/y <= x || x < 0, "r2")
	}
	if want == 3 {
		vx.Assert(math.Floor(x) != -2, "r3")
	}
	if want == 4 {
		vx.Assert(int(x) == int(math.Floor(x)), "r4")
	}
	if want == 5 {
		vx.Assert(math.Abs(x) <= 3, "r5")
	}
	if want == 6 {
		vx.Assert(math.Max(x, y) == y, "r6")
	}
	if want == 7 {
		vx.Assert(math.Sqrt(y) <= y, "r7")
	}
	if want == 8 {
		vx.Assert(x*x+y*y-2*x*y > 0, "r8")
	}
	arr := []float64{1, 2, 3, 4, 5}
	if want == 9 {
		vx.Assert(arr[int(y*2)] != 4, "r9")
	}
}

// Slices, copies, aliases, maps, strings.
//vx: mode=real split
func VX_SELF_bad_data() {
	want := vx.Choose("want", 1, 12)
	k := vx.Choose("k", 0, 3)
	i := vx.Int("i", 0, 5)
	a := make([]int, 6)
	b := a[2:4]
	a[i] = 7
	if want == 1 {
		vx.Assert(b[1] == 0, "d1")
	}
	c := append(b, 9)
	if want == 2 {
		vx.Assert(a[4] == 0 || i == 4, "d2") // appending writes to a
	}
	c[0] = 5
	if want == 3 {
		vx.Assert(a[2] != 5, "d3")
	}
	d := append(b[:2:2], 1)
	d[0] = 6
	vx.Assert(a[2] == 5, "never")
	copy(a[1:], a)
	if want == 4 {
		vx.Assert(a[3] != 5, "d4")
	}
	arr := [3]int{1, 2, 3}
	brr := arr
	brr[k%3] = 10
	if want == 5 {
		vx.Assert(arr == brr, "d5")
	}
	vx.Assert(arr[k%3] != 10, "never")
	m := map[string]int{"a": 1, "b": 2}
	delete(m, []string{"a", "b", "c", "d"}[k])
	if want == 6 {
		vx.Assert(len(m) == 2, "d6")
	}
	_, ok := m["b"]
	if want == 7 {
		vx.Assert(ok, "d7")
	}
	s := "y"
	for j := 0; j < k; j++ {
		s = "x" + s
	}
	if want == 8 {
		vx.Assert(!strings.HasPrefix(s, "xxx"), "d8")
	}
	n, err := strconv.Atoi("1" + strconv.Itoa(k))
	if want == 9 {
		vx.Assert(err != nil || n != 12, "d9")
	}
	var list *selfNode
	for j := 0; j < k; j++ {
		list = &selfNode{list, j}
	}
	if want == 10 {
		vx.Assert(list == nil || list.v != 2, "d10")
	}
	if want == 11 {
		vx.Assert(vx.Catch(func() { _ = a[k+4] }) == false, "d11")
	}
	var np *selfNode
	if want == 12 {
		vx.Assert(!vx.Catch(func() { np.v = 1 }), "d12")
	}
}

// Interfaces, closures, defers.
//vx: mode=real split
func VX_SELF_bad_calls() {
	want := vx.Choose("want", 1, 11)
	k := vx.Choose("k", 0, 2)
	x := vx.F64("x", 0, 4)
	var sh selfShape = selfSq{x}
	if k == 1 {
		sh = &selfRect{selfSq{x}, 3}
	}
	if want == 1 {
		vx.Assert(sh.area() != 9 || k == 1, "c1")
	}
	if want == 2 {
		vx.Assert(sh.area() != 9 || k != 1, "c2")
	}
	_, ok := sh.(*selfRect)
	if want == 3 {
		vx.Assert(!ok, "c3")
	}
	f := []func(){}
	sum := 0
	for j := 0; j < 3; j++ {
		j := j
		f = append(f, func() { sum = sum*10 + j })
	}
	for j := range f {
		f[(j+k)%3]()
	}
	if want == 4 {
		vx.Assert(sum != 120, "c4")
	}
	if want == 5 {
		vx.Assert(sum != 12, "c5")
	}
	r, err := selfDefer(vx.Int("n", 0, 8))
	if want == 6 {
		vx.Assert(err == nil, "c6")
	}
	vx.Assert(err == nil || r == -14, "never")
	if want == 7 {
		vx.Assert(r != 10, "c7")
	}
	e := fmt.Errorf("%d: %v", k, io.EOF)
	if want == 8 {
		vx.Assert(e.Error() != "2: EOF", "c8")
	}
	xs := []float64{3, x, 1}
	sort.Float64s(xs)
	if want == 9 {
		vx.Assert(xs[1] == x, "c9")
	}
	vx.Assert(xs[0] <= xs[1] && xs[1] <= xs[2], "never")
	switch y := interface{}(k).(type) {
	case float64:
		vx.Assert(false, "never")
	case int:
		if want == 10 {
			vx.Assert(y < 2, "c10")
		}
	}
lab:
	for a := 0; a < 3; a++ {
		for b := 0; b < 3; b++ {
			if a*b == k && a > 0 {
				sum = 100*a + b
				break lab
			}
			if b > a {
				continue lab
			}
		}
	}
	if want == 11 {
		vx.Assert(sum != 102, "c11")
	}
}

// Goroutines.
//vx: mode=real split nonative
func VX_SELF_bad_go() {
	want := vx.Choose("want", 1, 2)
	ch := make(chan int, 2)
	for j := 0; j < 2; j++ {
		go func(j int) { ch <- j }(j)
	}
	a := <-ch
	b := <-ch
	if want == 1 {
		vx.Assert(a == 0, "g1")
	}
	if want == 2 {
		vx.Assert(a == 1, "g2")
	}
	vx.Assert(a+b == 1, "never")
	var mu sync.Mutex
	var wg sync.WaitGroup
	last := -1
	for j := 0; j < 2; j++ {
		wg.Add(1)
		go func(j int) {
			mu.Lock()
			last = j
			mu.Unlock()
			wg.Done()
		}(j)
	}
	wg.Wait()
	vx.Assert(last >= 0, "never")
}

// Files and encodings.
//vx: mode=real split
func VX_SELF_bad_files() {
	want := vx.Choose("want", 1, 5)
	f := vx.Temp() + "/x"
	u, x := vx.U32("u"), vx.U64("x")
	var buf bytes.Buffer
	binary.Write(&buf, binary.LittleEndian, u)
	binary.Write(&buf, binary.BigEndian, x)
	b := buf.Bytes()
	if want == 1 {
		vx.Assert(len(b) != 12, "w1")
	}
	if want == 2 {
		vx.Assert(b[0] != 1, "w2")
	}
	vx.Assert(b[11] == byte(x), "never")
	vx.Assert(ioutil.WriteFile(f, b[:4+vx.Choose("n", 0, 8)], 0644) == nil, "never")
	g, err := os.Open(f)
	vx.Assert(err == nil, "never")
	var v uint32
	var y uint64
	vx.Assert(binary.Read(g, binary.LittleEndian, &v) == nil && v == u, "never")
	err = binary.Read(g, binary.BigEndian, &y)
	if want == 3 {
		vx.Assert(err == nil, "w3")
	}
	vx.Assert(err != nil || y == x, "never")
	if want == 4 {
		vx.Assert(err != nil || y != 77, "w4")
	}
	_, err = os.Open(f + "y")
	if want == 5 {
		vx.Assert(err == nil, "w5")
	}
}

// Races; the native race detector confirms them.
//vx: race mode=real split
func VX_SELF_bad_race() {
	i, j := vx.Int("i", 0, 5), vx.Int("j", 0, 5)
	c := make(chan bool, 4)
	a := make([]int, 6)
	m := map[int]int{}
	s := &selfNode{}
	switch vx.Choose("case", 1, 6) {
	case 1:
		go func() { a[i] = 1; c <- true }()
		go func() { a[j] = 2; c <- true }()
		<-c
		<-c
	case 2:
		go func() { s.v = 1; c <- true }()
		s.v = 2
		<-c
	case 3:
		go func() { c <- true; s.v = 1; c <- true }()
		<-c
		i = s.v
		<-c
	case 4:
		var mu sync.Mutex
		go func() { mu.Lock(); s.v = 1; mu.Unlock(); c <- true }()
		go func() { s.v = 3; c <- true }()
		<-c
		<-c
	case 5:
		go func() { m[1] = 1; c <- true }()
		go func() { m[2] = 1; c <- true }()
		<-c
		<-c
	case 6:
		var wg sync.WaitGroup
		wg.Add(2)
		go func() { wg.Done(); a[0]++ }()
		go func() { a[0]++; wg.Done() }()
		wg.Wait()
	}
}

//vx: race mode=real split
func VX_SELF_ok_race() {
	i := vx.Int("i", 0, 2)
	c, d := make(chan int, 4), make(chan int, 4)
	a := make([]int, 6)
	s := &selfNode{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	switch vx.Choose("case", 1, 6) {
	case 1: // disjoint parts
		go func() { a[i] = 1; c <- 1 }()
		go func() { a[i+3] = 2; c <- 1 }()
		<-c
		<-c
		a[0], a[3] = a[1], a[2]
	case 2: // made before the start
		for k := 0; k < 3; k++ {
			a[k] = k
			go func(k int) { a[k]++; c <- k }(k)
		}
		for k := 0; k < 3; k++ {
			a[<-c]++
		}
	case 3: // locked
		for k := 0; k < 3; k++ {
			wg.Add(1)
			go func() { mu.Lock(); s.v++; mu.Unlock(); wg.Done() }()
		}
		wg.Wait()
		s.v++
	case 4: // handed on
		go func() { s.v = 1; c <- 1 }()
		go func() { <-c; s.v++; d <- 1 }()
		<-d
		s.v++
	case 5: // closed
		go func() { s.v = 1; close(c) }()
		<-c
		s.v++
	case 6: // fields
		go func() { s.v = 1; c <- 1 }()
		s.next = s
		<-c
		_ = *s
	}
}
