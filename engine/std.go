package main

import (
	"bytes"
	"go/token"
	"go/types"
	"math/bits"
	"path"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Functions of the standard library without side effects, called directly when their arguments are concrete.
var stdPure = map[string]reflect.Value{}

func init() {
	for n, f := range map[string]interface{}{
		"strings.Repeat": strings.Repeat, "strings.Index": strings.Index, "strings.IndexByte": strings.IndexByte,
		"strings.IndexAny": strings.IndexAny, "strings.IndexRune": strings.IndexRune, "strings.LastIndex": strings.LastIndex,
		"strings.LastIndexByte": strings.LastIndexByte, "strings.LastIndexAny": strings.LastIndexAny,
		"strings.Contains": strings.Contains, "strings.ContainsAny": strings.ContainsAny, "strings.ContainsRune": strings.ContainsRune,
		"strings.Split": strings.Split, "strings.SplitN": strings.SplitN, "strings.SplitAfter": strings.SplitAfter,
		"strings.Fields": strings.Fields, "strings.TrimSpace": strings.TrimSpace, "strings.Trim": strings.Trim,
		"strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight, "strings.TrimSuffix": strings.TrimSuffix,
		"strings.TrimPrefix": strings.TrimPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.HasPrefix": strings.HasPrefix,
		"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.Title": strings.Title,
		"strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll, "strings.Join": strings.Join,
		"strings.EqualFold": strings.EqualFold, "strings.Count": strings.Count, "strings.Compare": strings.Compare,
		"bytes.Equal": bytes.Equal, "bytes.Compare": bytes.Compare, "bytes.Contains": bytes.Contains, "bytes.Index": bytes.Index,
		"bytes.IndexByte": bytes.IndexByte, "bytes.HasPrefix": bytes.HasPrefix, "bytes.HasSuffix": bytes.HasSuffix, "bytes.Count": bytes.Count,
		"strconv.Itoa": strconv.Itoa, "strconv.FormatInt": strconv.FormatInt, "strconv.FormatUint": strconv.FormatUint,
		"strconv.FormatBool": strconv.FormatBool, "strconv.Quote": strconv.Quote,
		"path.Base": path.Base, "path.Dir": path.Dir, "path.Ext": path.Ext, "path.Clean": path.Clean, "path.IsAbs": path.IsAbs, "path.Join": path.Join,
		"path/filepath.Base": filepath.Base, "path/filepath.Dir": filepath.Dir, "path/filepath.Ext": filepath.Ext,
		"path/filepath.Clean": filepath.Clean, "path/filepath.IsAbs": filepath.IsAbs, "path/filepath.Join": filepath.Join,
		"unicode.IsDigit": unicode.IsDigit, "unicode.IsLetter": unicode.IsLetter, "unicode.IsSpace": unicode.IsSpace,
		"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.ToUpper": unicode.ToUpper, "unicode.ToLower": unicode.ToLower,
		"unicode.IsPunct": unicode.IsPunct, "unicode.IsPrint": unicode.IsPrint, "unicode.IsNumber": unicode.IsNumber,
		"unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.ValidString": utf8.ValidString, "unicode/utf8.RuneLen": utf8.RuneLen,
		"math/bits.OnesCount64": bits.OnesCount64, "math/bits.OnesCount": bits.OnesCount, "math/bits.Len": bits.Len, "math/bits.Len64": bits.Len64,
		"math/bits.Len32": bits.Len32, "math/bits.TrailingZeros": bits.TrailingZeros, "math/bits.TrailingZeros64": bits.TrailingZeros64,
		"math/bits.TrailingZeros32": bits.TrailingZeros32, "math/bits.LeadingZeros64": bits.LeadingZeros64, "math/bits.LeadingZeros": bits.LeadingZeros,
	} {
		stdPure[n] = reflect.ValueOf(f)
	}
}

// pure runs a function of the table natively; false when an argument is not concrete.
func (ex *Exec) pure(fn *ssa.Function, args []Value) (Value, bool) {
	if fn.Pkg == nil || fn.Signature.Recv() != nil || fn.Parent() != nil {
		return nil, false
	}
	f, ok := stdPure[fn.Pkg.Pkg.Path()+"."+fn.Name()]
	if !ok || f.Type().NumIn() != len(args) {
		return nil, false
	}
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		v, ok := ex.nativeVal(a, f.Type().In(i))
		if !ok {
			return nil, false
		}
		in[i] = v
	}
	var out []reflect.Value
	if err := protect(func() {
		if f.Type().IsVariadic() {
			out = f.CallSlice(in)
		} else {
			out = f.Call(in)
		}
	}); err != nil {
		return nil, false
	}
	if len(out) != 1 {
		return nil, false
	}
	o := out[0]
	switch o.Kind() {
	case reflect.String:
		return &Str{S: o.String()}, true
	case reflect.Bool:
		return ex.c.BoolC(o.Bool()), true
	case reflect.Int:
		return ex.ic(int(o.Int())), true
	case reflect.Int32:
		return ex.c.BVc(32, uint64(uint32(o.Int()))), true
	case reflect.Slice:
		var vs []Value
		for i := 0; i < o.Len(); i++ {
			vs = append(vs, &Str{S: o.Index(i).String()})
		}
		return ex.mkSlice(types.Typ[types.String], vs), true
	}
	return nil, false
}

func (ex *Exec) nativeVal(v Value, t reflect.Type) (reflect.Value, bool) {
	z := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.String:
		s, ok := v.(*Str)
		if !ok || s.Op || s.B != nil {
			return z, false
		}
		z.SetString(s.S)
		return z, true
	case reflect.Bool:
		b, ok := v.(*Term)
		if !ok || !b.IsConst() {
			return z, false
		}
		z.SetBool(b.IsTrue())
		return z, true
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Uint8, reflect.Uint, reflect.Uint64, reflect.Uint32:
		x, ok := v.(*Term)
		if !ok || !x.IsConst() {
			return z, false
		}
		n, ok := conc(x)
		if !ok {
			return z, false
		}
		if z.Kind() >= reflect.Uint {
			u := uint64(n)
			if x.S.K == KBV {
				u = x.U
			}
			z.SetUint(u & (1<<uint(t.Bits()-1)<<1 - 1))
			return z, true
		}
		if t.Bits() == 32 {
			n = int(int32(n))
		}
		z.SetInt(int64(n))
		return z, true
	case reflect.Slice:
		s, ok := v.(*SliceV)
		if !ok || s.View != nil {
			return z, false
		}
		if s.Base == nil {
			return z, true
		}
		if !s.Len.IsConst() || !s.Off.IsConst() {
			return z, false
		}
		for _, e := range ex.sliceVals(s) {
			x, ok := ex.nativeVal(e, t.Elem())
			if !ok {
				return z, false
			}
			z = reflect.Append(z, x)
		}
		return z, true
	}
	return z, false
}

// sortSlice runs the library's algorithm on the slice inside the interface.
func (ex *Exec) sortSlice(fn *ssa.Function, name string, args []Value, pos token.Pos) (Value, bool) {
	i, ok := args[0].(*Iface)
	if !ok || i.T == nil {
		return nil, false
	}
	s, ok := i.V.(*SliceV)
	if !ok {
		return nil, false
	}
	f := fn.Pkg.Func(map[string]string{"Slice": "pdqsort_func", "SliceStable": "stable_func"}[name])
	if f == nil {
		return nil, false
	}
	n := ex.sliceLen(s)
	ls := &StructV{[]Value{args[1], &Closure{Intr: "swap", Recv: s}}}
	a := []Value{ls, ex.ic(0), ex.ic(n), ex.ic(bits.Len(uint(n)))}
	if name == "SliceStable" {
		a = []Value{ls, ex.ic(n)}
	}
	ex.call(f, a, nil, pos)
	return &Tuple{}, true
}
