package main

import (
	"bytes"
	"context"
	"encoding/json"
	"go/types"
	"os/exec"
	"path/filepath"
	"strconv"
	"time"
)

// A Python module of the repository is executed symbolically by harness/C37/reader.py, which is
// given the bytes of a file and returns terms over them.

type pyOutcome struct {
	Cond  []interface{} `json:"cond"`
	OK    bool          `json:"ok"`
	Words []interface{} `json:"words"`
	Error string        `json:"error"`
}

func pyDriver() string { return filepath.Join(*fHome, "harness", "C37", "reader.py") }

func (ex *Exec) pyCall(mode, mod, file string) Value {
	c := ex.c
	o, ok := ex.fs[filepath.Clean(file)]
	if !ok {
		panic(unsup("Python reader of a file that is not there"))
	}
	b := ex.fdata(o).B
	ex.funcs[mod+" ("+mode+" reader, executed by harness/C37/reader.py)"] = true
	in := make([]interface{}, len(b))
	for i, t := range b {
		if t.IsConst() {
			in[i] = t.U
		}
	}
	js, _ := json.Marshal(in)
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "python3-vt", "-B", pyDriver(), mode, filepath.Join(ex.eng.repo, mod), "-")
	cmd.Dir = "/"
	cmd.Stdin = bytes.NewReader(js)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Run(); err != nil {
		panic(unsup("Python reader: %v: %s", err, firstLines(se.String(), 4)))
	}
	var r struct {
		Outcomes []pyOutcome `json:"outcomes"`
	}
	d := json.NewDecoder(&so)
	d.UseNumber()
	if err := d.Decode(&r); err != nil {
		panic(unsup("Python reader: %v", err))
	}
	if len(r.Outcomes) == 0 {
		panic(unsup("Python reader: no outcome"))
	}
	out := r.Outcomes[ex.pick(len(r.Outcomes))]
	for _, e := range out.Cond {
		ex.addPC(ex.pyTerm(b, e))
	}
	ws := make([]Value, len(out.Words))
	for i, e := range out.Words {
		ws[i] = c.Zext(ex.pyTerm(b, e), 64)
	}
	return &Tuple{[]Value{ex.mkSlice(types.Typ[types.Uint64], ws), c.BoolC(out.OK)}}
}

func (ex *Exec) pyTerm(b []*Term, e interface{}) *Term {
	c := ex.c
	if n, ok := e.(json.Number); ok {
		u, err := strconv.ParseUint(n.String(), 10, 64)
		if err != nil {
			panic(unsup("Python reader: number %s", n))
		}
		return c.BVc(64, u)
	}
	l, ok := e.([]interface{})
	if !ok || len(l) < 2 {
		panic(unsup("Python reader: expression %v", e))
	}
	op, _ := l[0].(string)
	if op == "b" {
		n, _ := l[1].(json.Number)
		i, err := strconv.Atoi(n.String())
		if err != nil || i < 0 || i >= len(b) {
			panic(unsup("Python reader: byte %v", l[1]))
		}
		return b[i]
	}
	var as []*Term
	for _, x := range l[1:] {
		t := ex.pyTerm(b, x)
		if _, num := x.(json.Number); num && op == "cat" {
			t = c.BVc(8, t.U)
		}
		as = append(as, t)
	}
	fl := func(t *Term) *Term { return c.FFromBits(t, SF64) }
	switch {
	case op == "cat":
		t := as[0]
		for _, a := range as[1:] {
			t = c.Concat(t, a)
		}
		return t
	case op == "sext" && len(as) == 1:
		return c.Sext(as[0], 64)
	case op == "zext" && len(as) == 1:
		return c.Zext(as[0], 64)
	case op == "f2d" && len(as) == 1:
		return c.FToBits(c.FCvt(c.FFromBits(c.Extract(as[0], 31, 0), SF32), SF64))
	case op == "d2f" && len(as) == 1:
		return c.FToBits(c.FCvt(fl(as[0]), SF32))
	case op == "not" && len(as) == 1:
		return c.Not(as[0])
	case len(as) == 2:
		a, b := as[0], as[1]
		switch op {
		case "add":
			return c.BVop(OBAdd, a, b)
		case "sub":
			return c.BVop(OBSub, a, b)
		case "mul":
			return c.BVop(OBMul, a, b)
		case "and":
			return c.BVop(OBAnd, a, b)
		case "or":
			return c.BVop(OBOr, a, b)
		case "xor":
			return c.BVop(OBXor, a, b)
		case "shl":
			return c.BVop(OBShl, a, b)
		case "ashr":
			return c.BVop(OBAshr, a, b)
		case "eq":
			return c.Eq(a, b)
		case "slt":
			return c.BVcmp(OBSlt, a, b)
		case "sle":
			return c.BVcmp(OBSle, a, b)
		case "flt":
			return c.Fcmp(OFLt, fl(a), fl(b))
		case "fle":
			return c.Fcmp(OFLe, fl(a), fl(b))
		case "feq":
			return c.Fcmp(OFEq, fl(a), fl(b))
		case "fadd":
			return c.FToBits(c.Fop(OFAdd, fl(a), fl(b)))
		case "fsub":
			return c.FToBits(c.Fop(OFSub, fl(a), fl(b)))
		case "fmul":
			return c.FToBits(c.Fop(OFMul, fl(a), fl(b)))
		case "fdiv":
			return c.FToBits(c.Fop(OFDiv, fl(a), fl(b)))
		}
	}
	panic(unsup("Python reader: operation %s", op))
}
