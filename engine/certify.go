package main

import (
	"fmt"
	"math/big"
	"strings"
	"time"
)

// A step is one operation of the term normaliser: r is what it made of op(a, b, x).
// A share of the steps of every run is handed to a solver, which must not find values for
// which r differs from the operation written out plainly.
type step struct {
	op   byte
	bop  Op
	a, b *Term
	x    *Term
	p, q int
	r    *Term
	xs   []*Term
}

type stepKey struct {
	op      byte
	bop     Op
	a, b, x int
	p, q    int
}

const (
	stAdd = '+'
	stSub = '-'
	stMul = '*'
	stDiv = '/'
	stCmp = '<'
	stQuo = 'q'
	stMod = 'm'
	stFlr = 'f'
	stBin = 'b' // bit vector operation or comparison bop
	stExt = 'x'
	stCat = 'c'
	stIte = 'i'
	stAnd = '&'
	stOr  = '|'
)

func (c *Ctx) rec(op byte, bop Op, a, b, x *Term, p, q int, r *Term) {
	if c.StepCap == 0 {
		return
	}
	if a.IsConst() && (b == nil || b.IsConst()) && (x == nil || x.IsConst()) {
		return
	}
	k := stepKey{op, bop, a.ID, 0, 0, p, q}
	if b != nil {
		k.b = b.ID
	}
	if x != nil {
		k.x = x.ID
	}
	if _, ok := c.stepSeen[k]; ok {
		return
	}
	if len(c.stepSeen) > 400000 { // later repetitions are counted again
		c.stepSeen = map[stepKey]struct{}{}
		c.stepMore = true
	}
	c.stepSeen[k] = struct{}{}
	c.nstep++
	if c.nstep%c.stepStride != 0 {
		return
	}
	c.steps = append(c.steps, step{op, bop, a, b, x, p, q, r, nil})
	if len(c.steps) > 2*c.StepCap {
		k := 0
		for i := 0; i < len(c.steps); i += 2 {
			c.steps[k] = c.steps[i]
			k++
		}
		c.steps = c.steps[:k]
		c.stepStride *= 2
	}
}

func (c *Ctx) recN(op byte, xs []*Term, r *Term) {
	if c.StepCap == 0 || len(xs) < 2 {
		return
	}
	n := len(c.steps)
	c.rec(op, 0, xs[0], xs[1], xs[len(xs)-1], len(xs), r.ID, r)
	if len(c.steps) == n+1 {
		c.steps[n].xs = append([]*Term{}, xs...)
	}
}

// stepText renders "the operation and its result differ".
func (c *Ctx) stepText(s step, opaque bool) (txt string, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	e := NewEmitter(c)
	e.side = map[string]bool{}
	e.opaque = opaque
	e.max = 60000
	num := func(t *Term, k Kind) string { return e.atom(t, k) }
	k := s.r.S.K
	var op string
	switch s.op {
	case stAdd, stSub, stMul:
		op = "(" + string(s.op) + " " + num(s.a, k) + " " + num(s.b, k) + ")"
	case stDiv:
		op = "(/ " + num(s.a, k) + " " + num(s.b, k) + ")"
		e.side["(not (= "+num(s.b, k)+" 0.0))"] = true
	case stCmp:
		kk := s.a.S.K
		if s.b.S.K == KReal {
			kk = KReal
		}
		op = "(" + map[Op]string{OLe0: "<=", OLt0: "<", OEq0: "="}[s.bop] + " " + num(s.a, kk) + " " + num(s.b, kk) + ")"
	case stQuo, stMod:
		op = "(" + map[byte]string{stQuo: "div", stMod: "mod"}[s.op] + " " + e.ref(s.a) + " " + e.ref(s.b) + ")"
		e.side["(> "+e.ref(s.b)+" 0)"] = true
	case stFlr:
		op = "(to_int " + num(s.a, KReal) + ")"
		if s.p > 0 {
			e.clip(op, s.p)
		}
	case stIte:
		op = "(ite " + e.ref(s.a) + " " + num(s.b, k) + " " + num(s.x, k) + ")"
	case stAnd:
		op = "(and"
		for _, x := range s.xs {
			op += " " + e.ref(x)
		}
		op += ")"
	case stOr:
		op = "(or"
		for _, x := range s.xs {
			op += " " + e.ref(x)
		}
		op += ")"
	case stExt:
		op = fmt.Sprintf("((_ extract %d %d) %s)", s.p, s.q, e.ref(s.a))
	case stCat:
		op = "(concat " + e.ref(s.a) + " " + e.ref(s.b) + ")"
	case stBin:
		op = "(" + bvNames[s.bop] + " " + e.ref(s.a) + " " + e.ref(s.b) + ")"
	default:
		return "", false
	}
	r := num(s.r, k)
	var sb strings.Builder
	sb.WriteString(e.sb.String())
	for _, x := range sortedKeys(e.side) {
		sb.WriteString("(assert " + x + ")\n")
	}
	sb.WriteString("(assert (not (= " + op + " " + r + ")))\n")
	if sb.Len() > e.max {
		return "", false
	}
	return sb.String(), true
}

func (e *Emitter) clip(t string, w int) {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w-1))
	e.side["(and (<= (- "+m.String()+") "+t+") (< "+t+" "+m.String()+"))"] = true
}

type certRes struct {
	seen, taken, proved, open, refuted int
	bad                                string
	more                               bool
	wall                               time.Duration
}

// certify has the solver check the recorded steps within the given time.
func (c *Ctx) certify(budget time.Duration) (cr certRes) {
	cr = certRes{seen: c.nstep, more: c.stepMore}
	t0 := time.Now()
	defer func() { cr.wall = time.Since(t0) }()
	if len(c.steps) == 0 {
		return cr
	}
	s := NewInc(c, 400)
	defer s.Close()
	steps := c.steps
	if len(steps) > c.StepCap { // thin evenly
		var o []step
		for i := 0; i < c.StepCap; i++ {
			o = append(o, steps[i*len(steps)/c.StepCap])
		}
		steps = o
	}
	for i := range steps { // in an order which spreads over the run
		st := steps[(i*7919)%len(steps)]
		if len(steps)%7919 == 0 {
			st = steps[i]
		}
		if (st.op == stAnd || st.op == stOr) && st.xs == nil {
			continue
		}
		if time.Since(t0) > budget {
			break
		}
		cr.taken++
		res := RUnknown
		last := ""
		for _, opaque := range []bool{true, false} {
			txt, ok := c.stepText(st, opaque)
			if !ok {
				res = RUnknown
				continue
			}
			last = txt
			res = s.raw(txt)
			if res == RUnsat {
				break
			}
		}
		switch res {
		case RUnsat:
			cr.proved++
		case RSat:
			cr.refuted++
			if cr.bad == "" {
				cr.bad = last
			}
		default:
			cr.open++
		}
	}
	return cr
}

// raw checks a self-contained list of commands.
func (s *Inc) raw(txt string) Result {
	if s.cmd == nil {
		s.start()
	}
	if s.dead {
		return RUnknown
	}
	fmt.Fprintf(s.in, "(push)\n%s(check-sat)\n(pop)\n", txt)
	done := make(chan string, 1)
	out := s.out
	go func() {
		l, err := out.ReadString('\n')
		if err != nil {
			l = "dead"
		}
		done <- strings.TrimSpace(l)
	}()
	select {
	case l := <-done:
		switch l {
		case "sat":
			return RSat
		case "unsat":
			return RUnsat
		case "unknown", "timeout":
			return RUnknown
		}
		if *fVerbose {
			fmt.Println("  certify:", l)
		}
		s.Close()
		return RUnknown
	case <-time.After(5 * time.Second):
		s.Close()
		return RUnknown
	}
}
