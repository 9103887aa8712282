package main

// Deciding branches from facts the harness states: intervals of a term and
// numbers that do not divide it. Used where a path carries thousands of
// constraints that a solver should only see when they matter.

import (
	"math"
	"math/big"
)

type facts struct {
	iv    map[*Term][2]uint64         // unsigned interval
	nodiv map[*Term]map[uint64]bool   // does not divide
	rem   map[*Term]map[uint64]uint64 // remainder
}

func unzext(t *Term) *Term {
	for t.op == OZext {
		t = t.a
	}
	return t
}

// interval bounds t (unsigned).
func (f *facts) interval(t *Term, d int) (lo, hi uint64) {
	if t.fp || d > 12 {
		return 0, mask(t.w)
	}
	lo, hi = 0, mask(t.w)
	switch t.op {
	case OConst:
		return t.v, t.v
	case OZext:
		lo, hi = f.interval(t.a, d+1)
	case OUdiv:
		if t.b.isConst() && t.b.v > 0 {
			l, h := f.interval(t.a, d+1)
			lo, hi = l/t.b.v, h/t.b.v
		}
	case OUrem:
		if t.b.isConst() && t.b.v > 0 {
			hi = t.b.v - 1
		}
	case OAdd:
		l1, h1 := f.interval(t.a, d+1)
		l2, h2 := f.interval(t.b, d+1)
		if h1 <= mask(t.w)-h2 {
			lo, hi = l1+l2, h1+h2
		}
	case OMul:
		l1, h1 := f.interval(t.a, d+1)
		l2, h2 := f.interval(t.b, d+1)
		p := new(big.Int).Mul(new(big.Int).SetUint64(h1), new(big.Int).SetUint64(h2))
		if p.IsUint64() && p.Uint64() <= mask(t.w) {
			lo, hi = l1*l2, h1*h2
		}
	case OExtract:
		if t.v&0xff == 0 {
			if l, h := f.interval(t.a, d+1); h <= mask(t.w) {
				lo, hi = l, h
			}
		}
	case OFToS, OFToU:
		if l, h, ok := f.finterval(t.a, d+1); ok && l >= 0 && h < math.Ldexp(1, int(t.w)-1) {
			lo, hi = uint64(l), uint64(h)
		}
	}
	if r, ok := f.iv[t]; ok {
		lo, hi = max(lo, r[0]), min(hi, r[1])
	}
	return
}

// finterval bounds a float made by monotone steps.
func (f *facts) finterval(t *Term, d int) (lo, hi float64, ok bool) {
	if !t.fp || d > 12 || t.w != 64 {
		return
	}
	switch t.op {
	case OConst:
		v := ffrom(t.v, t.w)
		return v, v, !math.IsNaN(v)
	case OFFromU, OFFromS:
		l, h := f.interval(t.a, d+1)
		if t.op == OFFromS && h >= 1<<(t.a.w-1) {
			return
		}
		return float64(l), float64(h), true
	case OFSqrt:
		if l, h, ok := f.finterval(t.a, d+1); ok && l >= 0 {
			return math.Sqrt(l), math.Sqrt(h), true
		}
	case OFAdd:
		l1, h1, ok1 := f.finterval(t.a, d+1)
		l2, h2, ok2 := f.finterval(t.b, d+1)
		if ok1 && ok2 {
			return l1 + l2, h1 + h2, true
		}
	}
	return
}

// decide answers c if the facts do.
func (f *facts) decide(c *Term) (res, ok bool) {
	switch c.op {
	case ONot:
		r, ok := f.decide(c.a)
		return !r, ok
	case OAnd, OOr:
		r1, ok1 := f.decide(c.a)
		r2, ok2 := f.decide(c.b)
		if c.op == OAnd {
			if ok1 && !r1 || ok2 && !r2 {
				return false, true
			}
		} else if ok1 && r1 || ok2 && r2 {
			return true, true
		}
		return r2, ok1 && ok2
	case OUlt, OUle, OSlt, OSle:
		l1, h1 := f.interval(c.a, 0)
		l2, h2 := f.interval(c.b, 0)
		return rangeCmp(c.op, l1, h1, l2, h2, c.a.w)
	case OFLt, OFLe:
		l1, h1, ok1 := f.finterval(c.a, 0)
		l2, h2, ok2 := f.finterval(c.b, 0)
		switch {
		case !ok1 || !ok2:
		case c.op == OFLt && h1 < l2 || c.op == OFLe && h1 <= l2:
			return true, true
		case c.op == OFLt && l1 >= h2 || c.op == OFLe && l1 > h2:
			return false, true
		}
		return
	case OEq:
		if c.a.fp || c.a.w == 0 {
			return
		}
		l1, h1 := f.interval(c.a, 0)
		l2, h2 := f.interval(c.b, 0)
		if h1 < l2 || h2 < l1 {
			return false, true
		}
		if l1 == h1 && l2 == h2 {
			return l1 == l2, true
		}
		x, y := unzext(c.a), c.b
		if x.isConst() {
			x, y = unzext(c.b), c.a
		}
		if x.op == OExtract && x.w < 32 && x.v&0xff == 0 && y.isConst() { // a remainder by a power of two
			return f.remainder(x.a, 1<<x.w, y.v)
		}
		if x.op != OUrem || !x.b.isConst() || !y.isConst() {
			return
		}
		return f.remainder(unzext(x.a), x.b.v, y.v)
	}
	return
}

// remainder: is n mod c equal to r?
func (f *facts) remainder(n *Term, c, r uint64) (res, ok bool) {
	if r >= c {
		return false, true
	}
	for m, v := range f.rem[n] {
		if m%c == 0 {
			return v%c == r, true
		}
		if c%m == 0 && r%m != v {
			return false, true
		}
	}
	nd := f.nodiv[n]
	if nd[c] {
		if r == 0 {
			return false, true
		}
		if c == 2 {
			return true, true
		}
		return
	}
	if len(nd) == 0 || c > 1<<34 {
		return
	}
	for d, k := uint64(2), c; k > 1; d++ {
		if d*d > k {
			d = k
		}
		if k%d != 0 {
			continue
		}
		for k%d == 0 {
			k /= d
		}
		// d divides c: if it divides r, it would divide n
		if r%d == 0 && nd[d] {
			return false, true
		}
	}
	return
}

// learn takes in a constraint of the path.
func (f *facts) learn(t *Term) {
	switch t.op {
	case OUlt, OUle:
		if t.a.isConst() && t.a.v < mask(t.a.w) {
			x, v := unzext(t.b), t.a.v
			if t.op == OUlt {
				v++
			}
			f.narrow(x, v, mask(x.w))
		} else if t.b.isConst() {
			x, v := unzext(t.a), t.b.v
			if t.op == OUlt {
				if v == 0 {
					return
				}
				v--
			}
			f.narrow(x, 0, v)
		}
	case OEq:
		if x, y := unzext(t.a), t.b; x.op == OUrem && x.b.isConst() && y.isConst() {
			n := unzext(x.a)
			if f.rem[n] == nil {
				f.rem[n] = map[uint64]uint64{}
			}
			f.rem[n][x.b.v] = y.v
		}
	case ONot:
		if e := t.a; e.op == OEq {
			if x, y := unzext(e.a), e.b; x.op == OUrem && x.b.isConst() && y.isConst() && y.v == 0 {
				f.noDiv(unzext(x.a), x.b.v)
			}
		}
	}
}

func (f *facts) noDiv(n *Term, d uint64) {
	m := f.nodiv[n]
	if m == nil {
		m = map[uint64]bool{}
		f.nodiv[n] = m
	}
	m[d] = true
}

func (f *facts) narrow(x *Term, lo, hi uint64) {
	r, ok := f.iv[x]
	if !ok {
		r = [2]uint64{0, mask(x.w)}
	}
	f.iv[x] = [2]uint64{max(lo, r[0]), min(hi, r[1])}
}

// lazyQuery shows the solver only the constraints its models would violate.
func (in *Interp) lazyQuery(q *Term) (satResult, Model) {
	var active []*Term
	on := make([]bool, len(in.pc))
	for i, p := range in.pc {
		if isCmp(p.op) {
			active, on[i] = append(active, p), true
		}
	}
	for round := 0; round < 200 && len(active) < 400; round++ {
		r, m := in.sol.check(active, q, in.vars)
		if r != rSat {
			return r, nil
		}
		in.evGen++
		ev := Evaluator{gen: in.evGen, m: in.mergeModel(m)}
		bad := 0
		for i, p := range in.pc {
			if !on[i] && ev.eval(p) == 0 {
				active, on[i] = append(active, p), true
				if bad++; bad == 3 {
					break
				}
			}
		}
		in.evGen++
		in.ev = Evaluator{gen: in.evGen, m: in.model}
		if bad == 0 {
			return rSat, m
		}
	}
	return rUnknown, nil
}
