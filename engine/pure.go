package main

// Integer reading of bit-vector formulas. A term is "pure" when its signed
// value can be computed over the integers without wrap-around: comparisons,
// selections and sums whose range provably fits. A query made of pure terms
// only is equivalent over the integers, where z3 decides orderings far faster
// than by bit-blasting.

import (
	"fmt"
	"math"
	"strconv"
)

func signedMax(w uint8) int64 {
	if w >= 64 {
		return math.MaxInt64
	}
	return int64(1)<<(w-1) - 1
}

func sval(t *Term) int64 {
	if t.w >= 64 {
		return int64(t.v)
	}
	s := 64 - t.w
	return int64(t.v<<s) >> s
}

func addOvf(a, b int64) (int64, bool) {
	c := a + b
	return c, (c > a) == (b > 0)
}

func mulOvf(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	c := a * b
	return c, c/b == a && !(a == -1 && b == math.MinInt64) && !(b == -1 && a == math.MinInt64)
}

func (t *Term) fits() bool {
	return t.lo <= t.hi && t.hi <= signedMax(t.w) && t.lo >= -signedMax(t.w)-1
}

func (t *Term) setPure() {
	if t.fp {
		return
	}
	a, b, c := t.a, t.b, t.c
	p := (a == nil || a.pure) && (b == nil || b.pure) && (c == nil || c.pure)
	if !p {
		return
	}
	switch t.op {
	case OConst:
		t.pure = true
		if t.w > 0 {
			t.lo = sval(t)
			t.hi = t.lo
		}
	case OVar:
		t.pure = true
		if t.w > 0 {
			t.hi = signedMax(t.w)
			t.lo = -t.hi - 1
		}
	case ONot, OAnd, OOr, OSlt, OSle:
		t.pure = true
	case OEq:
		t.pure = !a.fp
	case OUlt, OUle:
		t.pure = a.lo >= 0 && b.lo >= 0
	case OIte:
		t.pure = true
		if t.w > 0 {
			t.lo, t.hi = min(b.lo, c.lo), max(b.hi, c.hi)
		}
	case OAdd:
		l, ok1 := addOvf(a.lo, b.lo)
		h, ok2 := addOvf(a.hi, b.hi)
		if ok1 && ok2 {
			t.lo, t.hi = l, h
			t.pure = t.fits()
		}
	case OSub:
		if b.lo == math.MinInt64 || b.hi == math.MinInt64 {
			return
		}
		l, ok1 := addOvf(a.lo, -b.hi)
		h, ok2 := addOvf(a.hi, -b.lo)
		if ok1 && ok2 {
			t.lo, t.hi = l, h
			t.pure = t.fits()
		}
	case OMul:
		if b.op == OConst {
			a, b = b, a
		}
		if a.op != OConst {
			return
		}
		l, ok1 := mulOvf(a.lo, b.lo)
		h, ok2 := mulOvf(a.lo, b.hi)
		if ok1 && ok2 {
			t.lo, t.hi = min(l, h), max(l, h)
			t.pure = t.fits()
		}
	case OExtract:
		t.lo, t.hi = a.lo, a.hi
		t.pure = t.v&0xff == 0 && a.lo >= 0 && a.hi <= signedMax(t.w)
	case OSext:
		t.lo, t.hi, t.pure = a.lo, a.hi, true
	case OZext:
		t.lo, t.hi, t.pure = a.lo, a.hi, a.lo >= 0
	}
}

func allPure(pc []*Term, q *Term) bool {
	if !q.pure {
		return false
	}
	for _, p := range pc {
		if !p.pure {
			return false
		}
	}
	return true
}

func intNum(v int64) string {
	if v < 0 {
		return "(- " + strconv.FormatUint(uint64(-v), 10) + ")"
	}
	return strconv.FormatInt(v, 10)
}

func (t *Term) intRef() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return constStr(t)
		}
		return intNum(sval(t))
	case OVar:
		return t.name
	case OSext, OZext, OExtract:
		return t.a.intRef()
	}
	return "t" + strconv.Itoa(int(t.id))
}

func (t *Term) intDef() string {
	sort := "Int"
	if t.w == 0 {
		sort = "Bool"
	}
	switch t.op {
	case OVar:
		if t.w == 0 {
			return "(declare-const " + t.name + " Bool)\n"
		}
		return fmt.Sprintf("(declare-const %s Int)\n", t.name)
	case OSext, OZext, OExtract:
		return ""
	}
	n := map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OUlt: "<", OUle: "<=", OSlt: "<", OSle: "<=", OAdd: "+", OSub: "-", OMul: "*"}[t.op]
	s := "(" + n
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.intRef()
		}
	}
	return "(define-fun t" + strconv.Itoa(int(t.id)) + " () " + sort + " " + s + "))\n"
}
