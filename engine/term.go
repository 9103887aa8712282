package main

// Symbolic terms: hash-consed bit-vector / boolean / floating point DAG with
// constant folding, an evaluator over models and an SMT-LIB2 printer.

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	// boolean
	ONot
	OAnd
	OOr
	OIte // bool or bv
	OEq
	// bv comparisons
	OUlt
	OUle
	OSlt
	OSle
	// bv arithmetic
	OAdd
	OSub
	OMul
	OUdiv
	OSdiv
	OUrem
	OSrem
	OBand
	OBor
	OBxor
	OBnot
	ONeg
	OShl
	OLshr
	OAshr
	OConcat
	OExtract // v = hi<<8|lo
	OZext
	OSext
	// fp (64/32 given by term width and fp flag); arguments are FP-sorted terms
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFLt
	OFLe
	OFEq
	OFFromBits // bv -> fp
	OFFromS    // signed bv -> fp (RNE)
	OFFromU
	OFCvt // fp -> fp
	OFIsNaN
	OFToS // fp -> signed bv, truncating
	OFToU
	OFSqrt
	OEqFP // identity of floats
)

// Sorts: w==0 && !fp : Bool;  w>0 && !fp: BV w;  fp: Float (w 32 or 64)
type Term struct {
	op      Op
	w       uint8
	fp      bool
	v       uint64
	a, b, c *Term
	name    string
	id      int32
	h       uint64   // structural hash: the same in every worker
	pure    bool     // has an integer reading, see pure.go
	lo, hi  int64    // range of the integer reading
	emitted [2]int32 // solver generation in which it has been emitted
	evalGen int32
	evalVal uint64
}

type termKey struct {
	op      Op
	w       uint8
	fp      bool
	v       uint64
	a, b, c *Term
	name    string
}

type TermCtx struct {
	tables map[*Term]tableOf
	ranges map[[2]int64]uint64
	tab    map[termKey]*Term
	next   int32
	small  [65][1024]*Term
	tt, ff *Term
}

func newTermCtx() *TermCtx {
	c := &TermCtx{tab: map[termKey]*Term{}}
	c.ff = c.mk(termKey{op: OConst, w: 0, v: 0})
	c.tt = c.mk(termKey{op: OConst, w: 0, v: 1})
	return c
}

func (c *TermCtx) mk(k termKey) *Term {
	if k.a != nil {
		if k.a.id == 0 {
			k.a = c.canon(k.a)
		}
		if k.b != nil && k.b.id == 0 {
			k.b = c.canon(k.b)
		}
		if k.c != nil && k.c.id == 0 {
			k.c = c.canon(k.c)
		}
	}
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.next++
	t := &Term{op: k.op, w: k.w, fp: k.fp, v: k.v, a: k.a, b: k.b, c: k.c, name: k.name, id: c.next}
	t.h = k.hash()
	t.setPure()
	c.tab[k] = t
	return t
}

func (k *termKey) hash() uint64 {
	h := uint64(14695981039346656037)
	mix := func(x uint64) { h = (h ^ x) * 0x9E3779B97F4A7C15; h ^= h >> 29 }
	mix(uint64(k.op) | uint64(k.w)<<8)
	mix(k.v)
	for _, x := range [3]*Term{k.a, k.b, k.c} {
		if x != nil {
			mix(x.h)
		} else {
			mix(7)
		}
	}
	for i := 0; i < len(k.name); i++ {
		h = (h ^ uint64(k.name[i])) * 1099511628211
	}
	if k.fp {
		mix(99)
	}
	return h
}

// after orders commutative operands the same way in every worker.
func after(x, y *Term) bool {
	if x.h != y.h {
		return x.h > y.h
	}
	return x.id > y.id
}

// canon gives the hash-consed representative of a constant (large constants
// are allocated without hash-consing, for the speed of concrete execution).
func (c *TermCtx) canon(t *Term) *Term {
	return c.mk(termKey{op: OConst, w: t.w, fp: t.fp, v: t.v})
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.v == 1 && !t.fp }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.v == 0 && !t.fp }

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.tt
	}
	return c.ff
}

func (c *TermCtx) BV(w uint8, v uint64) *Term {
	v &= mask(w)
	if v < 1024 {
		if t := c.small[w][v]; t != nil {
			return t
		}
		t := c.mk(termKey{op: OConst, w: w, v: v})
		c.small[w][v] = t
		return t
	}
	t := &Term{op: OConst, w: w, v: v, pure: true}
	t.lo = sval(t)
	t.hi = t.lo
	return t
}

func (c *TermCtx) FP(w uint8, bitsv uint64) *Term {
	return &Term{op: OConst, w: w, fp: true, v: bitsv}
}

func (c *TermCtx) Var(name string, w uint8) *Term {
	return c.mk(termKey{op: OVar, w: w, name: name})
}

// VarR is a variable known to lie in [lo,hi] (signed); the caller asserts the
// range. The range is part of the term's identity.
func (c *TermCtx) VarR(name string, w uint8, lo, hi int64) *Term {
	k := [2]int64{lo, hi}
	i, ok := c.ranges[k]
	if !ok {
		if c.ranges == nil {
			c.ranges = map[[2]int64]uint64{}
		}
		i = uint64(len(c.ranges)) + 1
		c.ranges[k] = i
	}
	t := c.mk(termKey{op: OVar, w: w, name: name, v: i})
	t.lo, t.hi = lo, hi
	return t
}

// pureCmp decides a comparison from the ranges of its sides.
func pureCmp(op Op, x, y *Term) (res, ok bool) {
	if !x.pure || !y.pure || x.w == 0 {
		return
	}
	if (op == OUlt || op == OUle) && (x.lo < 0 || y.lo < 0) {
		return
	}
	switch op {
	case OSlt, OUlt:
		if x.hi < y.lo {
			return true, true
		}
		if x.lo >= y.hi {
			return false, true
		}
	case OSle, OUle:
		if x.hi <= y.lo {
			return true, true
		}
		if x.lo > y.hi {
			return false, true
		}
	case OEq:
		if x.hi < y.lo || y.hi < x.lo {
			return false, true
		}
	}
	return
}

func (c *TermCtx) FPVar(name string, w uint8) *Term {
	return c.mk(termKey{op: OVar, w: w, fp: true, name: name})
}

func (c *TermCtx) Not(x *Term) *Term {
	switch x.op {
	case OConst:
		return c.Bool(x.v == 0)
	case ONot:
		return x.a
	case OUlt:
		return c.mk(termKey{op: OUle, a: x.b, b: x.a})
	case OUle:
		return c.mk(termKey{op: OUlt, a: x.b, b: x.a})
	case OSlt:
		return c.mk(termKey{op: OSle, a: x.b, b: x.a})
	case OSle:
		return c.mk(termKey{op: OSlt, a: x.b, b: x.a})
	}
	return c.mk(termKey{op: ONot, a: x})
}

func (c *TermCtx) And(x, y *Term) *Term {
	if x.isFalse() || y.isFalse() {
		return c.ff
	}
	if x.isTrue() || x == y {
		return y
	}
	if y.isTrue() {
		return x
	}
	if c.Not(x) == y {
		return c.ff
	}
	if after(x, y) {
		x, y = y, x
	}
	return c.mk(termKey{op: OAnd, a: x, b: y})
}

func (c *TermCtx) Or(x, y *Term) *Term {
	if x.isTrue() || y.isTrue() {
		return c.tt
	}
	if x.isFalse() || x == y {
		return y
	}
	if y.isFalse() {
		return x
	}
	if c.Not(x) == y {
		return c.tt
	}
	if after(x, y) {
		x, y = y, x
	}
	return c.mk(termKey{op: OOr, a: x, b: y})
}

func (c *TermCtx) Implies(x, y *Term) *Term { return c.Or(c.Not(x), y) }

func (c *TermCtx) Ite(k, x, y *Term) *Term {
	if k.isTrue() {
		return x
	}
	if k.isFalse() {
		return y
	}
	if x == y || (x.op == OConst && y.op == OConst && x.v == y.v) {
		return x
	}
	if x.w == 0 && !x.fp {
		if x.isTrue() {
			return c.Or(k, y)
		}
		if x.isFalse() {
			return c.And(c.Not(k), y)
		}
		if y.isTrue() {
			return c.Or(c.Not(k), x)
		}
		if y.isFalse() {
			return c.And(k, x)
		}
	}
	if k.op == ONot {
		k, x, y = k.a, y, x
	}
	return c.mk(termKey{op: OIte, w: x.w, fp: x.fp, a: k, b: x, c: y})
}

func (c *TermCtx) Eq(x, y *Term) *Term {
	if x == y && !x.fp {
		return c.tt
	}
	if x.fp {
		panic("Eq on fp")
	}
	if x.w != y.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d: %s %s", x.w, y.w, c.Show(x), c.Show(y)))
	}
	if x.isConst() && y.isConst() {
		return c.Bool(x.v == y.v)
	}
	if x.w == 0 {
		if x.isTrue() {
			return y
		}
		if y.isTrue() {
			return x
		}
		if x.isFalse() {
			return c.Not(y)
		}
		if y.isFalse() {
			return c.Not(x)
		}
	}
	if _, ok := pureCmp(OEq, x, y); ok {
		return c.ff
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		switch x.op {
		case OZext:
			if y.v&^mask(x.a.w) != 0 {
				return c.ff
			}
			return c.Eq(x.a, c.BV(x.a.w, y.v))
		case OIte:
			if x.b.isConst() && x.c.isConst() {
				e1, e2 := x.b.v == y.v, x.c.v == y.v
				switch {
				case e1 && e2:
					return c.tt
				case e1:
					return x.a
				case e2:
					return c.Not(x.a)
				default:
					return c.ff
				}
			}
			if x.b.isConst() && x.b.v != y.v {
				return c.And(c.Not(x.a), c.Eq(x.c, y))
			}
			if x.c.isConst() && x.c.v != y.v {
				return c.And(x.a, c.Eq(x.b, y))
			}
		case OAdd:
			if x.b.isConst() {
				return c.Eq(x.a, c.BV(x.w, y.v-x.b.v))
			}
		case OConcat:
			lw := x.b.w
			return c.And(c.Eq(x.a, c.BV(x.a.w, y.v>>lw)), c.Eq(x.b, c.BV(lw, y.v)))
		}
	}
	if after(x, y) && !y.isConst() {
		x, y = y, x
	}
	return c.mk(termKey{op: OEq, a: x, b: y})
}

func isCmp(op Op) bool { return op >= OUlt && op <= OSle }

func (c *TermCtx) Cmp(op Op, x, y *Term) *Term {
	if x.w != y.w {
		panic("cmp width mismatch")
	}
	if x.isConst() && y.isConst() {
		return c.Bool(foldCmp(op, x.v, y.v, x.w))
	}
	if x == y {
		return c.Bool(op == OUle || op == OSle)
	}
	if r, ok := pureCmp(op, x, y); ok {
		return c.Bool(r)
	}
	// range reasoning on zero-extended operands
	if y.isConst() {
		if op == OUlt && y.v == 0 {
			return c.ff
		}
		if op == OUle && y.v == mask(x.w) {
			return c.tt
		}
		if lo, hi, ok := urange(x, 0); ok {
			if r, ok := rangeCmp(op, lo, hi, y.v, y.v, x.w); ok {
				return c.Bool(r)
			}
		}
	} else if x.isConst() {
		if op == OUle && x.v == 0 {
			return c.tt
		}
		if op == OUlt && x.v == mask(x.w) {
			return c.ff
		}
		if lo, hi, ok := urange(y, 0); ok {
			if r, ok := rangeCmp(op, x.v, x.v, lo, hi, x.w); ok {
				return c.Bool(r)
			}
		}
	} else {
		if lo, hi, ok := urange(x, 0); ok {
			if lo2, hi2, ok := urange(y, 0); ok {
				if r, ok := rangeCmp(op, lo, hi, lo2, hi2, x.w); ok {
					return c.Bool(r)
				}
			}
		}
	}
	// zero-extension on both sides / const
	if x.op == OZext && y.op == OZext && x.a.w == y.a.w {
		uop := op
		if op == OSlt {
			uop = OUlt
		} else if op == OSle {
			uop = OUle
		}
		return c.Cmp(uop, x.a, y.a)
	}
	return c.mk(termKey{op: op, a: x, b: y})
}

// urange gives a cheap unsigned interval for a term (values known not to have
// the sign bit ambiguity only matter to rangeCmp).
func urange(t *Term, d int) (lo, hi uint64, ok bool) {
	if d > 4 {
		return 0, 0, false
	}
	switch t.op {
	case OConst:
		return t.v, t.v, true
	case OZext:
		if lo, hi, ok := urange(t.a, d+1); ok {
			return lo, hi, true
		}
		return 0, mask(t.a.w), true
	case OIte:
		l1, h1, ok1 := urange(t.b, d+1)
		l2, h2, ok2 := urange(t.c, d+1)
		if ok1 && ok2 {
			return min(l1, l2), max(h1, h2), true
		}
	case OUrem:
		if t.b.isConst() && t.b.v > 0 {
			return 0, t.b.v - 1, true
		}
	case OBand:
		if t.b.isConst() {
			return 0, t.b.v, true
		}
		if t.a.isConst() {
			return 0, t.a.v, true
		}
	case OLshr:
		if t.b.isConst() && t.b.v < uint64(t.w) {
			return 0, mask(t.w) >> t.b.v, true
		}
	case OUdiv:
		if t.b.isConst() && t.b.v > 0 {
			return 0, mask(t.w) / t.b.v, true
		}
	}
	return 0, 0, false
}

func rangeCmp(op Op, lo1, hi1, lo2, hi2 uint64, w uint8) (res, ok bool) {
	switch op {
	case OSlt, OSle:
		// only when neither interval crosses the sign boundary
		s := uint64(1) << (w - 1)
		if (lo1 < s) != (hi1 < s) || (lo2 < s) != (hi2 < s) {
			return false, false
		}
		a1, b1, a2, b2 := sx(lo1, w), sx(hi1, w), sx(lo2, w), sx(hi2, w)
		if op == OSlt {
			if b1 < a2 {
				return true, true
			}
			if a1 >= b2 {
				return false, true
			}
		} else {
			if b1 <= a2 {
				return true, true
			}
			if a1 > b2 {
				return false, true
			}
		}
	case OUlt:
		if hi1 < lo2 {
			return true, true
		}
		if lo1 >= hi2 {
			return false, true
		}
	case OUle:
		if hi1 <= lo2 {
			return true, true
		}
		if lo1 > hi2 {
			return false, true
		}
	}
	return false, false
}

func foldCmp(op Op, x, y uint64, w uint8) bool {
	switch op {
	case OUlt:
		return x < y
	case OUle:
		return x <= y
	case OSlt:
		return sx(x, w) < sx(y, w)
	case OSle:
		return sx(x, w) <= sx(y, w)
	}
	panic("foldCmp")
}

func foldBin(op Op, x, y uint64, w uint8) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUdiv:
		if y == 0 {
			return m
		}
		return x / y
	case OUrem:
		if y == 0 {
			return x
		}
		return x % y
	case OSdiv:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return m
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSrem:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OBand:
		return x & y
	case OBor:
		return x | y
	case OBxor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w)>>y) & m
	}
	panic("foldBin")
}

func (c *TermCtx) Bin(op Op, x, y *Term) *Term {
	if x.w != y.w {
		panic(fmt.Sprintf("bin width mismatch op %d: %d %d", op, x.w, y.w))
	}
	w := x.w
	if x.isConst() && y.isConst() {
		return c.BV(w, foldBin(op, x.v, y.v, w))
	}
	switch op {
	case OAdd, OMul, OBand, OBor, OBxor:
		if x.isConst() {
			x, y = y, x
		}
	}
	if y.isConst() {
		switch op {
		case OAdd:
			if y.v == 0 {
				return x
			}
			if x.op == OAdd && x.b.isConst() {
				return c.Bin(OAdd, x.a, c.BV(w, x.b.v+y.v))
			}
		case OSub:
			if y.v == 0 {
				return x
			}
			return c.Bin(OAdd, x, c.BV(w, -y.v))
		case OMul:
			if y.v == 0 {
				return y
			}
			if y.v == 1 {
				return x
			}
		case OBand:
			if y.v == 0 {
				return y
			}
			if y.v == mask(w) {
				return x
			}
			// contiguous low mask -> zext(extract)
			if y.v&(y.v+1) == 0 {
				n := uint8(bits.Len64(y.v))
				return c.Zext(c.Extract(x, n-1, 0), w)
			}
		case OBor:
			if y.v == 0 {
				return x
			}
			if y.v == mask(w) {
				return y
			}
		case OBxor:
			if y.v == 0 {
				return x
			}
		case OShl:
			if y.v == 0 {
				return x
			}
			if y.v >= uint64(w) {
				return c.BV(w, 0)
			}
			return c.Concat(c.Extract(x, w-1-uint8(y.v), 0), c.BV(uint8(y.v), 0))
		case OLshr:
			if y.v == 0 {
				return x
			}
			if y.v >= uint64(w) {
				return c.BV(w, 0)
			}
			return c.Zext(c.Extract(x, w-1, uint8(y.v)), w)
		case OAshr:
			if y.v == 0 {
				return x
			}
		case OUdiv:
			if y.v == 1 {
				return x
			}
			if y.v != 0 && y.v&(y.v-1) == 0 {
				return c.Bin(OLshr, x, c.BV(w, uint64(bits.TrailingZeros64(y.v))))
			}
		case OUrem:
			if y.v != 0 && y.v&(y.v-1) == 0 {
				return c.Bin(OBand, x, c.BV(w, y.v-1))
			}
		}
	}
	if x.isConst() && x.v == 0 {
		switch op {
		case OShl, OLshr, OAshr:
			return x
		}
	}
	if x == y {
		switch op {
		case OSub, OBxor:
			return c.BV(w, 0)
		case OBand, OBor:
			return x
		}
	}
	if op == OBor {
		// zero-extended low part | (high part << k)  => concat
		if r := c.orConcat(x, y); r != nil {
			return r
		}
		if r := c.orConcat(y, x); r != nil {
			return r
		}
	}
	if op == OBxor {
		// (a ^ b) ^ b => a   (needed by CBC round trips)
		if x.op == OBxor {
			if x.a == y {
				return x.b
			}
			if x.b == y {
				return x.a
			}
		}
		if y.op == OBxor {
			if y.a == x {
				return y.b
			}
			if y.b == x {
				return y.a
			}
		}
	}
	switch op {
	case OAdd, OMul, OBand, OBor, OBxor:
		if after(x, y) && !y.isConst() {
			x, y = y, x
		}
	}
	return c.mk(termKey{op: op, w: w, a: x, b: y})
}

// low has zeros above bit k; high has zeros below bit k => concat
func (c *TermCtx) orConcat(hi, lo *Term) *Term {
	if hi.op != OConcat || !hi.b.isConst() || hi.b.v != 0 {
		return nil
	}
	k := hi.b.w
	switch lo.op {
	case OZext:
		if lo.a.w <= k {
			return c.Concat(hi.a, c.Zext(lo.a, k))
		}
	case OConcat:
		// lo = concat(zeros, x)?
		if lo.a.isConst() && lo.a.v == 0 && lo.b.w <= k {
			return c.Concat(hi.a, c.Zext(lo.b, k))
		}
	case OConst:
		if lo.v <= mask(k) {
			return c.Concat(hi.a, c.BV(k, lo.v))
		}
	}
	return nil
}

func (c *TermCtx) Neg(x *Term) *Term  { return c.Bin(OSub, c.BV(x.w, 0), x) }
func (c *TermCtx) BNot(x *Term) *Term { return c.Bin(OBxor, x, c.BV(x.w, mask(x.w))) }

func (c *TermCtx) Extract(x *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == x.w {
		return x
	}
	switch x.op {
	case OConst:
		return c.BV(w, x.v>>lo)
	case OExtract:
		ilo := uint8(x.v & 0xff)
		return c.Extract(x.a, hi+ilo, lo+ilo)
	case OConcat:
		lw := x.b.w
		if hi < lw {
			return c.Extract(x.b, hi, lo)
		}
		if lo >= lw {
			return c.Extract(x.a, hi-lw, lo-lw)
		}
		return c.Concat(c.Extract(x.a, hi-lw, 0), c.Extract(x.b, lw-1, lo))
	case OZext:
		iw := x.a.w
		if hi < iw {
			return c.Extract(x.a, hi, lo)
		}
		if lo >= iw {
			return c.BV(w, 0)
		}
		return c.Zext(c.Extract(x.a, iw-1, lo), w)
	case OSext:
		if hi < x.a.w {
			return c.Extract(x.a, hi, lo)
		}
	case OBxor, OBand, OBor:
		return c.Bin(x.op, c.Extract(x.a, hi, lo), c.Extract(x.b, hi, lo))
	case OAdd, OSub, OMul:
		if lo == 0 {
			return c.Bin(x.op, c.Extract(x.a, hi, 0), c.Extract(x.b, hi, 0))
		}
	case OIte:
		if x.b.isConst() || x.c.isConst() {
			return c.Ite(x.a, c.Extract(x.b, hi, lo), c.Extract(x.c, hi, lo))
		}
	}
	return c.mk(termKey{op: OExtract, w: w, a: x, v: uint64(hi)<<8 | uint64(lo)})
}

func (c *TermCtx) Concat(hi, lo *Term) *Term {
	w := hi.w + lo.w
	if w > 64 {
		panic("concat > 64")
	}
	if hi.isConst() && lo.isConst() {
		return c.BV(w, hi.v<<lo.w|lo.v)
	}
	if hi.isConst() && hi.v == 0 {
		return c.Zext(lo, w)
	}
	// adjacent extracts of the same term
	if hi.op == OExtract && lo.op == OExtract && hi.a == lo.a {
		hlo := uint8(hi.v & 0xff)
		lhi := uint8(lo.v >> 8)
		if hlo == lhi+1 {
			return c.Extract(hi.a, uint8(hi.v>>8), uint8(lo.v&0xff))
		}
	}
	if lo.op == OConcat && hi.op == OExtract && lo.a.op == OExtract && hi.a == lo.a.a {
		hlo := uint8(hi.v & 0xff)
		lhi := uint8(lo.a.v >> 8)
		if hlo == lhi+1 {
			return c.Concat(c.Extract(hi.a, uint8(hi.v>>8), uint8(lo.a.v&0xff)), lo.b)
		}
	}
	if hi.op == OConcat { // right-assoc normal form
		return c.Concat(hi.a, c.Concat(hi.b, lo))
	}
	return c.mk(termKey{op: OConcat, w: w, a: hi, b: lo})
}

func (c *TermCtx) Zext(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.w > w {
		return c.Extract(x, w-1, 0)
	}
	if x.isConst() {
		return c.BV(w, x.v)
	}
	if x.op == OZext {
		return c.Zext(x.a, w)
	}
	return c.mk(termKey{op: OZext, w: w, a: x})
}

func (c *TermCtx) Sext(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.w > w {
		return c.Extract(x, w-1, 0)
	}
	if x.isConst() {
		return c.BV(w, uint64(sx(x.v, x.w)))
	}
	if x.op == OZext {
		return c.Zext(x.a, w)
	}
	return c.mk(termKey{op: OSext, w: w, a: x})
}

// ---- floating point -------------------------------------------------------

func ffrom(bitsv uint64, w uint8) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(bitsv)))
	}
	return math.Float64frombits(bitsv)
}
func fto(f float64, w uint8) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func foldF(op Op, x, y float64, w uint8) float64 {
	if w == 32 {
		a, b := float32(x), float32(y)
		switch op {
		case OFAdd:
			return float64(a + b)
		case OFSub:
			return float64(a - b)
		case OFMul:
			return float64(a * b)
		case OFDiv:
			return float64(a / b)
		}
	}
	switch op {
	case OFAdd:
		return x + y
	case OFSub:
		return x - y
	case OFMul:
		return x * y
	case OFDiv:
		return x / y
	}
	panic("foldF")
}

func (c *TermCtx) FBin(op Op, x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		return c.FP(x.w, fto(foldF(op, ffrom(x.v, x.w), ffrom(y.v, y.w), x.w), x.w))
	}
	return c.mk(termKey{op: op, w: x.w, fp: true, a: x, b: y})
}

func (c *TermCtx) FCmp(op Op, x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		a, b := ffrom(x.v, x.w), ffrom(y.v, y.w)
		switch op {
		case OFLt:
			return c.Bool(a < b)
		case OFLe:
			return c.Bool(a <= b)
		case OFEq:
			return c.Bool(a == b)
		}
	}
	return c.mk(termKey{op: op, a: x, b: y})
}

func (c *TermCtx) FUn(op Op, x *Term) *Term {
	if x.isConst() {
		switch op {
		case OFNeg:
			return c.FP(x.w, x.v^(1<<(x.w-1)))
		case OFAbs:
			return c.FP(x.w, x.v&^(1<<(x.w-1)))
		}
	}
	return c.mk(termKey{op: op, w: x.w, fp: true, a: x})
}

func (c *TermCtx) FFromInt(x *Term, signed bool, w uint8) *Term {
	if x.isConst() {
		if signed {
			if w == 32 {
				return c.FP(32, uint64(math.Float32bits(float32(sx(x.v, x.w)))))
			}
			return c.FP(64, math.Float64bits(float64(sx(x.v, x.w))))
		}
		if w == 32 {
			return c.FP(32, uint64(math.Float32bits(float32(x.v))))
		}
		return c.FP(64, math.Float64bits(float64(x.v)))
	}
	op := OFFromU
	if signed {
		op = OFFromS
	}
	return c.mk(termKey{op: op, w: w, fp: true, a: x})
}

func f2u(f float64) uint64 {
	if f < 9.2e18 {
		return uint64(int64(f))
	}
	return uint64(f)
}

func (c *TermCtx) FToInt(x *Term, signed bool, w uint8) *Term {
	op := OFToU
	if signed {
		op = OFToS
	}
	return c.mk(termKey{op: op, w: w, a: x})
}

func (c *TermCtx) FSqrt(x *Term) *Term {
	if x.isConst() {
		return c.FP(x.w, fto(math.Sqrt(ffrom(x.v, x.w)), x.w))
	}
	return c.mk(termKey{op: OFSqrt, w: x.w, fp: true, a: x})
}

func (c *TermCtx) FCvt(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.isConst() {
		return c.FP(w, fto(ffrom(x.v, x.w), w))
	}
	return c.mk(termKey{op: OFCvt, w: w, fp: true, a: x})
}

func (c *TermCtx) FFromBits(x *Term) *Term {
	if x.isConst() {
		return c.FP(x.w, x.v)
	}
	return c.mk(termKey{op: OFFromBits, w: x.w, fp: true, a: x})
}

// ---- evaluation -----------------------------------------------------------

type Model map[string]uint64

type Evaluator struct {
	gen int32
	m   Model
}

func (e *Evaluator) set(m Model, gen int32) { e.m = m; e.gen = gen }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (e *Evaluator) eval(t *Term) uint64 {
	if t.op == OConst {
		return t.v
	}
	if t.evalGen == e.gen {
		return t.evalVal
	}
	var r uint64
	switch t.op {
	case OVar:
		r = e.m[t.name]
		if t.w > 0 {
			r &= mask(t.w)
		}
	case ONot:
		r = 1 ^ e.eval(t.a)
	case OAnd:
		r = e.eval(t.a)
		if r != 0 {
			r = e.eval(t.b)
		}
	case OOr:
		r = e.eval(t.a)
		if r == 0 {
			r = e.eval(t.b)
		}
	case OIte:
		if e.eval(t.a) != 0 {
			r = e.eval(t.b)
		} else {
			r = e.eval(t.c)
		}
	case OEq:
		r = b2u(e.eval(t.a) == e.eval(t.b))
	case OUlt, OUle, OSlt, OSle:
		r = b2u(foldCmp(t.op, e.eval(t.a), e.eval(t.b), t.a.w))
	case OConcat:
		r = e.eval(t.a)<<t.b.w | e.eval(t.b)
	case OExtract:
		r = (e.eval(t.a) >> (t.v & 0xff)) & mask(t.w)
	case OZext:
		r = e.eval(t.a)
	case OSext:
		r = uint64(sx(e.eval(t.a), t.a.w)) & mask(t.w)
	case OFAdd, OFSub, OFMul, OFDiv:
		r = fto(foldF(t.op, ffrom(e.eval(t.a), t.w), ffrom(e.eval(t.b), t.w), t.w), t.w)
	case OFNeg:
		r = e.eval(t.a) ^ (1 << (t.w - 1))
	case OFAbs:
		r = e.eval(t.a) &^ (1 << (t.w - 1))
	case OFLt:
		r = b2u(ffrom(e.eval(t.a), t.a.w) < ffrom(e.eval(t.b), t.a.w))
	case OFLe:
		r = b2u(ffrom(e.eval(t.a), t.a.w) <= ffrom(e.eval(t.b), t.a.w))
	case OFEq:
		r = b2u(ffrom(e.eval(t.a), t.a.w) == ffrom(e.eval(t.b), t.a.w))
	case OFIsNaN:
		r = b2u(math.IsNaN(ffrom(e.eval(t.a), t.a.w)))
	case OFFromBits:
		r = e.eval(t.a)
	case OEqFP:
		x, y := ffrom(e.eval(t.a), t.a.w), ffrom(e.eval(t.b), t.a.w)
		r = b2u(e.eval(t.a) == e.eval(t.b) || math.IsNaN(x) && math.IsNaN(y))
	case OFToS:
		r = uint64(int64(ffrom(e.eval(t.a), t.a.w))) & mask(t.w)
	case OFToU:
		r = f2u(ffrom(e.eval(t.a), t.a.w)) & mask(t.w)
	case OFSqrt:
		r = fto(math.Sqrt(ffrom(e.eval(t.a), t.a.w)), t.w)
	case OFFromS:
		if t.w == 32 {
			r = uint64(math.Float32bits(float32(sx(e.eval(t.a), t.a.w))))
		} else {
			r = fto(float64(sx(e.eval(t.a), t.a.w)), t.w)
		}
	case OFFromU:
		if t.w == 32 {
			r = uint64(math.Float32bits(float32(e.eval(t.a))))
		} else {
			r = fto(float64(e.eval(t.a)), t.w)
		}
	case OFCvt:
		r = fto(ffrom(e.eval(t.a), t.a.w), t.w)
	default:
		r = foldBin(t.op, e.eval(t.a), e.eval(t.b), t.w)
	}
	t.evalGen, t.evalVal = e.gen, r
	return r
}

// ---- printing -------------------------------------------------------------

func sortOf(t *Term) string {
	if t.fp {
		if t.w == 32 {
			return "(_ FloatingPoint 8 24)"
		}
		return "(_ FloatingPoint 11 53)"
	}
	if t.w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", t.w)
}

func fpParams(w uint8) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=",
	OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OSdiv: "bvsdiv",
	OUrem: "bvurem", OSrem: "bvsrem", OBand: "bvand", OBor: "bvor", OBxor: "bvxor",
	OBnot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr",
	OConcat: "concat", OFNeg: "fp.neg", OFAbs: "fp.abs", OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq",
	OFIsNaN: "fp.isNaN", OEqFP: "=",
}

func constStr(t *Term) string {
	if t.fp {
		return fmt.Sprintf("((_ to_fp %s) (_ bv%d %d))", fpParams(t.w), t.v, t.w)
	}
	if t.w == 0 {
		if t.v != 0 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", t.v, t.w)
}

// ref gives the textual reference to an already emitted term.
func ref(t *Term) string {
	switch t.op {
	case OConst:
		return constStr(t)
	case OVar:
		return t.name
	}
	return fmt.Sprintf("t%d", t.id)
}

func body(t *Term) string {
	switch t.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.v>>8, t.v&0xff, ref(t.a))
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, ref(t.a))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, ref(t.a))
	case OFAdd:
		return fmt.Sprintf("(fp.add RNE %s %s)", ref(t.a), ref(t.b))
	case OFSub:
		return fmt.Sprintf("(fp.sub RNE %s %s)", ref(t.a), ref(t.b))
	case OFMul:
		return fmt.Sprintf("(fp.mul RNE %s %s)", ref(t.a), ref(t.b))
	case OFDiv:
		return fmt.Sprintf("(fp.div RNE %s %s)", ref(t.a), ref(t.b))
	case OFFromBits:
		return fmt.Sprintf("((_ to_fp %s) %s)", fpParams(t.w), ref(t.a))
	case OFFromS:
		return fmt.Sprintf("((_ to_fp %s) RNE %s)", fpParams(t.w), ref(t.a))
	case OFFromU:
		return fmt.Sprintf("((_ to_fp_unsigned %s) RNE %s)", fpParams(t.w), ref(t.a))
	case OFCvt:
		return fmt.Sprintf("((_ to_fp %s) RNE %s)", fpParams(t.w), ref(t.a))
	case OFToS:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, ref(t.a))
	case OFToU:
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.w, ref(t.a))
	case OFSqrt:
		return fmt.Sprintf("(fp.sqrt RNE %s)", ref(t.a))
	}
	n := opNames[t.op]
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(n)
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(ref(x))
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

// Show prints a term fully expanded (debugging, depth limited).
func (c *TermCtx) Show(t *Term) string { return showT(t, 0) }

func showT(t *Term, d int) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return constStr(t)
		}
		return fmt.Sprintf("%d", sx(t.v, t.w))
	case OVar:
		return t.name
	}
	if d > 6 {
		return "..."
	}
	n := opNames[t.op]
	if n == "" {
		n = fmt.Sprintf("op%d", t.op)
	}
	s := "(" + n
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + showT(x, d+1)
		}
	}
	return s + ")"
}

// collectVars appends the variables of t to set.
func collectVars(t *Term, seen map[*Term]bool, out *[]*Term) {
	if t == nil || seen[t] || t.op == OConst {
		return
	}
	seen[t] = true
	if t.op == OVar {
		*out = append(*out, t)
		return
	}
	collectVars(t.a, seen, out)
	collectVars(t.b, seen, out)
	collectVars(t.c, seen, out)
}
