package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Formatting. fmt.Sprintf and friends are formatted natively for the common
// verbs (digits of symbolic integers become symbolic bytes, the path splits on
// the number of digits), and only when the text is looked at: an error whose
// message nobody reads costs nothing. What is not handled here is interpreted
// from fmt's own source.

func isLazy(v value) bool {
	s, ok := v.(*symStr)
	return ok && s.lazy != nil
}

// callReal interprets the real function behind an intrinsic.
func (in *Interp) callReal(fr *frame, pkg, name string, args []value) value {
	fn := in.prog.lookupFunc(pkg, name)
	if fn == nil {
		panic(unsupported("no " + pkg + "." + name))
	}
	if in.realFn == nil {
		in.realFn = map[*ssa.Function]*cfunc{}
	}
	cf := in.realFn[fn]
	if cf == nil {
		cf = &cfunc{fn: fn, name: fnName(fn)}
		in.realFn[fn] = cf
	}
	return in.callFn(cf, args, nil, fr)
}

// snapshot copies an argument so that it can be formatted later.
func snapshot(v value) (value, bool) {
	switch x := v.(type) {
	case nil, *Term, string, *symStr, cplxV:
		return v, true
	case iface:
		if x.t == nil {
			return v, true
		}
		w, ok := snapshot(x.v)
		return iface{x.t, w}, ok
	case structure:
		r := make(structure, len(x))
		for i := range x {
			w, ok := snapshot(x[i])
			if !ok {
				return nil, false
			}
			r[i] = w
		}
		return r, true
	case []value:
		if x == nil {
			return x, true
		}
		r := make([]value, len(x))
		for i := range x {
			w, ok := snapshot(x[i])
			if !ok {
				return nil, false
			}
			r[i] = w
		}
		return r, true
	}
	return nil, false
}

func anySymbolic(v value) bool {
	switch x := v.(type) {
	case *Term:
		return !x.isConst()
	case *symStr:
		return true
	case iface:
		return anySymbolic(x.v)
	case structure:
		for _, f := range x {
			if anySymbolic(f) {
				return true
			}
		}
	case []value:
		for _, f := range x {
			if anySymbolic(f) {
				return true
			}
		}
	}
	return false
}

func sprintf(in *Interp, fr *frame, a []value) value {
	format, ok := a[0].(string)
	if !ok {
		return in.callReal(fr, "fmt", "Sprintf", a)
	}
	args, _ := a[1].([]value)
	if anySymbolic(a[1]) {
		if sn, ok := snapshot(args); ok {
			args := sn.([]value)
			return &symStr{lazy: func() []*Term {
				if r, ok := in.format(fr, format, args); ok {
					return r
				}
				return in.strTerms(in.callReal(fr, "fmt", "Sprintf", []value{format, args}))
			}}
		}
	}
	if r, ok := in.format(fr, format, args); ok {
		return mkStr(r)
	}
	return in.callReal(fr, "fmt", "Sprintf", a)
}

func errorf(in *Interp, fr *frame, a []value) value {
	args, _ := a[1].([]value)
	for _, x := range args {
		if f, ok := x.(iface); ok && f.t != nil && types.Implements(f.t, errorIface) {
			return in.callReal(fr, "fmt", "Errorf", a) // may wrap
		}
	}
	s := sprintf(in, fr, a)
	n := in.prog.lookupFunc("errors", "New")
	if n == nil {
		return in.callReal(fr, "fmt", "Errorf", a)
	}
	return in.call(fr, n, []value{s})
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

type fmtSpec struct {
	zero, minus bool
	plus        bool
	width       int
	prec        int // -1: none
	verb        byte
	text        string
}

func (in *Interp) format(fr *frame, f string, args []value) ([]*Term, bool) {
	var out []*Term
	lit := func(s string) {
		for i := 0; i < len(s); i++ {
			out = append(out, in.tc.BV(8, uint64(s[i])))
		}
	}
	an := 0
	for i := 0; i < len(f); {
		if f[i] != '%' {
			lit(f[i : i+1])
			i++
			continue
		}
		start := i
		i++
		var sp fmtSpec
		for i < len(f) && (f[i] == '0' || f[i] == '-' || f[i] == '+') {
			switch f[i] {
			case '0':
				sp.zero = true
			case '-':
				sp.minus = true
			default:
				sp.plus = true
			}
			i++
		}
		for i < len(f) && f[i] >= '0' && f[i] <= '9' {
			sp.width = sp.width*10 + int(f[i]-'0')
			i++
		}
		sp.prec = -1
		if i < len(f) && f[i] == '.' {
			sp.prec = 0
			for i++; i < len(f) && f[i] >= '0' && f[i] <= '9'; i++ {
				sp.prec = sp.prec*10 + int(f[i]-'0')
			}
		}
		if i >= len(f) {
			return nil, false
		}
		sp.verb = f[i]
		i++
		sp.text = f[start:i]
		if sp.verb == '%' {
			lit("%")
			continue
		}
		if an >= len(args) {
			return nil, false
		}
		a, ok := args[an].(iface)
		an++
		if !ok {
			return nil, false
		}
		b, ok := in.formatArg(fr, sp, a)
		if !ok {
			return nil, false
		}
		if n := sp.width - len(b); n > 0 {
			if sp.minus {
				for k := 0; k < n; k++ {
					b = append(b, in.tc.BV(8, ' '))
				}
			} else {
				pad := byte(' ')
				if sp.zero {
					pad = '0'
				}
				p := make([]*Term, 0, sp.width)
				neg := sp.zero && len(b) > 0 && b[0].isConst() && b[0].v == '-' && sp.verb == 'd'
				if neg {
					p = append(p, b[0])
					b = b[1:]
				}
				for k := 0; k < n; k++ {
					p = append(p, in.tc.BV(8, uint64(pad)))
				}
				b = append(p, b...)
			}
		}
		out = append(out, b...)
	}
	return out, an == len(args)
}

func (in *Interp) formatArg(fr *frame, sp fmtSpec, a iface) ([]*Term, bool) {
	str := func(s string) ([]*Term, bool) { return in.strTerms(s), true }
	if a.t == nil {
		if sp.verb == 'v' {
			return str("<nil>")
		}
		return nil, false
	}
	if sp.verb == 'T' {
		return str(types.TypeString(a.t, func(p *types.Package) string { return p.Name() }))
	}
	if sp.plus && sp.verb != 'v' {
		return nil, false
	}
	hasMethod := func(n string) bool {
		ms := types.NewMethodSet(a.t)
		return ms.Lookup(nil, n) != nil
	}
	if hasMethod("Format") {
		return nil, false
	}
	if sp.prec >= 0 && infoOf(a.t).k != kFloat {
		return nil, false
	}
	if sp.verb == 's' || sp.verb == 'v' || sp.verb == 'x' || sp.verb == 'X' || sp.verb == 'q' {
		for _, m := range []string{"Error", "String"} {
			if hasMethod(m) {
				if _, p := a.v.(*value); p && a.v.(*value) == nil {
					return nil, false
				}
				fn := in.prog.prog.LookupMethod(a.t, nil, m)
				if fn == nil {
					return nil, false
				}
				s := in.call(fr, fn, []value{a.v})
				return in.formatArg(fr, sp, iface{types.Typ[types.String], s})
			}
		}
	}
	ti := infoOf(a.t)
	switch ti.k {
	case kBool:
		if sp.verb != 't' && sp.verb != 'v' {
			return nil, false
		}
		if in.decide(a.v.(*Term)) {
			return str("true")
		}
		return str("false")
	case kInt:
		t := a.v.(*Term)
		switch sp.verb {
		case 'd', 'v':
			if sp.zero && !sp.minus && sp.width > 0 && sp.width < 18 && !t.isConst() {
				// as many digits as the width: no need to know how many are significant
				lim := uint64(1)
				for k := 0; k < sp.width; k++ {
					lim *= 10
				}
				fits := lim > mask(t.w)
				if !fits && (!ti.signed || in.decide(in.tc.Cmp(OSle, in.tc.BV(t.w, 0), t))) {
					fits = in.decide(in.tc.Cmp(OUlt, t, in.tc.BV(t.w, lim)))
				}
				if fits && !ti.signed {
					return in.digits(t, sp.width), true
				}
			}
			return in.decimal(t, ti.signed), true
		case 'x', 'X':
			return in.hexNum(t, ti.signed, sp.verb == 'X'), true
		case 'c':
			if t.isConst() {
				return str(string(rune(t.v)))
			}
			if in.decide(in.tc.Cmp(OUlt, t, in.tc.BV(t.w, 0x80))) {
				return []*Term{in.tc.Extract(t, 7, 0)}, true
			}
		}
		return nil, false
	case kFloat:
		t := a.v.(*Term)
		if !t.isConst() {
			if sp.verb == 'f' && sp.prec >= 0 && sp.prec <= 3 && !sp.zero {
				return in.fixed(t, sp.prec)
			}
			return nil, false
		}
		verb := "%" + string(sp.verb)
		if sp.prec >= 0 {
			verb = fmt.Sprintf("%%.%d%c", sp.prec, sp.verb)
		}
		if t.w == 32 {
			return str(fmt.Sprintf(verb, math.Float32frombits(uint32(t.v))))
		}
		return str(fmt.Sprintf(verb, math.Float64frombits(t.v)))
	case kString:
		switch sp.verb {
		case 's', 'v':
			b := append([]*Term(nil), in.strTerms(a.v)...)
			if sp.width > 0 {
				for _, t := range b {
					if !t.isConst() && in.decide(in.tc.Cmp(OUle, in.tc.BV(8, 0x80), t)) || t.isConst() && t.v >= 0x80 {
						return nil, false // widths count runes
					}
				}
			}
			return b, true
		case 'x', 'X':
			return in.hexBytes(in.strTerms(a.v), sp.verb == 'X'), true
		}
		return nil, false
	}
	if s, ok := a.t.Underlying().(*types.Slice); ok {
		if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			x, _ := a.v.([]value)
			switch sp.verb {
			case 'x', 'X':
				return in.hexBytes(termsOf(x), sp.verb == 'X'), true
			case 's':
				if sp.width == 0 {
					return termsOf(x), true
				}
			}
		}
	}
	if sp.verb == 'v' && sp.width == 0 && sp.prec < 0 {
		return in.formatAny(fr, sp, a, 0)
	}
	return nil, false
}

// formatAny: %v of composite values.
func (in *Interp) formatAny(fr *frame, sp fmtSpec, a iface, depth int) ([]*Term, bool) {
	var out []*Term
	lit := func(s string) { out = append(out, in.strTerms(s)...) }
	elem := func(t types.Type, v value, visible bool) bool {
		ms := types.NewMethodSet(t)
		if !visible && (ms.Lookup(nil, "Error") != nil || ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Format") != nil) {
			return false
		}
		x := iface{t, v}
		if _, ok := t.Underlying().(*types.Interface); ok {
			if !visible {
				return false
			}
			x = v.(iface)
		}
		if x.t != nil {
			switch x.t.Underlying().(type) {
			case *types.Pointer, *types.Chan, *types.Signature:
				return false
			}
		}
		b, ok := in.formatArg(fr, sp, x)
		out = append(out, b...)
		return ok
	}
	switch t := a.t.Underlying().(type) {
	case *types.Pointer:
		p, ok := a.v.(*value)
		if !ok || depth > 0 {
			return nil, false
		}
		if p == nil {
			return in.strTerms("<nil>"), true
		}
		switch t.Elem().Underlying().(type) {
		case *types.Struct, *types.Slice, *types.Array:
			b, ok := in.formatAny(fr, sp, iface{t.Elem(), *p}, depth+1)
			return append(in.strTerms("&"), b...), ok
		}
	case *types.Slice, *types.Array:
		var et types.Type
		var vs []value
		switch x := a.v.(type) {
		case []value:
			vs = x
		case array:
			vs = x
		default:
			return nil, false
		}
		if s, ok := t.(*types.Slice); ok {
			et = s.Elem()
		} else {
			et = t.(*types.Array).Elem()
		}
		lit("[")
		for i, v := range vs {
			if i > 0 {
				lit(" ")
			}
			if !elem(et, v, true) {
				return nil, false
			}
		}
		lit("]")
		return out, true
	case *types.Struct:
		s, ok := a.v.(structure)
		if !ok {
			return nil, false
		}
		lit("{")
		for i := 0; i < t.NumFields(); i++ {
			if i > 0 {
				lit(" ")
			}
			if sp.plus {
				lit(t.Field(i).Name() + ":")
			}
			if !elem(t.Field(i).Type(), s[i], t.Field(i).Exported()) {
				return nil, false
			}
		}
		lit("}")
		return out, true
	case *types.Map:
		m, ok := a.v.(*mapV)
		if !ok {
			return nil, false
		}
		type pair struct {
			s string
			n int64
			e *mapEntry
		}
		var ps []pair
		if m != nil {
			for _, e := range m.entries {
				if e.dead {
					continue
				}
				switch k := e.k.(type) {
				case string:
					ps = append(ps, pair{s: k, e: e})
				case *Term:
					ti := infoOf(t.Key())
					if !k.isConst() || ti.k != kInt {
						return nil, false
					}
					n := int64(k.v)
					if ti.signed {
						n = sval(k)
					} else if n < 0 {
						return nil, false
					}
					ps = append(ps, pair{n: n, e: e})
				default:
					return nil, false
				}
			}
		}
		sort.Slice(ps, func(i, j int) bool { return ps[i].s < ps[j].s || ps[i].s == ps[j].s && ps[i].n < ps[j].n })
		lit("map[")
		for i, p := range ps {
			if i > 0 {
				lit(" ")
			}
			if !elem(t.Key(), p.e.k, true) {
				return nil, false
			}
			lit(":")
			if !elem(t.Elem(), p.e.v, true) {
				return nil, false
			}
		}
		lit("]")
		return out, true
	}
	return nil, false
}

// decimal gives the decimal digits of t; the path splits on their number.
func (in *Interp) decimal(t *Term, signed bool) []*Term {
	tc := in.tc
	if t.isConst() {
		if signed {
			return in.strTerms(fmt.Sprint((int64(t.v<<(64-t.w)) >> (64 - t.w))))
		}
		return in.strTerms(fmt.Sprint(t.v))
	}
	var out []*Term
	if signed && in.decide(tc.Cmp(OSlt, t, tc.BV(t.w, 0))) {
		out = append(out, tc.BV(8, '-'))
		t = tc.Neg(t)
	}
	n := 1
	mx := uint64(1)<<t.w - 1
	if t.w == 64 {
		mx = math.MaxUint64
	}
	for p := uint64(10); ; n++ {
		if p > mx || in.decide(tc.Cmp(OUlt, t, tc.BV(t.w, p))) {
			break
		}
		if p > mx/10 {
			n++
			break
		}
		p *= 10
	}
	return append(out, in.digits(t, n)...)
}

// digits: t in n decimal digits.
func (in *Interp) digits(t *Term, n int) []*Term {
	tc := in.tc
	digits := make([]*Term, n)
	for i := n - 1; i >= 0; i-- {
		if i == 0 {
			digits[i] = tc.Bin(OAdd, tc.Extract(t, 7, 0), tc.BV(8, '0'))
			break
		}
		q, r := in.divConst(t, 10)
		digits[i] = tc.Bin(OAdd, tc.Extract(r, 7, 0), tc.BV(8, '0'))
		t = q
	}
	return digits
}

// hexDigit looks n (8 bits, < 16) up in the table of digits, so that the term
// is the one code with a table of its own gets.
func (in *Interp) hexDigit(n *Term, upper bool) *Term {
	d := "0123456789abcdef"
	if upper {
		d = "0123456789ABCDEF"
	}
	return in.selectTerm(in.strToBytes(d), in.tc.Zext(n, 64))
}

func (in *Interp) hexNum(t *Term, signed, upper bool) []*Term {
	tc := in.tc
	var out []*Term
	if signed && in.decide(tc.Cmp(OSlt, t, tc.BV(t.w, 0))) {
		out = append(out, tc.BV(8, '-'))
		t = tc.Neg(t)
	}
	n := 1
	for n*4 < int(t.w) && !in.decide(tc.Cmp(OUlt, t, tc.BV(t.w, uint64(1)<<(4*n)))) {
		n++
	}
	for i := n - 1; i >= 0; i-- {
		out = append(out, in.hexDigit(tc.Zext(tc.Extract(t, uint8(i*4+3), uint8(i*4)), 8), upper))
	}
	return out
}

func (in *Interp) hexBytes(b []*Term, upper bool) []*Term {
	var out []*Term
	for _, t := range b {
		out = append(out, in.hexDigit(in.tc.Zext(in.tc.Extract(t, 7, 4), 8), upper),
			in.hexDigit(in.tc.Zext(in.tc.Extract(t, 3, 0), 8), upper))
	}
	return out
}

// divConst gives quotient and remainder of t by c. They are named by fresh
// variables bound by t = q*c + r, r < c, q <= max/c, which every value of t
// satisfies in exactly one way.
func (in *Interp) divConst(t *Term, c uint64) (q, r *Term) {
	tc := in.tc
	if t.isConst() || c&(c-1) == 0 || t.w < 16 {
		return tc.Bin(OUdiv, t, tc.BV(t.w, c)), tc.Bin(OUrem, t, tc.BV(t.w, c))
	}
	k := fmt.Sprintf("%p/%d", t, c)
	if e, ok := in.divs[k]; ok {
		return e[0], e[1]
	}
	if in.divs == nil {
		in.divs = map[string][2]*Term{}
	}
	if t.pure && t.lo >= 0 && c <= math.MaxInt64 {
		if m, rest := in.multiples(t, int64(c)); m != nil && rest.pure && rest.lo >= 0 && m.pure {
			q1, r1 := in.divConst(rest, c)
			if q = tc.Bin(OAdd, m, q1); q.pure {
				in.divs[k] = [2]*Term{q, r1}
				return q, r1
			}
		}
	}
	nm := in.newName(fmt.Sprintf("div%d", t.w))
	if t.pure && t.lo >= 0 && c <= math.MaxInt64 {
		x := in.ev.eval(t)
		in.setModel(Model{nm + "_q": x / c, nm + "_r": x % c})
		q = in.rangeVar(nm+"_q", t.w, t.lo/int64(c), t.hi/int64(c))
		hi := int64(c) - 1
		if t.hi < hi {
			hi = t.hi
		}
		r = in.rangeVar(nm+"_r", t.w, 0, hi)
		in.assume(tc.Eq(t, tc.Bin(OAdd, tc.Bin(OMul, q, tc.BV(t.w, c)), r)))
		if e := tc.Bin(OAdd, tc.Bin(OMul, q, tc.BV(t.w, c)), r); !e.pure { // may wrap around
			mx := mask(t.w)
			in.assume(tc.Or(tc.Cmp(OUlt, q, tc.BV(t.w, mx/c)), tc.Cmp(OUle, r, tc.BV(t.w, mx%c))))
		}
		in.divs[k] = [2]*Term{q, r}
		return q, r
	}
	q, r = in.freshVar(nm+"_q", t.w), in.freshVar(nm+"_r", t.w)
	x := in.ev.eval(t)
	in.setModel(Model{q.name: x / c, r.name: x % c})
	mx := uint64(math.MaxUint64)
	if t.w < 64 {
		mx = uint64(1)<<t.w - 1
	}
	in.assume(tc.Eq(t, tc.Bin(OAdd, tc.Bin(OMul, q, tc.BV(t.w, c)), r)))
	in.assume(tc.Cmp(OUlt, r, tc.BV(t.w, c)))
	in.assume(tc.Cmp(OUle, q, tc.BV(t.w, mx/c)))
	// no wrap-around in q*c + r
	in.assume(tc.Or(tc.Cmp(OUlt, q, tc.BV(t.w, mx/c)), tc.Cmp(OUle, r, tc.BV(t.w, mx%c))))
	in.divs[k] = [2]*Term{q, r}
	return q, r
}

// multiples splits a sum t, exact over the integers, into c*m + rest; m is nil
// when no summand is a multiple of c.
func (in *Interp) multiples(t *Term, c int64) (m, rest *Term) {
	tc := in.tc
	zero := tc.BV(t.w, 0)
	if !t.pure {
		return nil, t
	}
	switch t.op {
	case OConst:
		if v := sval(t); v >= c {
			return tc.BV(t.w, uint64(v/c)), tc.BV(t.w, uint64(v%c))
		}
	case OMul:
		a, b := t.a, t.b
		if b.op == OConst {
			a, b = b, a
		}
		if a.op == OConst && b.pure && sval(a)%c == 0 {
			return tc.Bin(OMul, b, tc.BV(t.w, uint64(sval(a)/c)&mask(t.w))), zero
		}
	case OAdd:
		if !t.a.pure || !t.b.pure {
			return nil, t
		}
		m1, r1 := in.multiples(t.a, c)
		m2, r2 := in.multiples(t.b, c)
		if m1 == nil && m2 == nil {
			return nil, t
		}
		if m1 == nil {
			m1 = zero
		}
		if m2 == nil {
			m2 = zero
		}
		return tc.Bin(OAdd, m1, m2), tc.Bin(OAdd, r1, r2)
	}
	return nil, t
}

// scaled: t is the number x, converted to float64, divided by 2^b.
func scaled(t *Term) (x *Term, b int, ok bool) {
	if !t.fp || t.w != 64 {
		return nil, 0, false
	}
	pow2 := func(c *Term) (int, bool) {
		if !c.isConst() {
			return 0, false
		}
		fr, e := math.Frexp(math.Float64frombits(c.v))
		return e - 1, fr == 0.5
	}
	switch t.op {
	case OFFromU, OFFromS:
		return t.a, 0, true
	case OFDiv:
		if x, b, ok = scaled(t.a); ok {
			k, p := pow2(t.b)
			return x, b + k, p
		}
	case OFMul:
		if x, b, ok = scaled(t.a); ok {
			k, p := pow2(t.b)
			return x, b - k, p
		}
	}
	return nil, 0, false
}

// fixed: t, an integer over a power of two, with prec decimals, rounded to
// the nearest as strconv does. The float64 in between is exact but for the
// rounding of the integer to 53 bits.
func (in *Interp) fixed(t *Term, prec int) ([]*Term, bool) {
	tc := in.tc
	x, b, ok := scaled(t)
	if !ok || b < 0 || b > 63 {
		return nil, false
	}
	for y := t; y.op != OFFromU; y = y.a {
		if y.op == OFFromS {
			if x.w > 64 || in.decide(tc.Cmp(OSlt, x, tc.BV(x.w, 0))) {
				return nil, false
			}
			break
		}
	}
	f := tc.Zext(x, 64)
	c := func(v uint64) *Term { return tc.BV(64, v) }
	// to 53 bits, half to even
	for s := 1; s <= 11; s++ {
		lo := uint64(1) << (52 + s)
		if !in.decide(tc.Cmp(OUle, c(lo), f)) {
			break
		}
		if s < 11 && in.decide(tc.Cmp(OUle, c(lo<<1), f)) {
			continue
		}
		m := uint64(1)<<s - 1
		half := c(uint64(1) << (s - 1))
		q, r := tc.Bin(OLshr, f, c(uint64(s))), tc.Bin(OBand, f, c(m))
		up := tc.Or(tc.Cmp(OUlt, half, r), tc.And(tc.Eq(r, half), tc.Eq(tc.Bin(OBand, q, c(1)), c(1))))
		q = tc.Bin(OAdd, q, tc.Ite(up, c(1), c(0)))
		// 2^64 itself does not fit
		if s == 11 && in.decide(tc.Eq(q, c(1<<53))) {
			return nil, false
		}
		f = tc.Bin(OShl, q, c(uint64(s)))
		break
	}
	// a whole part and a rest below 2^k, of which at most 52 bits are used
	whole, rest, k := tc.Bin(OLshr, f, c(uint64(b))), tc.Bin(OBand, f, c(uint64(1)<<b-1)), b
	if k > 53 {
		if !in.decide(tc.Eq(tc.Bin(OBand, rest, c(uint64(1)<<(k-53)-1)), c(0))) {
			return nil, false
		}
		rest, k = tc.Bin(OLshr, rest, c(uint64(k-53))), 53
	}
	p := uint64(1)
	for i := 0; i < prec; i++ {
		p *= 10
	}
	n := tc.Bin(OMul, rest, c(p))
	if k > 0 {
		half := c(uint64(1) << (k - 1))
		q, r := tc.Bin(OLshr, n, c(uint64(k))), tc.Bin(OBand, n, c(uint64(1)<<k-1))
		up := tc.Or(tc.Cmp(OUlt, half, r), tc.And(tc.Eq(r, half), tc.Eq(tc.Bin(OBand, q, c(1)), c(1))))
		if prec == 0 {
			up = tc.Or(tc.Cmp(OUlt, half, r), tc.And(tc.Eq(r, half), tc.Eq(tc.Bin(OBand, whole, c(1)), c(1))))
		}
		n = tc.Bin(OAdd, q, tc.Ite(up, c(1), c(0)))
	}
	if in.decide(tc.Eq(n, c(p))) {
		whole, n = tc.Bin(OAdd, whole, c(1)), c(0)
	}
	if in.decide(tc.Cmp(OUlt, whole, c(1<<12))) {
		whole = tc.Extract(whole, 11, 0)
	}
	n = tc.Extract(n, 11, 0)
	out := in.decimal(whole, false)
	if prec > 0 {
		out = append(out, tc.BV(8, '.'))
		out = append(out, in.digits(n, prec)...)
	}
	return out, true
}
