// Package c15: ranged integers never leave their range and never wrap.
//
// bound: every value, minimum, maximum and operand (32-bit and 64-bit), one arithmetic operation; sequences of 3 (thorough 4) Set/Inc/Dec/Reset/ResetR/Init steps
package c15

import (
	"math/bits"

	"github.com/vipally/gx/math"

	"verif/sym"
)

func CheckNew32() {
	v, lo, hi := sym.Uint32("val"), sym.Uint32("min"), sym.Uint32("max")
	valid := sym.And(lo <= v, v <= hi)
	r, err := math.NewRangeUint32(v, lo, hi)
	sym.Assert((err == nil) == valid, "a range is made iff min <= val <= max")
	if err == nil {
		a, b, c := r.Get()
		sym.Assert(a == v && b == lo && c == hi && r.Val() == v && r.Min() == lo && r.Max() == hi, "the range holds what it was given")
		o := sym.Uint32("other")
		sym.Assert(r.InRange(o) == sym.And(lo <= o, o <= hi), "InRange is [min,max]")
		sym.Assert(r.InCurrentRange(o) == sym.And(lo <= o, o <= v), "InCurrentRange is [min,val]")
	}
	sym.Cover("done")
}

func CheckNew64() {
	v, lo, hi := sym.Uint64("val"), sym.Uint64("min"), sym.Uint64("max")
	valid := sym.And(lo <= v, v <= hi)
	r, err := math.NewRangeUInt64(v, lo, hi)
	sym.Assert((err == nil) == valid, "a range is made iff min <= val <= max")
	if err == nil {
		a, b, c := r.Get()
		sym.Assert(a == v && b == lo && c == hi && r.Val() == v && r.Min() == lo && r.Max() == hi, "the range holds what it was given")
		o := sym.Uint64("other")
		sym.Assert(r.InRange(o) == sym.And(lo <= o, o <= hi), "InRange is [min,max]")
		sym.Assert(r.InCurrentRange(o) == sym.And(lo <= o, o <= v), "InCurrentRange is [min,val]")
	}
	sym.Cover("done")
}

func same32(r *math.RangeUint32, v, lo, hi uint32, what string) {
	a, b, c := r.Get()
	sym.Assert(a == v && b == lo && c == hi, what+" leaves the operand alone")
}

func CheckArith32() {
	v, lo, hi, o := sym.Uint32("val"), sym.Uint32("min"), sym.Uint32("max"), sym.Uint32("other")
	sym.Assume(sym.And(lo <= v, v <= hi))
	r, err := math.NewRangeUint32(v, lo, hi)
	sym.Assert(err == nil, "a valid range")
	var exact uint64
	ok := true
	var got uint32
	switch sym.Choice("op", 5) {
	case 0:
		got, err = r.Add(o)
		exact = uint64(v) + uint64(o)
	case 1:
		got, err = r.Sub(o)
		exact, ok = uint64(v)-uint64(o), o <= v
	case 2:
		got, err = r.Mul(o)
		exact = uint64(v) * uint64(o)
	case 3:
		got, err = r.Div(o)
		if o == 0 {
			ok = false
		} else {
			exact = uint64(v / o)
		}
	case 4:
		got, err = r.Mod(o)
		if o == 0 {
			ok = false
		} else {
			exact = uint64(v % o)
		}
	}
	good := sym.And(ok, sym.And(uint64(lo) <= exact, exact <= uint64(hi)))
	sym.Assert((err == nil) == good, "an error iff the exact result is undefined or outside the range")
	if err == nil {
		sym.Assert(uint64(got) == exact, "the result is exact")
	}
	same32(r, v, lo, hi, "arithmetic")
	sym.Cover("done")
}

func CheckArith64() {
	v, lo, hi, o := sym.Uint64("val"), sym.Uint64("min"), sym.Uint64("max"), sym.Uint64("other")
	sym.Assume(sym.And(lo <= v, v <= hi))
	r, err := math.NewRangeUInt64(v, lo, hi)
	sym.Assert(err == nil, "a valid range")
	var exact uint64
	ok := true
	var got uint64
	switch sym.Choice("op", 4) {
	case 0:
		got, err = r.Add(o)
		exact = v + o
		ok = exact >= v
	case 1:
		got, err = r.Sub(o)
		exact, ok = v-o, o <= v
	case 2:
		got, err = r.Div(o)
		if o == 0 {
			ok = false
		} else {
			exact = v / o
		}
	case 3:
		got, err = r.Mod(o)
		if o == 0 {
			ok = false
		} else {
			exact = v % o
		}
	}
	good := sym.And(ok, sym.And(lo <= exact, exact <= hi))
	sym.Assert((err == nil) == good, "an error iff the exact result is undefined or outside the range")
	if err == nil {
		sym.Assert(got == exact, "the result is exact")
	}
	a, b, c := r.Get()
	sym.Assert(a == v && b == lo && c == hi, "arithmetic leaves the operand alone")
	sym.Cover("done")
}

// CheckMul64: 64-bit products, one factor with at most 8 significant bits at
// any position.
//
// bound: CheckMul64: one factor is any 8-bit (thorough 12-bit) number shifted left by any amount, the other any 64-bit number, range up to any maximum
func CheckMul64() {
	v, hi := sym.Uint64("val"), sym.Uint64("max")
	sh := uint(sym.Choice("shift", 57))
	o := sym.Uint64("other")
	sym.Assume(o < uint64(1)<<uint(sym.Bound(4, 8)))
	o <<= sh
	sym.Assume(v <= hi)
	r, _ := math.NewRangeUInt64(v, 0, hi)
	if r == nil {
		sym.Assert(false, "a valid range")
	}
	got, err := r.Mul(o)
	h, l := bits.Mul64(v, o)
	good := sym.And(h == 0, l <= hi)
	sym.Assert((err == nil) == good, "an error iff the exact product is outside the range")
	if err == nil {
		sym.Assert(got == l, "the product is exact")
	}
	sym.Cover("done")
}

func CheckSteps32() {
	lo, hi := sym.Uint32("min"), sym.Uint32("max")
	v := sym.Uint32("val")
	sym.Assume(sym.And(lo <= v, v <= hi))
	r, err := math.NewRangeUint32(v, lo, hi)
	sym.Assert(err == nil, "a valid range")
	for i := sym.Bound(3, 4); i > 0; i-- {
		switch sym.Choice("op", 6) {
		case 0:
			o := sym.Uint32("set")
			var old uint32
			old, err = r.Set(o)
			sym.Assert(old == v, "Set returns the value before")
			ok := sym.And(lo <= o, o <= hi)
			sym.Assert((err == nil) == ok, "Set fails iff outside")
			if err == nil {
				v = o
			}
		case 1:
			_, err = r.Inc()
			sym.Assert((err == nil) == (v < hi), "Inc fails iff at the maximum")
			if err == nil {
				v++
			}
		case 2:
			_, err = r.Dec(1)
			sym.Assert((err == nil) == (v > lo), "Dec fails iff at the minimum")
			if err == nil {
				v--
			}
		case 3:
			sym.Assert(r.Reset(), "Reset succeeds")
			v = lo
		case 4:
			sym.Assert(r.ResetR(), "ResetR succeeds")
			v = hi
		case 5:
			a, b, c := sym.Uint32("ival"), sym.Uint32("imin"), sym.Uint32("imax")
			err = r.Init(a, b, c)
			ok := sym.And(b <= a, a <= c)
			sym.Assert((err == nil) == ok, "Init fails iff not min <= val <= max")
			if err == nil {
				v, lo, hi = a, b, c
			}
		}
		a, b, c := r.Get()
		sym.Assert(a == v && b == lo && c == hi, "the value is what the steps say")
		sym.Assert(sym.And(b <= a, a <= c), "the value stays in its range")
	}
	sym.Cover("done")
}

func CheckSteps64() {
	lo, hi := sym.Uint64("min"), sym.Uint64("max")
	v := sym.Uint64("val")
	sym.Assume(sym.And(lo <= v, v <= hi))
	r, err := math.NewRangeUInt64(v, lo, hi)
	sym.Assert(err == nil, "a valid range")
	for i := sym.Bound(3, 4); i > 0; i-- {
		switch sym.Choice("op", 6) {
		case 0:
			o := sym.Uint64("set")
			var old uint64
			old, err = r.Set(o)
			sym.Assert(old == v, "Set returns the value before")
			ok := sym.And(lo <= o, o <= hi)
			sym.Assert((err == nil) == ok, "Set fails iff outside")
			if err == nil {
				v = o
			}
		case 1:
			_, err = r.Inc()
			sym.Assert((err == nil) == (v < hi), "Inc fails iff at the maximum")
			if err == nil {
				v++
			}
		case 2:
			_, err = r.Dec(1)
			sym.Assert((err == nil) == (v > lo), "Dec fails iff at the minimum")
			if err == nil {
				v--
			}
		case 3:
			sym.Assert(r.Reset(), "Reset succeeds")
			v = lo
		case 4:
			sym.Assert(r.ResetR(), "ResetR succeeds")
			v = hi
		case 5:
			a, b, c := sym.Uint64("ival"), sym.Uint64("imin"), sym.Uint64("imax")
			err = r.Init(a, b, c)
			ok := sym.And(b <= a, a <= c)
			sym.Assert((err == nil) == ok, "Init fails iff not min <= val <= max")
			if err == nil {
				v, lo, hi = a, b, c
			}
		}
		a, b, c := r.Get()
		sym.Assert(a == v && b == lo && c == hi, "the value is what the steps say")
		sym.Assert(sym.And(b <= a, a <= c), "the value stays in its range")
	}
	sym.Cover("done")
}
