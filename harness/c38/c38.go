// Package c38: small conversions and type helpers.
//
// bound: samples of 22 types (two of them of one name) with arbitrary values; every int, bool, float64 and complex number; handlers with 0..3 arbitrary arguments
package c38

import (
	"errors"
	"fmt"
	"math"
	stdreflect "reflect"

	"github.com/vipally/gx/event"
	gx "github.com/vipally/gx/math"
	"github.com/vipally/gx/math/cplx"
	"github.com/vipally/gx/proto"
	"github.com/vipally/gx/reflect"

	"verif/sym"
)

type named int

type pair struct {
	a int
	s string
}

const kinds = 22

// sample is a value of the k-th type.
func sample(k int, who string) interface{} {
	n := sym.Int(who)
	switch k {
	case 0:
		return n
	case 1:
		return uint(n)
	case 2:
		return int8(n)
	case 3:
		return uint8(n)
	case 4:
		return int16(n)
	case 5:
		return uint16(n)
	case 6:
		return int32(n)
	case 7:
		return uint32(n)
	case 8:
		return int64(n)
	case 9:
		return uint64(n)
	case 10:
		return sym.String(who+" s", 2)
	case 11:
		return float32(1.5)
	case 12:
		return sym.Float64(who + " f")
	case 13:
		return sym.Bool(who + " b")
	case 14:
		return named(n)
	case 15:
		return pair{n, "x"}
	case 16:
		return &pair{n, "x"}
	case 17:
		return []int{n}
	case 18:
		return uintptr(n)
	}
	if k > 19 {
		return twin(k == 20, n)
	}
	return complex(1, 2)
}

// twin is a value of one of two types that share their name and shape.
func twin(first bool, n int) interface{} {
	if first {
		type twin struct{ n int }
		return twin{n}
	}
	type twin struct{ n int }
	return twin{n}
}

var kindOf = [kinds]stdreflect.Kind{stdreflect.Int, stdreflect.Uint, stdreflect.Int8, stdreflect.Uint8, stdreflect.Int16, stdreflect.Uint16,
	stdreflect.Int32, stdreflect.Uint32, stdreflect.Int64, stdreflect.Uint64, stdreflect.String, stdreflect.Float32, stdreflect.Float64,
	stdreflect.Bool, stdreflect.Int, stdreflect.Struct, stdreflect.Ptr, stdreflect.Slice, stdreflect.Uintptr, stdreflect.Complex128, stdreflect.Struct, stdreflect.Struct}

// CheckTypes: what the helpers say about types does not depend on values.
func CheckTypes() {
	k := sym.Choice("type", kinds)
	x := sample(k, "x")
	sym.Assert(reflect.Kind(x) == kindOf[k], "Kind is the kind of the value")
	sym.Assert(reflect.IsCmpableInnterType(x) == (k <= 12), "IsCmpableInnterType accepts the predeclared ordered types only")
	l := sym.Choice("other type", kinds)
	y := sample(l, "y")
	sym.Assert(reflect.IsSameType(x, y) == (k == l), "IsSameType compares the types")
	sym.Assert(!reflect.IsSameType(x, nil) && !reflect.IsSameType(nil, x) && reflect.IsSameType(nil, nil), "IsSameType knows nil")
	sym.Cover("done")
}

// CheckNew: a new zero value of the type of the sample, not the sample.
func CheckNew() {
	n := sym.Int("n")
	switch sym.Choice("type", 5) {
	case 0:
		p, ok := reflect.New(n).(*int)
		sym.Assert(ok && p != nil && *p == 0, "New of an int is a pointer to zero")
		*p = n
		q := reflect.New(n).(*int)
		sym.Assert(*q == 0 && p != q, "every New is a new value")
	case 1:
		p, ok := reflect.New(pair{n, "x"}).(*pair)
		sym.Assert(ok && p != nil && p.a == 0 && p.s == "", "New of a struct is a pointer to a zero struct")
	case 2:
		p, ok := reflect.New("x").(*string)
		sym.Assert(ok && p != nil && *p == "", "New of a string is a pointer to an empty one")
	case 3:
		p, ok := reflect.New(&pair{n, "x"}).(**pair)
		sym.Assert(ok && p != nil && *p == nil, "New of a pointer is a pointer to nil")
	case 4:
		p, ok := reflect.New(named(n)).(*named)
		sym.Assert(ok && p != nil && *p == 0, "New of a named type is a pointer of that type")
	}
	sym.Cover("done")
}

// CheckBool: between bool and int.
func CheckBool() {
	b := gx.Bool(sym.Bool("b"))
	i := sym.Int("i")
	want := 0
	if b {
		want = 1
	}
	sym.Assert(b.I() == want && gx.BToI(b) == want, "true is 1 and false is 0")
	sym.Assert(gx.ItoB(i) == (i != 0), "every number but 0 is true")
	sym.Assert(gx.ItoB(gx.BToI(b)) == bool(b), "there and back")
	sym.Cover("done")
}

// CheckEqual: nearness of floating-point numbers.
func CheckEqual() {
	a, b := sym.Float64("a"), sym.Float64("b")
	e := gx.Equal(a, b)
	nan := sym.Or(a != a, b != b)
	sym.Assert(sym.Implies(nan, !e), "nothing equals NaN")
	inf := sym.Or(math.IsInf(a, 0), math.IsInf(b, 0))
	sym.Assert(sym.Implies(sym.And(!sym.Or(nan, inf), a == b), e), "a number equals itself")
	d := a - b
	sym.Assert(sym.Implies(sym.And(!nan, sym.Or(d >= 1e-6, d <= -1e-6)), !e), "numbers a millionth or more apart are not equal")
	sym.Assert(sym.Implies(sym.And(d < 1e-6, d > -1e-6), e), "numbers less than a millionth apart are equal")
	sym.Cover("done")
}

// CheckComplex: the parts.
func CheckComplex() {
	re, im := sym.Float64("re"), sym.Float64("im")
	c := cplx.Cplx128(complex(re, im))
	sym.Assert(sym.Implies(re == re, c.Real() == re) && sym.Implies(im == im, c.Imag() == im), "the parts are those of the number")
	w := cplx.Cplx64(complex(float32(re), float32(im)))
	sym.Assert(sym.Implies(re == re, w.Real() == float32(re)) && sym.Implies(im == im, w.Imag() == float32(im)), "the parts are those of the smaller number")
	sym.Cover("done")
}

// CheckHandler: a function as a handler.
func CheckHandler() {
	n := sym.Choice("args", 4)
	var args []interface{}
	for i := 0; i < n; i++ {
		args = append(args, sym.Int(fmt.Sprint("arg", i)))
	}
	fail := sym.Bool("fail")
	bad := errors.New("bad")
	calls := 0
	var got []interface{}
	var h event.Handler = event.HandlerFunc(func(para ...interface{}) error {
		calls++
		got = para
		if fail {
			return bad
		}
		return nil
	})
	err := h.OnEvent(args...)
	sym.Assert(calls == 1, "the function is called once")
	sym.Assert((err == bad) == fail && (err == nil) == !fail, "its error is handed on")
	sym.Assert(len(got) == n, "it gets all arguments")
	for i := range got {
		sym.Assert(got[i].(int) == args[i].(int), "it gets the arguments in order")
	}
	id := sym.Uint32("id")
	sym.Assert(event.EventId(id).Get() == id && event.ListenerId(id).Get() == id, "ids keep their number")
	sym.Cover("done")
}

// CheckProto: protocol integers.
func CheckProto() {
	n, u := sym.Int64("n"), sym.Uint64("u")
	i, v := proto.Integer(n), proto.UInteger(u)
	sym.Assert(i.Int64() == n && v.Uint64() == u, "a protocol integer keeps its value")
	sym.Assert(int32(i.Int32()) == int32(n) && int16(i.Int16()) == int16(n) && int8(i.Int8()) == int8(n), "the low bits of a signed one")
	sym.Assert(uint32(v.Uint32()) == uint32(u) && uint16(v.Uint16()) == uint16(u) && uint8(v.Uint8()) == uint8(u), "the low bits of an unsigned one")
	sym.Assert(int64(i.Int32()) == int64(int32(n)) && uint64(v.Uint32()) == uint64(uint32(u)) && uint64(v.Uint16()) == uint64(uint16(u)) && uint64(v.Uint8()) == uint64(uint8(u)), "nothing but the low bits")
	sym.Cover("done")
}
