// Package c27: factories.
//
// bound: histories of 4 (thorough 6) calls of AddCreater, RemoveCreater and Create with arbitrary int names, or names of arbitrary strings of 0..2 bytes, on two factories; 0..2 arbitrary arguments
package c27

import (
	"github.com/vipally/gx/factory"

	"verif/sym"
)

// made is what the creaters of this package make.
type made struct {
	by   int
	args []interface{}
}

type creater int

func (c creater) Create(arg ...interface{}) interface{} { return &made{int(c), arg} }

type entry struct {
	fac, by int
	num     int
	str     string
}

// api is one kind of factory.
type api interface {
	add(fac int, e entry, c factory.Creater) error
	remove(fac int, e entry) error
	create(fac int, e entry, arg ...interface{}) interface{}
	name() entry
	same(a, b entry) bool
}

type ints struct{ f [2]*factory.FactoryI }

func (a *ints) add(i int, e entry, c factory.Creater) error { return a.f[i].AddCreater(e.num, c) }
func (a *ints) remove(i int, e entry) error                 { return a.f[i].RemoveCreater(e.num) }
func (a *ints) create(i int, e entry, arg ...interface{}) interface{} {
	return a.f[i].Create(e.num, arg...)
}
func (a *ints) name() entry          { return entry{num: sym.Int("type")} }
func (a *ints) same(x, y entry) bool { return x.num == y.num }

type strs struct{ f [2]*factory.FactoryS }

func (a *strs) add(i int, e entry, c factory.Creater) error { return a.f[i].AddCreater(e.str, c) }
func (a *strs) remove(i int, e entry) error                 { return a.f[i].RemoveCreater(e.str) }
func (a *strs) create(i int, e entry, arg ...interface{}) interface{} {
	return a.f[i].Create(e.str, arg...)
}
func (a *strs) name() entry {
	return entry{str: sym.String("type", []int{1, 0, 2}[sym.Choice("type len", 3)])}
}
func (a *strs) same(x, y entry) bool { return x.str == y.str }

// global: the package's own factory and one more.
type global struct{ strs }

func (a *global) add(i int, e entry, c factory.Creater) error {
	if i == 0 {
		return factory.AddCreater(e.str, c)
	}
	return a.strs.add(i, e, c)
}
func (a *global) remove(i int, e entry) error {
	if i == 0 {
		return factory.RemoveCreater(e.str)
	}
	return a.strs.remove(i, e)
}
func (a *global) create(i int, e entry, arg ...interface{}) interface{} {
	if i == 0 {
		return factory.Create(e.str, arg...)
	}
	return a.strs.create(i, e, arg...)
}

func history(a api, n int) {
	var reg []entry // the latest first
	for k := 0; k < n; k++ {
		e := a.name()
		e.fac = 0
		if k > 0 {
			e.fac = sym.Choice("factory", 2)
		}
		at := -1
		for i, r := range reg {
			if r.fac == e.fac && a.same(r, e) {
				at = i
				break
			}
		}
		switch sym.Choice("op", 3) {
		case 0:
			e.by = k + 1
			sym.Assert(a.add(e.fac, e, creater(e.by)) == nil, "AddCreater succeeds")
			if at >= 0 {
				reg[at] = e
			} else {
				reg = append(reg, e)
			}
		case 1:
			sym.Assert(a.remove(e.fac, e) == nil, "RemoveCreater succeeds")
			if at >= 0 {
				reg = append(append([]entry(nil), reg[:at]...), reg[at+1:]...)
			}
		case 2:
			check(a, reg, e, at)
		}
	}
	e := a.name()
	e.fac = sym.Choice("factory", 2)
	at := -1
	for i, r := range reg {
		if r.fac == e.fac && a.same(r, e) {
			at = i
			break
		}
	}
	check(a, reg, e, at)
	sym.Cover("done")
}

func check(a api, reg []entry, e entry, at int) {
	x, y := sym.Int("arg"), sym.Int("arg")
	var r interface{}
	n := sym.Choice("args", 2) * 2
	if n == 0 {
		r = a.create(e.fac, e)
	} else {
		r = a.create(e.fac, e, x, y)
	}
	if at < 0 {
		sym.Assert(r == nil, "nothing is made without a creater")
		return
	}
	m, ok := r.(*made)
	sym.Assert(ok && m != nil, "the creater makes it")
	sym.Assert(m.by == reg[at].by, "the creater added last makes it")
	sym.Assert(len(m.args) == n, "the arguments are passed on")
	if n == 2 {
		sym.Assert(m.args[0].(int) == x && m.args[1].(int) == y, "the arguments are passed on")
	}
}

func CheckInt() {
	history(&ints{[2]*factory.FactoryI{factory.NewFactoryI(), factory.NewFactoryI()}}, sym.Bound(4, 5))
}

func CheckString() {
	history(&strs{[2]*factory.FactoryS{factory.NewFactoryS(), factory.NewFactoryS()}}, sym.Bound(3, 4))
}

func CheckGlobal() {
	g := &global{}
	g.f[1] = factory.NewFactoryS()
	history(g, sym.Bound(2, 4))
}

// CheckHuge: many names, arguments and removals.
//
// bound: CheckHuge: 40, 300 or 3000 names of 38 bytes with common beginnings, every third removed, every fourth added anew; one arbitrary name of the same kind looked up; 0..70 arguments
func CheckHuge() {
	n := []int{40, 300, 3000}[sym.Choice("n", 3)]
	f, g := factory.NewFactoryS(), factory.NewFactoryI()
	long := "a name that is rather long, number:"
	name := func(i int) string {
		b := []byte{byte('a' + i%26), byte('a' + i/26%26), byte('a' + i/676)}
		if i%2 == 0 {
			return long + string(b)
		}
		return string(b) + long
	}
	by := make([]int, n)
	for i := range by {
		by[i] = i + 1
		f.AddCreater(name(i), creater(i+1))
		g.AddCreater(i*1000003, creater(i+1))
	}
	for i := range by {
		switch {
		case i%3 == 0:
			by[i] = 0
			f.RemoveCreater(name(i))
			g.RemoveCreater(i * 1000003)
		case i%4 == 0:
			by[i] = i + 100000
			f.AddCreater(name(i), creater(i+100000))
			g.AddCreater(i*1000003, creater(i+100000))
		}
	}
	var args []interface{}
	for i := []int{0, 1, 2, 3, 6, 10, 70}[sym.Choice("args", 7)]; i > 0; i-- {
		args = append(args, sym.Int("arg"))
	}
	right := func(r interface{}, by int) {
		if by == 0 {
			sym.Assert(r == nil, "nothing is made without a creater")
			return
		}
		m, ok := r.(*made)
		sym.Assert(ok && m.by == by, "the creater added last makes it")
		sym.Assert(len(m.args) == len(args), "the arguments are passed on")
		for i := range args {
			sym.Assert(m.args[i].(int) == args[i].(int), "the arguments are passed on in order")
		}
	}
	for i := range by {
		right(f.Create(name(i), args...), by[i])
		right(g.Create(i*1000003, args...), by[i])
	}
	c := sym.Byte("c")
	which := 0
	for i := 0; i < n; i++ {
		if i%2 == 0 && i/26 == 1 && c == byte('a'+i%26) {
			which = by[i]
		}
	}
	right(f.Create(long+string([]byte{c, 'b', 'a'}), args...), which)
	sym.Cover("done")
}
