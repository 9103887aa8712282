// Package c13: comparison functors are strict weak orders.
//
// bound: arbitrary 64-bit ints; every functor value 0..255; names of 0..8 arbitrary bytes
package c13

import (
	"github.com/vipally/gx/stl"

	"verif/sym"
)

func CheckInt() {
	a, b, c := sym.Int("a"), sym.Int("b"), sym.Int("c")
	l, g := stl.CmpIntLesser, stl.CmpIntGreater
	sym.Assert(l.F(a, b) == (a < b), "Lesser is <")
	sym.Assert(g.F(a, b) == (a > b), "Greater is >")
	for _, f := range []stl.CmpInt{l, g} {
		sym.Assert(!f.F(a, a), "irreflexive")
		sym.Assert(sym.Implies(f.F(a, b), !f.F(b, a)), "asymmetric")
		sym.Assert(sym.Implies(sym.And(f.F(a, b), f.F(b, c)), f.F(a, c)), "transitive")
		sym.Assert(sym.Implies(sym.And(!f.F(a, b), !f.F(b, a)), a == b), "total")
		sym.Assert(f.Lesser() == l && f.Greater() == g, "Lesser and Greater do not depend on the receiver")
		sym.Assert(f.CreateByBool(true) == g && f.CreateByBool(false) == l, "CreateByBool: big first is Greater")
	}
	sym.Assert(l.F(a, b) == g.F(b, a), "the two orders are opposite")
	var zero stl.CmpInt
	sym.Assert(zero == l, "the zero value is Lesser")
}

func CheckNode() {
	p := &stl.IntTreeNode{}
	a, b := sym.Int("a"), sym.Int("b")
	x, y := p.AddChild(a, -1), p.AddChild(b, -1)
	l, g := stl.CmpIntTreeNodeLesser, stl.CmpIntTreeNodeGreater
	sym.Assert(l.F(x, y) == (a < b), "node Lesser is < on values")
	sym.Assert(g.F(x, y) == (a > b), "node Greater is > on values")
	for _, f := range []stl.CmpIntTreeNode{l, g} {
		sym.Assert(f.Lesser() == l && f.Greater() == g, "node: Lesser and Greater do not depend on the receiver")
		sym.Assert(f.CreateByBool(true) == g && f.CreateByBool(false) == l, "node: CreateByBool: big first is Greater")
	}
}

func CheckNames() {
	s := sym.String("name", sym.Choice("len", 9))
	known := s == "" || s == "Lesser" || s == "Greater"
	var f stl.CmpInt
	var fn stl.CmpIntTreeNode
	p := sym.Panics(func() { f = stl.CreateCmpInt(s) })
	pn := sym.Panics(func() { fn = stl.CreateCmpIntTreeNode(s) })
	sym.Assert(p == !known && pn == !known, "only known names make a functor")
	if known {
		want := stl.CmpIntLesser
		if s == "Greater" {
			want = stl.CmpIntGreater
		}
		sym.Assert(f == want && byte(fn) == byte(want), "the name selects the functor")
		sym.Assert(stl.CreateCmpInt(f.String()) == f, "String names the functor")
		sym.Assert(stl.CreateCmpIntTreeNode(fn.String()) == fn, "String names the node functor")
	}
	sym.Cover("done")
}
