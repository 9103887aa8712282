// Package c12: the tree and its visitor.
//
// bound: every tree grown by 4 (thorough 5) insertions (any parent, any index -1..len) with arbitrary 64-bit values, then optionally one child removed or the children of a node sorted; CheckWalk: every walk of 6 (thorough 8) Next/Prev steps over every tree of up to 4 nodes; CheckLarge: wide, deep, comb and binary trees of 6..33 (thorough ..100) nodes with fixed values and one arbitrary, the same operations
package c12

import (
	"github.com/vipally/gx/stl"

	"verif/sym"
)

type mn struct {
	n  *stl.IntTreeNode
	v  int
	ch []*mn
}

func (m *mn) all() []*mn {
	r := []*mn{m}
	for _, c := range m.ch {
		r = append(r, c.all()...)
	}
	return r
}

func grow(k int) *mn {
	root := &mn{n: &stl.IntTreeNode{}}
	for ; k > 0; k-- {
		nodes := root.all()
		p := nodes[sym.Choice("parent", len(nodes))]
		i := sym.Choice("idx", len(p.ch)+2) - 1
		v := sym.Int("v")
		n := &mn{n: p.n.AddChild(v, i), v: v}
		if i < 0 || i > len(p.ch) {
			i = len(p.ch)
		}
		ch := append([]*mn(nil), p.ch[:i]...)
		p.ch = append(append(ch, n), p.ch[i:]...)
	}
	return root
}

func (m *mn) check(where string) {
	nodes := m.all()
	list := m.n.All()
	sym.Assert(len(list) == len(nodes), where+": All has every node once")
	for i, x := range nodes {
		sym.Assert(list[i] == x.v, where+": All is in pre-order")
		sym.Assert(x.n.NumChildren() == len(x.ch) && len(x.n.Children()) == len(x.ch), where+": NumChildren counts")
		for k, c := range x.ch {
			g, ok := x.n.GetChild(k)
			sym.Assert(ok && g == c.n && x.n.Children()[k] == c.n, where+": children are in order")
		}
		_, ok := x.n.GetChild(len(x.ch))
		_, ok2 := x.n.GetChild(-1)
		sym.Assert(!ok && !ok2, where+": no child outside")
	}
	v := m.n.Visitor()
	for _, x := range nodes {
		sym.Assert(v.Next(), where+": the visitor reaches every node")
		sym.Assert(v.Get() == x.v, where+": the visitor goes in pre-order")
	}
	sym.Assert(!v.Next(), where+": the visitor stops after the last node")
	v = m.n.Visitor()
	for i := len(nodes) - 1; i >= 0; i-- {
		sym.Assert(v.Prev(), where+": the visitor reaches every node backwards")
		sym.Assert(v.Get() == nodes[i].v, where+": backwards is reverse pre-order")
	}
	sym.Assert(!v.Prev(), where+": the visitor stops before the root")
}

func CheckTree() { ops(grow(sym.Choice("k", 1+sym.Bound(4, 5)))) }

// CheckLarge: a larger tree, one of whose values is arbitrary.
func CheckLarge() {
	ops(shaped([]int{6, 9, 17, 33, 64, 100}[sym.Choice("n", sym.Bound(4, 6))]))
}

// CheckTurn: visitors that turn round twice anywhere in a larger tree, two at
// a time, beginning at the root or below it.
//
// bound: CheckTurn: the trees of CheckLarge of 6, 9, 14 (thorough also 25) nodes, every pair of places to turn round in, from the root or one of the next two nodes
func CheckTurn() {
	t := shaped([]int{6, 9, 14, 25}[sym.Choice("n", sym.Bound(3, 4))])
	t = t.all()[sym.Choice("from", 3)]
	nodes := t.all()
	k := sym.Choice("turn", len(nodes))
	j := sym.Choice("back", k+1)
	v, w := t.n.Visitor(), t.n.Visitor()
	at, bt := -1, len(nodes)
	for i := 0; i <= k; i++ {
		at++
		sym.Assert(v.Next() && v.Get() == nodes[at].v, "Next goes to the following node")
		bt--
		sym.Assert(w.Prev() && w.Get() == nodes[bt].v, "Prev goes to the preceding node")
	}
	for i := 0; i < j; i++ {
		at--
		sym.Assert(v.Prev() && v.Get() == nodes[at].v, "Prev goes back to the preceding node")
		bt++
		sym.Assert(w.Next() && w.Get() == nodes[bt].v, "Next goes forth to the following node")
	}
	for at++; at < len(nodes); at++ {
		sym.Assert(v.Next() && v.Get() == nodes[at].v, "Next goes on to the following node")
	}
	sym.Assert(!v.Next(), "Next ends after the last node")
	for bt--; bt >= 0; bt-- {
		sym.Assert(w.Prev() && w.Get() == nodes[bt].v, "Prev goes on to the preceding node")
	}
	sym.Assert(!w.Prev(), "Prev ends before the first node")
	sym.Cover("done")
}

func shaped(n int) *mn {
	shape := sym.Choice("shape", 4)
	root := &mn{n: &stl.IntTreeNode{}}
	l := []*mn{root}
	for i := 1; i < n; i++ {
		p := root
		switch shape {
		case 1: // a chain
			p = l[i-1]
		case 2: // a comb
			p = l[(i-1)/2*2]
		case 3: // binary
			p = l[(i-1)/2]
		}
		v := i * 7 % 10
		if i == n/2 {
			v = sym.Int("v")
		}
		c := &mn{n: p.n.AddChild(v, -1), v: v}
		p.ch = append(p.ch, c)
		l = append(l, c)
	}
	return root
}

func ops(t *mn) {
	t.check("growing")
	nodes := t.all()
	x := nodes[sym.Choice("node", len(nodes))]
	switch sym.Choice("op", 4) {
	case 0:
		i := sym.Choice("child", len(x.ch)+2) - 1
		c, ok := x.n.RemoveChild(i)
		sym.Assert(ok == (i >= 0 && i < len(x.ch)), "RemoveChild ok iff the index is inside")
		if ok {
			sym.Assert(c == x.ch[i].n, "RemoveChild returns the child")
			sub := x.ch[i]
			x.ch = append(append([]*mn(nil), x.ch[:i]...), x.ch[i+1:]...)
			sub.check("RemoveChild (removed part)")
		}
		t.check("RemoveChild")
	case 1:
		x.n.SortChildren()
		var ch []*mn
		for _, c := range x.n.Children() {
			for _, o := range x.ch {
				if o.n == c {
					ch = append(ch, o)
				}
			}
		}
		sym.Assert(len(ch) == len(x.ch), "SortChildren keeps the children")
		for i := 1; i < len(ch); i++ {
			sym.Assert(ch[i] != ch[i-1] && ch[i-1].v <= ch[i].v, "SortChildren orders by value")
			sym.Assert(ch[i-1].n.Less(ch[i].n) == (ch[i-1].v < ch[i].v), "Less compares values")
		}
		x.ch = ch
		t.check("SortChildren")
	case 2: // attach a whole subtree
		sub := grow(1)
		i := sym.Choice("idx", len(x.ch)+1)
		sym.Assert(x.n.AddChildNode(sub.n, i) == sub.n, "AddChildNode returns the node")
		ch := append([]*mn(nil), x.ch[:i]...)
		x.ch = append(append(ch, sub), x.ch[i:]...)
		t.check("AddChildNode")
	case 3:
		x.check("a part of the tree")
	}
	sym.Cover("done")
}

func CheckWalk() {
	t := grow(sym.Choice("k", 4))
	nodes := t.all()
	v := t.n.Visitor()
	at := -1 // before the first step
	for i := sym.Bound(6, 8); i > 0; i-- {
		if sym.Choice("step", 2) == 0 {
			ok := v.Next()
			at++
			sym.Assert(ok == (at < len(nodes)), "Next ok iff there is a following node")
		} else {
			ok := v.Prev()
			if at == -1 {
				at = len(nodes)
			}
			at--
			sym.Assert(ok == (at >= 0), "Prev ok iff there is a preceding node")
		}
		if at < 0 || at >= len(nodes) {
			break
		}
		sym.Assert(v.Get() == nodes[at].v, "the visitor is a cursor over the pre-order sequence")
	}
	sym.Cover("done")
}

// CheckHuge: many nodes.
//
// bound: CheckHuge: the shapes of CheckLarge with 1100 (thorough also 4200) nodes, examined, then with a child removed
func CheckHuge() {
	t := shaped([]int{1100, 4200}[sym.Choice("n", sym.Bound(1, 2))])
	t.check("building")
	nodes := t.all()
	p := nodes[[]int{0, len(nodes) / 2, len(nodes) - 3}[sym.Choice("at", 3)]]
	if len(p.ch) > 0 {
		k := []int{0, len(p.ch) / 2, len(p.ch) - 1}[sym.Choice("child", 3)]
		c, ok := p.n.RemoveChild(k)
		sym.Assert(ok && c == p.ch[k].n, "RemoveChild gives the child")
		p.ch = append(p.ch[:k:k], p.ch[k+1:]...)
		t.check("RemoveChild")
	}
	sym.Cover("done")
}
