// Package c09: the singly linked list is a sequence of nodes.
//
// bound: every list of 0..5 nodes (thorough 0..6) followed by 2 (thorough 3 for up to 3 nodes) arbitrary operations out of 16 kinds with every choice of node and mark and pushed list (0..2 nodes); element values arbitrary 64-bit ints
// bound: CheckLarge: lists of 6,7,8,9,17 (thorough also 33,64) nodes with fixed values, then 1 arbitrary operation with every choice of node and mark
package c09

import (
	"github.com/vipally/gx/stl"

	"verif/sym"
)

type node = stl.IntSListNode

type model struct {
	l    *stl.IntSList
	m    []*node
	v    []int
	away []*node
	was  []int // their values
}

func (x *model) gone(n *node) {
	x.away, x.was = append(x.away, n), append(x.was, n.Get())
}

func (x *model) check(where string) {
	for i, n := range x.away {
		sym.Assert(n.Get() == x.was[i], where+": a node taken out keeps its value")
		sym.Assert(!x.l.IsValidNode(n), where+": a node taken out stays out")
	}
	n := len(x.m)
	sym.Assert(x.l.Empty() == (n == 0), where+": Empty iff no elements")
	sym.Assert(x.l.Len() == n, where+": Len counts the elements")
	p := x.l.Front()
	for i := range x.m {
		sym.Assert(p == x.m[i], where+": Next follows the sequence")
		sym.Assert(p.Get() == x.v[i], where+": values stay with their nodes")
		p = p.Next()
	}
	sym.Assert(p == nil, where+": the list ends")
	v := x.l.Visitor()
	for i := range x.m {
		sym.Assert(v.Next(), where+": the visitor reaches every node")
		sym.Assert(v.Get() == x.m[i], where+": the visitor goes in order")
	}
	sym.Assert(!v.Next(), where+": the visitor stops at the end")
	t, size := x.l.Front().Tail()
	sym.Assert(size == n, where+": Tail counts the elements")
	if n > 0 {
		sym.Assert(t == x.m[n-1], where+": Tail is the last node")
	}
	sym.Assert(!x.l.HasCycle(x.l.Front()), where+": no cycle")
}

func (x *model) ins(i int, n *node, v int) {
	m := append([]*node(nil), x.m[:i]...)
	m = append(m, n)
	x.m = append(m, x.m[i:]...)
	w := append([]int(nil), x.v[:i]...)
	w = append(w, v)
	x.v = append(w, x.v[i:]...)
}

func (x *model) del(i int) (*node, int) {
	n, v := x.m[i], x.v[i]
	x.m = append(append([]*node(nil), x.m[:i]...), x.m[i+1:]...)
	x.v = append(append([]int(nil), x.v[:i]...), x.v[i+1:]...)
	return n, v
}

func (x *model) idx(n *node) int {
	for i, k := range x.m {
		if k == n {
			return i
		}
	}
	return -1
}

func (x *model) pick() int {
	if len(x.m) == 0 {
		sym.Skip()
	}
	return sym.Choice("node", len(x.m))
}

func (x *model) fresh(n *node, v int, what string) *node {
	sym.Assert(n != nil && x.idx(n) < 0, what+" makes a new node")
	sym.Assert(n.Get() == v, what+" stores the value")
	return n
}

func (x *model) op() {
	switch sym.Choice("op", 16) {
	case 0:
		v := sym.Int("v")
		x.ins(0, x.fresh(x.l.PushFront(v), v, "PushFront"), v)
		x.check("PushFront")
	case 1:
		v, ok := x.l.PopFront()
		sym.Assert(ok == (len(x.m) > 0), "PopFront ok iff non-empty")
		if ok {
			n, w := x.del(0)
			sym.Assert(v == w, "PopFront returns the first value")
			x.gone(n)
		}
		x.check("PopFront")
	case 2:
		r := x.l.RemoveFront()
		sym.Assert((r != nil) == (len(x.m) > 0), "RemoveFront removes iff non-empty")
		if r != nil {
			n, _ := x.del(0)
			sym.Assert(r == n, "RemoveFront returns the first node")
			sym.Assert(r.Next() == nil, "a removed node leads nowhere")
			x.gone(n)
		}
		x.check("RemoveFront")
	case 3:
		i := x.pick()
		sym.Assert(x.l.Remove(x.m[i]) == x.m[i], "Remove returns the node")
		n, _ := x.del(i)
		x.gone(n)
		sym.Assert(n.Next() == nil, "a removed node leads nowhere")
		sym.Assert(x.l.Remove(n) == nil, "a removed node cannot be removed again")
		x.check("Remove")
	case 4:
		v := sym.Int("v")
		i := x.pick()
		x.ins(i+1, x.fresh(x.l.PushAfter(v, x.m[i]), v, "PushAfter"), v)
		x.check("PushAfter")
	case 5:
		i := x.pick()
		n, v := x.m[i], x.v[i]
		x.l.MoveFront(n)
		x.del(i)
		x.ins(0, n, v)
		x.check("MoveFront")
	case 6:
		i := x.pick()
		mark := x.m[sym.Choice("mark", len(x.m))]
		n, v := x.m[i], x.v[i]
		x.l.MoveAfter(n, mark)
		if n != mark {
			x.del(i)
			x.ins(x.idx(mark)+1, n, v)
		}
		x.check("MoveAfter")
	case 7:
		o := &model{l: stl.NewIntSList()}
		for k := sym.Choice("other", 3); k > 0; k-- {
			v := sym.Int("v")
			o.ins(0, o.l.PushFront(v), v)
		}
		x.l.PushFrontList(o.l)
		x.m = append(append([]*node(nil), o.m...), x.m...)
		x.v = append(append([]int(nil), o.v...), x.v...)
		x.check("PushFrontList")
		// the two lists do not share nodes afterwards
		o.l.PopFront()
		o.l.PushFront(9)
		x.check("PushFrontList and using the other list")
	case 8:
		x.l.Reverse()
		r := &model{}
		for i := range x.m {
			r.ins(0, x.m[i], x.v[i])
		}
		x.m, x.v = r.m, r.v
		x.check("Reverse")
	case 9:
		x.l.Clear()
		x.m, x.v = nil, nil
		x.check("Clear")
	case 10:
		i := x.pick()
		v := sym.Int("v")
		sym.Assert(x.m[i].Set(v) == x.v[i], "Set returns the old value")
		x.v[i] = v
		x.check("Set")
	case 11:
		i := x.pick()
		sym.Assert(x.l.IsValidNode(x.m[i]), "a node of the list is valid")
		j := sym.Choice("mark", len(x.m))
		sym.Assert(x.l.Reachable(x.m[i], x.m[j]) == (i <= j), "the following nodes are reachable, the preceding are not")
		alien := stl.NewIntSList().PushFront(1)
		sym.Assert(!x.l.IsValidNode(alien), "a node of another list is not valid")
		sym.Assert(!x.l.Reachable(x.m[i], alien) && !x.l.Reachable(alien, x.m[i]), "a node of another list is not reachable")
		x.check("Reachable")
	case 12: // put a removed node back
		if len(x.away) == 0 {
			sym.Skip()
		}
		n := x.away[len(x.away)-1]
		x.away, x.was = x.away[:len(x.away)-1], x.was[:len(x.was)-1]
		v := n.Get()
		if sym.Choice("how", 2) == 0 {
			sym.Assert(x.l.InsertFront(n) == n, "InsertFront returns the node")
			x.ins(0, n, v)
		} else {
			i := x.pick()
			sym.Assert(x.l.InsertAfter(n, x.m[i]) == n, "InsertAfter returns the node")
			x.ins(i+1, n, v)
		}
		x.check("inserting a node")
	case 13: // nil arguments change nothing
		sym.Assert(x.l.Remove(nil) == nil, "nothing to remove")
		x.l.InsertFront(nil)
		x.l.MoveFront(nil)
		sym.Assert(x.l.PushAfter(1, nil) == nil, "no mark, no push")
		x.check("nil arguments")
	case 14: // a node relative to itself; nodes of other lists
		i := x.pick()
		x.l.InsertAfter(x.m[i], x.m[i])
		o := stl.NewIntSList()
		alien := o.PushFront(5)
		sym.Assert(x.l.Remove(alien) == nil, "a node of another list cannot be removed")
		sym.Assert(x.l.MoveFront(alien) == nil && x.l.MoveAfter(alien, x.m[i]) == nil, "a node of another list cannot be moved")
		sym.Assert(o.Front() == alien && alien.Next() == nil, "the other list is untouched")
		x.check("a node next to itself")
	case 15:
		x.l.Sort()
		var s model
		k := 0
		for v := x.l.Visitor(); k <= len(x.m) && v.Next(); k++ {
			s.ins(k, v.Get(), v.Get().Get())
		}
		sym.Assert(k == len(x.m), "Sort keeps the number of elements")
		for _, n := range s.m {
			sym.Assert(x.idx(n) >= 0, "Sort keeps the nodes")
		}
		x.m, x.v = s.m, s.v
		x.check("Sort")
	}
}

// CheckOps: any list, then any operations.
func CheckOps() {
	x := &model{l: stl.NewIntSList()}
	n := sym.Choice("n", sym.Bound(6, 7))
	for i := 0; i < n; i++ {
		v := sym.Int("v")
		x.ins(0, x.l.PushFront(v), v)
	}
	x.check("filling")
	k := 2
	if n <= 3 {
		k = sym.Bound(2, 3)
	}
	for ; k > 0; k-- {
		x.op()
	}
	sym.Cover("done")
}

// CheckRemoved: from a list with a node taken out, any two operations.
func CheckRemoved() {
	x := &model{l: stl.NewIntSList()}
	n := 1 + sym.Choice("n", 4)
	for i := 0; i < n; i++ {
		v := sym.Int("v")
		x.ins(0, x.l.PushFront(v), v)
	}
	i := sym.Choice("rm", n)
	x.l.Remove(x.m[i])
	nd, _ := x.del(i)
	x.gone(nd)
	x.op()
	x.op()
	sym.Cover("done")
}

// CheckLarge: one operation on a longer list.
func CheckLarge() {
	x := &model{l: stl.NewIntSList()}
	n := []int{6, 7, 8, 9, 17, 33, 64}[sym.Choice("n", sym.Bound(5, 7))]
	for i := 0; i < n; i++ {
		v := i * 7 % 10
		x.ins(0, x.l.PushFront(v), v)
	}
	x.check("filling")
	x.op()
	sym.Cover("done")
}

// CheckCycle: the cycle test agrees with a walk along the chain, also when a
// node is put in where it already is.
//
// bound: CheckCycle: lists of 1..9 (thorough 1..17) nodes, every node inserted again after every other
func CheckCycle() {
	x := &model{l: &stl.IntSList{}}
	n := 1 + sym.Choice("n", sym.Bound(9, 17))
	for i := 0; i < n; i++ {
		v := sym.Int("v")
		x.ins(0, x.l.PushFront(v), v)
	}
	i, j := sym.Choice("node", n), sym.Choice("mark", n)
	x.l.InsertAfter(x.m[i], x.m[j])
	for _, from := range []*node{x.l.Front(), x.m[i], x.m[j], x.m[n-1]} {
		p := from
		for k := 0; k <= n && p != nil; k++ {
			p = p.Next()
		}
		sym.Assert(x.l.HasCycle(from) == (p != nil), "HasCycle tells whether the chain goes round")
	}
	sym.Assert(!x.l.HasCycle(nil), "no node, no cycle")
	sym.Cover("done")
}

// CheckLong: single operations on long lists.
//
// bound: CheckLong: lists of 40,150,600,2100 (thorough also 9000) nodes of which 1 arbitrary; whole-list operations, and moves and removals of the first, middle and last node
func CheckLong() {
	x := &model{l: stl.NewIntSList()}
	fill := func(x *model, n int) {
		x.m, x.v = make([]*node, n), make([]int, n)
		for i := n - 1; i >= 0; i-- {
			v := i * 7 % 60
			if i == n/2 {
				v = sym.Int("v")
			}
			x.m[i], x.v[i] = x.l.PushFront(v), v
		}
	}
	n := []int{40, 150, 600, 2100, 9000}[sym.Choice("n", sym.Bound(4, 5))]
	fill(x, n)
	at := []int{0, n / 2, n - 1}[sym.Choice("at", 3)]
	switch sym.Choice("op", 6) {
	case 0:
		x.l.Reverse()
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			x.m[i], x.m[j] = x.m[j], x.m[i]
			x.v[i], x.v[j] = x.v[j], x.v[i]
		}
	case 1:
		o := &model{l: stl.NewIntSList()}
		fill(o, 100)
		x.l.PushFrontList(o.l)
		x.m, x.v = append(o.m, x.m...), append(o.v, x.v...)
	case 2:
		x.l.Remove(x.m[at])
		x.del(at)
	case 3:
		nd, v := x.del(at)
		x.l.MoveFront(nd)
		x.ins(0, nd, v)
	case 4:
		mark := x.m[n/3]
		nd, v := x.del(at)
		x.l.MoveAfter(nd, mark)
		x.ins(x.idx(mark)+1, nd, v)
	case 5:
		sym.Assert(x.l.IsValidNode(x.m[at]), "a node of the list is valid")
		sym.Assert(x.l.Reachable(x.m[at], x.m[n-1]), "the following nodes are reachable")
		nd := x.l.Remove(x.m[at])
		x.del(at)
		sym.Assert(!x.l.IsValidNode(nd), "a removed node is not valid")
	}
	x.check("an operation on a long list")
	sym.Cover("done")
}
