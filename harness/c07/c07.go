// Package c07: the doubly linked list is a sequence of nodes.
//
// bound: every list of 0..4 nodes (thorough 0..5) followed by 2 (thorough 3 for up to 3 nodes) arbitrary operations out of 24 kinds with every choice of node, mark and inserted list (0..3 nodes); element values arbitrary 64-bit ints
// bound: CheckLarge: lists of 6,7,8,9,17 (thorough also 33,64) nodes with fixed values, then 1 arbitrary operation with every choice of node and mark
package c07

import (
	"github.com/vipally/gx/stl"

	"verif/sym"
)

type node = stl.IntListNode

type model struct {
	l    *stl.IntList
	m    []*node
	v    []int
	away []*node // removed nodes
	was  []int   // their values
}

func (x *model) gone(n *node) {
	x.away, x.was = append(x.away, n), append(x.was, n.Get())
}

func (x *model) check(where string) {
	for i, n := range x.away {
		sym.Assert(n.Get() == x.was[i], where+": a node taken out keeps its value")
		sym.Assert(!x.l.IsValidNode(n), where+": a node taken out stays out")
	}
	n := len(x.m)
	sym.Assert(x.l.Empty() == (n == 0), where+": Empty iff no elements")
	if n == 0 {
		sym.Assert(x.l.Front() == nil, where+": no front in an empty list")
		sym.Assert(x.l.Back() == nil, where+": no back in an empty list")
		sym.Assert(!x.l.Visitor().Next(), where+": nothing to visit in an empty list")
		return
	}
	sym.Assert(x.l.Front() == x.m[0], where+": Front is the first node")
	sym.Assert(x.l.Back() == x.m[n-1], where+": Back is the last node")
	f, b := x.l.Front(), x.l.Back()
	for i := range x.m {
		sym.Assert(f == x.m[i], where+": Next follows the sequence")
		sym.Assert(b == x.m[n-1-i], where+": Prev follows the sequence backwards")
		sym.Assert(f.Get() == x.v[i], where+": values stay with their nodes")
		f, b = f.Next(), b.Prev()
	}
	sym.Assert(f == x.m[0] && b == x.m[n-1], where+": the links close the ring")
	v := x.l.Visitor()
	for i := range x.m {
		sym.Assert(v.Next(), where+": the visitor reaches every node")
		sym.Assert(v.Get() == x.m[i], where+": the visitor goes in order")
	}
	sym.Assert(!v.Next(), where+": the visitor stops at the end")
	v.Reset()
	for i := range x.m {
		sym.Assert(v.Prev(), where+": the visitor reaches every node backwards")
		sym.Assert(v.Get() == x.m[n-1-i], where+": the visitor goes backwards in order")
	}
	sym.Assert(!v.Prev(), where+": the visitor stops at the start")
}

func (x *model) ins(i int, n *node, v int) {
	m := append([]*node(nil), x.m[:i]...)
	m = append(m, n)
	x.m = append(m, x.m[i:]...)
	w := append([]int(nil), x.v[:i]...)
	w = append(w, v)
	x.v = append(w, x.v[i:]...)
}

func (x *model) del(i int) (*node, int) {
	n, v := x.m[i], x.v[i]
	x.m = append(append([]*node(nil), x.m[:i]...), x.m[i+1:]...)
	x.v = append(append([]int(nil), x.v[:i]...), x.v[i+1:]...)
	return n, v
}

func (x *model) idx(n *node) int {
	for i, k := range x.m {
		if k == n {
			return i
		}
	}
	return -1
}

func (x *model) pick() int {
	if len(x.m) == 0 {
		sym.Skip()
	}
	return sym.Choice("node", len(x.m))
}

func (x *model) fresh(n *node, v int, what string) *node {
	sym.Assert(n != nil && x.idx(n) < 0, what+" makes a new node")
	sym.Assert(n.Get() == v, what+" stores the value")
	return n
}

func (x *model) op() {
	switch sym.Choice("op", 24) {
	case 0:
		v := sym.Int("v")
		x.ins(0, x.fresh(x.l.PushFront(v), v, "PushFront"), v)
		x.check("PushFront")
	case 1:
		v := sym.Int("v")
		x.ins(len(x.m), x.fresh(x.l.PushBack(v), v, "PushBack"), v)
		x.check("PushBack")
	case 2:
		v, ok := x.l.PopFront()
		sym.Assert(ok == (len(x.m) > 0), "PopFront ok iff non-empty")
		if ok {
			n, w := x.del(0)
			sym.Assert(v == w, "PopFront returns the first value")
			x.gone(n)
		}
		x.check("PopFront")
	case 3:
		v, ok := x.l.PopBack()
		sym.Assert(ok == (len(x.m) > 0), "PopBack ok iff non-empty")
		if ok {
			n, w := x.del(len(x.m) - 1)
			sym.Assert(v == w, "PopBack returns the last value")
			x.gone(n)
		}
		x.check("PopBack")
	case 4:
		r := x.l.RemoveFront()
		sym.Assert((r != nil) == (len(x.m) > 0), "RemoveFront removes iff non-empty")
		if r != nil {
			n, _ := x.del(0)
			sym.Assert(r == n, "RemoveFront returns the first node")
			x.gone(n)
		}
		x.check("RemoveFront")
	case 5:
		r := x.l.RemoveBack()
		sym.Assert((r != nil) == (len(x.m) > 0), "RemoveBack removes iff non-empty")
		if r != nil {
			n, _ := x.del(len(x.m) - 1)
			sym.Assert(r == n, "RemoveBack returns the last node")
			x.gone(n)
		}
		x.check("RemoveBack")
	case 6:
		i := x.pick()
		sym.Assert(x.l.Remove(x.m[i]) == x.m[i], "Remove returns the node")
		n, _ := x.del(i)
		x.gone(n)
		sym.Assert(x.l.Remove(n) == nil, "a removed node cannot be removed again")
		x.check("Remove")
	case 7:
		v := sym.Int("v")
		i := x.pick()
		x.ins(i, x.fresh(x.l.PushBefore(v, x.m[i]), v, "PushBefore"), v)
		x.check("PushBefore")
	case 8:
		v := sym.Int("v")
		i := x.pick()
		x.ins(i+1, x.fresh(x.l.PushAfter(v, x.m[i]), v, "PushAfter"), v)
		x.check("PushAfter")
	case 9:
		i := x.pick()
		n, v := x.m[i], x.v[i]
		x.l.MoveFront(n)
		x.del(i)
		x.ins(0, n, v)
		x.check("MoveFront")
	case 10:
		i := x.pick()
		n, v := x.m[i], x.v[i]
		x.l.MoveBack(n)
		x.del(i)
		x.ins(len(x.m), n, v)
		x.check("MoveBack")
	case 11:
		i := x.pick()
		mark := x.m[sym.Choice("mark", len(x.m))]
		n, v := x.m[i], x.v[i]
		x.l.MoveBefore(n, mark)
		if n != mark {
			x.del(i)
			x.ins(x.idx(mark), n, v)
		}
		x.check("MoveBefore")
	case 12:
		i := x.pick()
		mark := x.m[sym.Choice("mark", len(x.m))]
		n, v := x.m[i], x.v[i]
		x.l.MoveAfter(n, mark)
		if n != mark {
			x.del(i)
			x.ins(x.idx(mark)+1, n, v)
		}
		x.check("MoveAfter")
	case 13:
		x.l.RotateForward()
		if len(x.m) > 0 {
			n, v := x.del(0)
			x.ins(len(x.m), n, v)
		}
		x.check("RotateForward")
	case 14:
		x.l.RotateBackward()
		if len(x.m) > 0 {
			n, v := x.del(len(x.m) - 1)
			x.ins(0, n, v)
		}
		x.check("RotateBackward")
	case 15: // a list of 0..3 nodes goes to either end
		o := &model{l: stl.NewIntList()}
		for k := sym.Choice("other", 4); k > 0; k-- {
			v := sym.Int("v")
			o.ins(len(o.m), o.l.PushBack(v), v)
		}
		var ok bool
		if sym.Choice("end", 2) == 0 {
			ok = x.l.InsertBackList(o.l)
			x.m = append(append([]*node(nil), x.m...), o.m...)
			x.v = append(append([]int(nil), x.v...), o.v...)
		} else {
			ok = x.l.InsertFrontList(o.l)
			x.m = append(append([]*node(nil), o.m...), x.m...)
			x.v = append(append([]int(nil), o.v...), x.v...)
		}
		sym.Assert(ok == (len(o.m) > 0), "inserting a list reports whether there was anything")
		sym.Assert(o.l.Empty(), "the inserted list is emptied")
		x.check("inserting a list")
	case 16:
		x.l.Reverse()
		r := &model{}
		for i := range x.m {
			r.ins(0, x.m[i], x.v[i])
		}
		x.m, x.v = r.m, r.v
		x.check("Reverse")
	case 17:
		x.l.Clear()
		x.m, x.v = nil, nil
		x.check("Clear")
	case 18:
		i := x.pick()
		v := sym.Int("v")
		sym.Assert(x.m[i].Set(v) == x.v[i], "Set returns the old value")
		x.v[i] = v
		x.check("Set")
	case 19:
		i := x.pick()
		sym.Assert(x.l.IsValidNode(x.m[i]), "a node of the list is valid")
		j := sym.Choice("mark", len(x.m))
		sym.Assert(x.l.Reachable(x.m[i], x.m[j]), "every node of the list is reachable from every other")
		alien := stl.NewIntList().PushBack(1)
		sym.Assert(!x.l.IsValidNode(alien), "a node of another list is not valid")
		sym.Assert(!x.l.Reachable(x.m[i], alien) && !x.l.Reachable(alien, x.m[i]), "a node of another list is not reachable")
		x.check("Reachable")
	case 20: // put a removed node back
		if len(x.away) == 0 {
			sym.Skip()
		}
		n := x.away[len(x.away)-1]
		x.away, x.was = x.away[:len(x.away)-1], x.was[:len(x.was)-1]
		v := n.Get()
		switch sym.Choice("how", 4) {
		case 0:
			sym.Assert(x.l.InsertFront(n) == n, "InsertFront returns the node")
			x.ins(0, n, v)
		case 1:
			sym.Assert(x.l.InsertBack(n) == n, "InsertBack returns the node")
			x.ins(len(x.m), n, v)
		case 2:
			i := x.pick()
			sym.Assert(x.l.InsertBefore(n, x.m[i]) == n, "InsertBefore returns the node")
			x.ins(i, n, v)
		case 3:
			i := x.pick()
			sym.Assert(x.l.InsertAfter(n, x.m[i]) == n, "InsertAfter returns the node")
			x.ins(i+1, n, v)
		}
		x.check("inserting a node")
	case 21: // nil arguments change nothing
		sym.Assert(x.l.Remove(nil) == nil, "nothing to remove")
		x.l.InsertFront(nil)
		x.l.InsertBack(nil)
		x.l.MoveFront(nil)
		x.l.MoveBack(nil)
		sym.Assert(x.l.PushBefore(1, nil) == nil && x.l.PushAfter(1, nil) == nil, "no mark, no push")
		x.check("nil arguments")
	case 22: // a node relative to itself
		i := x.pick()
		x.l.InsertBefore(x.m[i], x.m[i])
		x.l.InsertAfter(x.m[i], x.m[i])
		x.check("a node next to itself")
	case 23:
		x.l.Sort()
		sym.Assert(len(x.m) == 0 || x.l.Front() != nil, "Sort keeps the elements")
		var s model
		k := 0
		for v := x.l.Visitor(); v.Next() && k <= len(x.m); k++ {
			s.ins(k, v.Get(), v.Get().Get())
		}
		sym.Assert(k == len(x.m), "Sort keeps the number of elements")
		for _, n := range s.m {
			sym.Assert(x.idx(n) >= 0, "Sort keeps the nodes")
		}
		x.m, x.v = s.m, s.v
		x.check("Sort")
	}
}

// CheckOps: any list, then any operations.
func CheckOps() {
	x := &model{l: stl.NewIntList()}
	n := sym.Choice("n", sym.Bound(5, 6))
	for i := 0; i < n; i++ {
		v := sym.Int("v")
		x.ins(i, x.l.PushBack(v), v)
	}
	x.check("filling")
	k := 2
	if n <= 3 {
		k = sym.Bound(2, 3)
	}
	for ; k > 0; k-- {
		x.op()
	}
	sym.Cover("done")
}

// CheckRemoved: from a list with nodes taken out, any two operations.
func CheckRemoved() {
	x := &model{l: stl.NewIntList()}
	n := 1 + sym.Choice("n", 3)
	for i := 0; i < n; i++ {
		v := sym.Int("v")
		x.ins(i, x.l.PushFront(v), v)
		if i > 0 { // PushFront: keep the model in order
			nd, w := x.del(i)
			x.ins(0, nd, w)
		}
	}
	i := sym.Choice("rm", n)
	x.l.Remove(x.m[i])
	nd, _ := x.del(i)
	x.gone(nd)
	x.op()
	x.op()
	sym.Cover("done")
}

// CheckLarge: one operation on a longer list.
func CheckLarge() {
	x := &model{l: stl.NewIntList()}
	n := []int{6, 7, 8, 9, 17, 33, 64}[sym.Choice("n", sym.Bound(5, 7))]
	for i := 0; i < n; i++ {
		v := i * 7 % 10
		x.ins(i, x.l.PushBack(v), v)
	}
	x.check("filling")
	x.op()
	sym.Cover("done")
}

// CheckVisitor: a visitor that turns round.
//
// bound: CheckVisitor: lists of 2..6 nodes, every place to turn round in
func CheckVisitor() {
	x := &model{l: &stl.IntList{}}
	n := 2 + sym.Choice("n", 5)
	for i := 0; i < n; i++ {
		v := sym.Int("v")
		x.ins(i, x.l.PushBack(v), v)
	}
	k := 1 + sym.Choice("turn", n-1)
	v, w := x.l.Visitor(), x.l.Visitor()
	for i := 0; i <= k; i++ {
		v.Next()
		w.Prev()
	}
	for i := k - 1; i >= 0; i-- {
		sym.Assert(v.Prev() && v.Get() == x.m[i], "a visitor going back meets the nodes it came from")
		sym.Assert(w.Next() && w.Get() == x.m[n-1-i], "a visitor going forth again meets the nodes it came from")
	}
	x.check("visiting")
	sym.Cover("done")
}

// CheckLong: single operations on long lists.
//
// bound: CheckLong: lists of 40,150,600,2100 (thorough also 9000) nodes of which 1 arbitrary; whole-list operations, and moves and removals of the first, middle and last node
func CheckLong() {
	x := &model{l: stl.NewIntList()}
	fill := func(x *model, n int) {
		for i := 0; i < n; i++ {
			v := i * 7 % 60
			if i == n/2 {
				v = sym.Int("v")
			}
			x.m, x.v = append(x.m, x.l.PushBack(v)), append(x.v, v)
		}
	}
	n := []int{40, 150, 600, 2100, 9000}[sym.Choice("n", sym.Bound(4, 5))]
	fill(x, n)
	at := []int{0, n / 2, n - 1}[sym.Choice("at", 3)]
	switch sym.Choice("op", 7) {
	case 0:
		x.l.Reverse()
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			x.m[i], x.m[j] = x.m[j], x.m[i]
			x.v[i], x.v[j] = x.v[j], x.v[i]
		}
	case 1:
		o := &model{l: stl.NewIntList()}
		fill(o, 100)
		x.l.InsertBackList(o.l)
		x.m, x.v = append(x.m, o.m...), append(x.v, o.v...)
	case 2:
		o := &model{l: stl.NewIntList()}
		fill(o, 100)
		x.l.InsertFrontList(o.l)
		x.m, x.v = append(o.m, x.m...), append(o.v, x.v...)
	case 3:
		x.l.Remove(x.m[at])
		x.del(at)
	case 4:
		nd, v := x.del(at)
		x.l.MoveFront(nd)
		x.ins(0, nd, v)
	case 5:
		nd, v := x.del(at)
		x.l.MoveBack(nd)
		x.ins(n-1, nd, v)
	case 6:
		sym.Assert(x.l.IsValidNode(x.m[at]), "a node of the list is valid")
		sym.Assert(x.l.Reachable(x.m[at], x.m[n-1]) && x.l.Reachable(x.m[n-1], x.m[at]), "every node is reachable")
		nd := x.l.Remove(x.m[at])
		x.del(at)
		sym.Assert(!x.l.IsValidNode(nd), "a removed node is not valid")
	}
	x.check("an operation on a long list")
	sym.Cover("done")
}
