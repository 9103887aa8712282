// Package c45: instances of the container templates with settings the
// shipped instances do not have.
//
// instance: stl/gp/functorcmp.gp verifgp VALUE_TYPE=int GLOBAL_NAME_PREFIX=T
// instance: stl/gp/slist.gp verifgp VALUE_TYPE=int GLOBAL_NAME_PREFIX=T GOGP_HasTail=true
// instance: stl/gp/functorcmp.gp verifgp VALUE_TYPE=int GLOBAL_NAME_PREFIX=G GOGP_DefaultCmpType=Greater
// instance: stl/gp/list.gp verifgp VALUE_TYPE=int GLOBAL_NAME_PREFIX=G GOGP_DefaultCmpType=Greater
// instance: stl/gp/slist.gp verifgp VALUE_TYPE=int GLOBAL_NAME_PREFIX=G GOGP_DefaultCmpType=Greater
// instance: stl/gp/sort_slice.gp verifgp VALUE_TYPE=int GLOBAL_NAME_PREFIX=G GOGP_DefaultCmpType=Greater
// instance: stl/gp/functorcmp.gp verifgp VALUE_TYPE=int GLOBAL_NAME_PREFIX=S
// instance: stl/gp/heap.gp verifgp VALUE_TYPE=int GLOBAL_NAME_PREFIX=S
// instance: @c45/pair.go.txt verifgp
// instance: stl/gp/functorcmp.gp verifgp VALUE_TYPE=Pair GLOBAL_NAME_PREFIX=P GOGP_HasCmpFunc=true
// instance: stl/gp/list.gp verifgp VALUE_TYPE=Pair GLOBAL_NAME_PREFIX=P GOGP_HasCmpFunc=true
// instance: stl/gp/slist.gp verifgp VALUE_TYPE=Pair GLOBAL_NAME_PREFIX=P GOGP_HasCmpFunc=true GOGP_HasTail=true
// instance: stl/gp/sort_slice.gp verifgp VALUE_TYPE=Pair GLOBAL_NAME_PREFIX=P GOGP_HasCmpFunc=true
// instance: stl/gp/heap.gp verifgp VALUE_TYPE=Pair GLOBAL_NAME_PREFIX=P GOGP_HasCmpFunc=true
// instance: stl/gp/functorcmp.gp verifgp VALUE_TYPE=*PTreeNode GLOBAL_NAME_PREFIX=PTreeNode GOGP_HasCmpFunc=true
// instance: stl/gp/sort_slice.gp verifgp VALUE_TYPE=*PTreeNode GLOBAL_NAME_PREFIX=PTreeNode GOGP_HasCmpFunc=true
// instance: stl/gp/tree.gp verifgp VALUE_TYPE=Pair GLOBAL_NAME_PREFIX=P GOGP_HasCmpFunc=true
//
// bound: the singly linked list with a tail: every list of 0..4 nodes (thorough 0..5) filled from the front or the back, followed by 2 (thorough 3 for up to 2 nodes) arbitrary operations out of 20 kinds with every choice of node and mark and other list (0..2 nodes); element values arbitrary 64-bit ints
// bound: CheckHeapSTL: heaps with the algorithm of the STL, slices of 0..5 (thorough 6) arbitrary ints and of 8..31 (thorough 70) ints with 1 (thorough 2) arbitrary, heaps with a limit of 0..3 and 5 (thorough 6) pushes
// bound: CheckGreater: lists, singly linked lists and slices of 0..4 (thorough 5) arbitrary ints with the order Greater; CheckPair: lists, singly linked lists with a tail, slices, heaps and trees of 0..4 (thorough 5) pairs ordered by an arbitrary key
package c45

import (
	gp "github.com/vipally/gx/verifgp"

	"verif/c06"
	"verif/hx"
	"verif/sym"
)

type node = gp.TSListNode

type model struct {
	l    *gp.TSList
	m    []*node
	v    []int
	away []*node
	was  []int // their values
}

func (x *model) gone(n *node) {
	x.away, x.was = append(x.away, n), append(x.was, n.Get())
}

func (x *model) check(where string) {
	for i, n := range x.away {
		sym.Assert(n.Get() == x.was[i], where+": a node taken out keeps its value")
		sym.Assert(!x.l.IsValidNode(n), where+": a node taken out stays out")
	}
	n := len(x.m)
	sym.Assert(x.l.Empty() == (n == 0), where+": Empty iff no elements")
	sym.Assert(x.l.Len() == n, where+": Len counts the elements")
	if n > 0 {
		sym.Assert(x.l.Back() == x.m[n-1], where+": Back is the last node")
	} else {
		sym.Assert(x.l.Back() == nil && x.l.Front() == nil, where+": no first and last node of an empty list")
	}
	p := x.l.Front()
	for i := range x.m {
		sym.Assert(p == x.m[i], where+": Next follows the sequence")
		sym.Assert(p.Get() == x.v[i], where+": values stay with their nodes")
		p = p.Next()
	}
	sym.Assert(p == nil, where+": the list ends")
	v := x.l.Visitor()
	for i := range x.m {
		sym.Assert(v.Next(), where+": the visitor reaches every node")
		sym.Assert(v.Get() == x.m[i], where+": the visitor goes in order")
	}
	sym.Assert(!v.Next(), where+": the visitor stops at the end")
	t, size := x.l.Front().Tail()
	sym.Assert(size == n, where+": Tail counts the elements")
	if n > 0 {
		sym.Assert(t == x.m[n-1], where+": Tail is the last node")
	}
	sym.Assert(!x.l.HasCycle(x.l.Front()), where+": no cycle")
}

func (x *model) ins(i int, n *node, v int) {
	m := append([]*node(nil), x.m[:i]...)
	m = append(m, n)
	x.m = append(m, x.m[i:]...)
	w := append([]int(nil), x.v[:i]...)
	w = append(w, v)
	x.v = append(w, x.v[i:]...)
}

func (x *model) del(i int) (*node, int) {
	n, v := x.m[i], x.v[i]
	x.m = append(append([]*node(nil), x.m[:i]...), x.m[i+1:]...)
	x.v = append(append([]int(nil), x.v[:i]...), x.v[i+1:]...)
	return n, v
}

func (x *model) idx(n *node) int {
	for i, k := range x.m {
		if k == n {
			return i
		}
	}
	return -1
}

func (x *model) pick() int {
	if len(x.m) == 0 {
		sym.Skip()
	}
	return sym.Choice("node", len(x.m))
}

func (x *model) fresh(n *node, v int, what string) *node {
	sym.Assert(n != nil && x.idx(n) < 0, what+" makes a new node")
	sym.Assert(n.Get() == v, what+" stores the value")
	return n
}

func (x *model) op() {
	switch sym.Choice("op", 20) {
	case 0:
		v := sym.Int("v")
		x.ins(0, x.fresh(x.l.PushFront(v), v, "PushFront"), v)
		x.check("PushFront")
	case 1:
		v, ok := x.l.PopFront()
		sym.Assert(ok == (len(x.m) > 0), "PopFront ok iff non-empty")
		if ok {
			n, w := x.del(0)
			sym.Assert(v == w, "PopFront returns the first value")
			x.gone(n)
		}
		x.check("PopFront")
	case 2:
		r := x.l.RemoveFront()
		sym.Assert((r != nil) == (len(x.m) > 0), "RemoveFront removes iff non-empty")
		if r != nil {
			n, _ := x.del(0)
			sym.Assert(r == n, "RemoveFront returns the first node")
			sym.Assert(r.Next() == nil, "a removed node leads nowhere")
			x.gone(n)
		}
		x.check("RemoveFront")
	case 3:
		i := x.pick()
		sym.Assert(x.l.Remove(x.m[i]) == x.m[i], "Remove returns the node")
		n, _ := x.del(i)
		x.gone(n)
		sym.Assert(n.Next() == nil, "a removed node leads nowhere")
		sym.Assert(x.l.Remove(n) == nil, "a removed node cannot be removed again")
		x.check("Remove")
	case 4:
		v := sym.Int("v")
		i := x.pick()
		x.ins(i+1, x.fresh(x.l.PushAfter(v, x.m[i]), v, "PushAfter"), v)
		x.check("PushAfter")
	case 5:
		i := x.pick()
		n, v := x.m[i], x.v[i]
		x.l.MoveFront(n)
		x.del(i)
		x.ins(0, n, v)
		x.check("MoveFront")
	case 6:
		i := x.pick()
		mark := x.m[sym.Choice("mark", len(x.m))]
		n, v := x.m[i], x.v[i]
		x.l.MoveAfter(n, mark)
		if n != mark {
			x.del(i)
			x.ins(x.idx(mark)+1, n, v)
		}
		x.check("MoveAfter")
	case 7:
		o := &model{l: gp.NewTSList()}
		for k := sym.Choice("other", 3); k > 0; k-- {
			v := sym.Int("v")
			o.ins(0, o.l.PushFront(v), v)
		}
		if sym.Bool("front") {
			x.l.PushFrontList(o.l)
			x.m = append(append([]*node(nil), o.m...), x.m...)
			x.v = append(append([]int(nil), o.v...), x.v...)
		} else {
			x.l.PushBackList(o.l)
			x.m = append(x.m, o.m...)
			x.v = append(x.v, o.v...)
		}
		x.check("pushing a list")
		o = &model{l: o.l}
		o.check("pushing a list: the other one")
		// the two lists do not share nodes afterwards
		o.ins(0, o.l.PushBack(9), 9)
		o.check("using the other list")
		x.check("pushing a list and using the other one")
	case 8:
		x.l.Reverse()
		r := &model{}
		for i := range x.m {
			r.ins(0, x.m[i], x.v[i])
		}
		x.m, x.v = r.m, r.v
		x.check("Reverse")
	case 9:
		x.l.Clear()
		x.m, x.v = nil, nil
		x.check("Clear")
	case 10:
		i := x.pick()
		v := sym.Int("v")
		sym.Assert(x.m[i].Set(v) == x.v[i], "Set returns the old value")
		x.v[i] = v
		x.check("Set")
	case 11:
		i := x.pick()
		sym.Assert(x.l.IsValidNode(x.m[i]), "a node of the list is valid")
		j := sym.Choice("mark", len(x.m))
		sym.Assert(x.l.Reachable(x.m[i], x.m[j]) == (i <= j), "the following nodes are reachable, the preceding are not")
		alien := gp.NewTSList().PushFront(1)
		sym.Assert(!x.l.IsValidNode(alien), "a node of another list is not valid")
		sym.Assert(!x.l.Reachable(x.m[i], alien) && !x.l.Reachable(alien, x.m[i]), "a node of another list is not reachable")
		x.check("Reachable")
	case 12: // put a removed node back
		if len(x.away) == 0 {
			sym.Skip()
		}
		n := x.away[len(x.away)-1]
		x.away, x.was = x.away[:len(x.away)-1], x.was[:len(x.was)-1]
		v := n.Get()
		if sym.Choice("how", 2) == 0 {
			sym.Assert(x.l.InsertFront(n) == n, "InsertFront returns the node")
			x.ins(0, n, v)
		} else {
			i := x.pick()
			sym.Assert(x.l.InsertAfter(n, x.m[i]) == n, "InsertAfter returns the node")
			x.ins(i+1, n, v)
		}
		x.check("inserting a node")
	case 13: // nil arguments change nothing
		sym.Assert(x.l.Remove(nil) == nil, "nothing to remove")
		x.l.InsertFront(nil)
		x.l.MoveFront(nil)
		x.l.MoveBack(nil)
		x.l.PushFrontList(x.l)
		x.l.PushBackList(x.l)
		sym.Assert(x.l.PushAfter(1, nil) == nil, "no mark, no push")
		x.check("nil arguments")
	case 14: // a node relative to itself; nodes of other lists
		i := x.pick()
		x.l.InsertAfter(x.m[i], x.m[i])
		o := gp.NewTSList()
		alien := o.PushFront(5)
		sym.Assert(x.l.Remove(alien) == nil, "a node of another list cannot be removed")
		sym.Assert(x.l.MoveFront(alien) == nil && x.l.MoveBack(alien) == nil && x.l.MoveAfter(alien, x.m[i]) == nil, "a node of another list cannot be moved")
		sym.Assert(o.Front() == alien && alien.Next() == nil, "the other list is untouched")
		x.check("a node next to itself")
	case 16:
		v := sym.Int("v")
		x.ins(len(x.m), x.fresh(x.l.PushBack(v), v, "PushBack"), v)
		x.check("PushBack")
	case 17:
		v, ok := x.l.PopBack()
		sym.Assert(ok == (len(x.m) > 0), "PopBack ok iff non-empty")
		if ok {
			n, w := x.del(len(x.m) - 1)
			sym.Assert(v == w, "PopBack returns the last value")
			x.gone(n)
		}
		x.check("PopBack")
	case 18:
		i := x.pick()
		n, v := x.m[i], x.v[i]
		x.l.MoveBack(n)
		x.del(i)
		x.ins(len(x.m), n, v)
		x.check("MoveBack")
	case 19: // the last node again and again
		i := x.pick()
		n, v := x.m[i], x.v[i]
		x.l.Remove(n)
		x.del(i)
		x.check("Remove")
		x.l.InsertFront(n)
		x.ins(0, n, v)
		x.check("InsertFront")
	case 15:
		x.l.Sort()
		var s model
		k := 0
		for v := x.l.Visitor(); k <= len(x.m) && v.Next(); k++ {
			s.ins(k, v.Get(), v.Get().Get())
		}
		sym.Assert(k == len(x.m), "Sort keeps the number of elements")
		for _, n := range s.m {
			sym.Assert(x.idx(n) >= 0, "Sort keeps the nodes")
		}
		x.m, x.v = s.m, s.v
		x.check("Sort")
	}
}

func (x *model) fill(n int) {
	back := n > 0 && sym.Bool("from the back")
	for i := 0; i < n; i++ {
		v := sym.Int("v")
		if back {
			x.ins(i, x.l.PushBack(v), v)
		} else {
			x.ins(0, x.l.PushFront(v), v)
		}
	}
}

// CheckTailOps: any list, then any operations.
func CheckTailOps() {
	x := &model{l: gp.NewTSList()}
	n := sym.Choice("n", sym.Bound(5, 6))
	x.fill(n)
	x.check("filling")
	k := 2
	if n <= 2 {
		k = sym.Bound(2, 3)
	}
	for ; k > 0; k-- {
		x.op()
	}
	sym.Cover("done")
}

// CheckTailLarge: one operation on a longer list.
func CheckTailLarge() {
	x := &model{l: gp.NewTSList()}
	n := []int{6, 9, 17, 33}[sym.Choice("n", sym.Bound(3, 4))]
	for i := 0; i < n; i++ {
		v := i * 7 % 10
		x.ins(0, x.l.PushFront(v), v)
	}
	x.op()
	x.l.PushBack(1)
	x.l.PopBack()
	x.check("pushing and popping")
	sym.Cover("done")
}

// CheckTailSort: sorting keeps the tail where it belongs.
func CheckTailSort() {
	x := &model{l: &gp.TSList{}}
	n := sym.Choice("n", sym.Bound(5, 6))
	x.fill(n)
	x.l.Sort()
	var vs []int
	for v := x.l.Visitor(); len(vs) <= n && v.Next(); {
		vs = append(vs, v.Get().Get())
	}
	sym.Assert(hx.Perm(vs, x.v) && hx.Sorted(vs, false), "Sort sorts")
	b := x.l.PushBack(sym.Int("w"))
	sym.Assert(x.l.Back() == b && x.l.Len() == n+1, "pushing after sorting")
	sym.Cover("done")
}

// CheckGreater: instances with the order Greater sort downwards.
func CheckGreater() {
	n := sym.Choice("n", sym.Bound(5, 6))
	vs := hx.Ints("v", n)
	var got []int
	switch sym.Choice("what", 3) {
	case 0:
		l := gp.NewGList()
		for _, v := range vs {
			l.PushBack(v)
		}
		l.Sort()
		for v := l.Visitor(); len(got) <= n && v.Next(); {
			got = append(got, v.Get().Get())
		}
	case 1:
		l := gp.NewGSList()
		for _, v := range vs {
			l.PushFront(v)
		}
		l.Sort()
		for p := l.Front(); p != nil && len(got) <= n; p = p.Next() {
			got = append(got, p.Get())
		}
	case 2:
		s := gp.NewGSortSlice(n)
		for _, v := range vs {
			s.Push(v)
		}
		s.Sort()
		got = s.Buffer()
	}
	sym.Assert(hx.Perm(got, vs), "sorting keeps the elements")
	sym.Assert(hx.Sorted(got, true), "the order Greater sorts downwards")
	sym.Cover("done")
}

// CheckPair: elements with an order of their own.
func CheckPair() {
	n := sym.Choice("n", sym.Bound(5, 6))
	keys := hx.Ints("key", n)
	var got []gp.Pair
	stable := false
	down := false
	switch sym.Choice("what", 6) {
	case 0:
		l := gp.NewPList()
		for i, k := range keys {
			l.PushBack(gp.Pair{k, i})
		}
		l.Sort()
		for v := l.Visitor(); len(got) <= n && v.Next(); {
			got = append(got, v.Get().Get())
		}
		stable = true
	case 1:
		l := gp.NewPSList()
		for i, k := range keys {
			l.PushBack(gp.Pair{k, i})
		}
		l.Sort()
		for p := l.Front(); p != nil && len(got) <= n; p = p.Next() {
			got = append(got, p.Get())
		}
		stable = true
	case 2:
		s := gp.NewPSortSlice(n)
		for i, k := range keys {
			s.Push(gp.Pair{k, i})
		}
		s.Sort()
		got = s.Buffer()
	case 3:
		down = sym.Bool("max top")
		h := gp.NewPHeap(n, 0, down)
		for i, k := range keys {
			h.Push(gp.Pair{k, i})
		}
		for len(got) <= n {
			v, ok := h.Pop()
			if !ok {
				break
			}
			got = append(got, v)
		}
	case 4: // the best three
		down = sym.Bool("max top")
		h := gp.NewPHeap(0, 3, down)
		for i, k := range keys {
			h.Push(gp.Pair{k, i})
		}
		sym.Assert(h.Size() == min(n, 3), "a limited heap holds as many as it may")
		for len(got) <= n {
			v, ok := h.Pop()
			if !ok {
				break
			}
			got = append(got, v)
		}
		ok := true
		for i, k := range keys {
			in := false
			for _, g := range got {
				in = in || g.Tag == i
			}
			for _, g := range got {
				if !in && down {
					ok = sym.And(ok, g.Key <= k)
				} else if !in {
					ok = sym.And(ok, g.Key >= k)
				}
			}
		}
		for i := 1; i < len(got); i++ {
			if down {
				ok = sym.And(ok, got[i-1].Key >= got[i].Key)
			} else {
				ok = sym.And(ok, got[i-1].Key <= got[i].Key)
			}
		}
		sym.Assert(ok, "a limited heap keeps the elements farthest from its top, in order")
		sym.Cover("limited")
		return
	case 5:
		root := &gp.PTreeNode{}
		for i, k := range keys {
			root.AddChild(gp.Pair{k, i}, -1)
		}
		root.SortChildren()
		for _, c := range root.Children() {
			all := c.All()
			sym.Assert(len(all) == 1, "a leaf is itself")
			got = append(got, all[0])
		}
	}
	sym.Assert(len(got) == n, "the number of elements stays")
	seen := make([]bool, n)
	ok := true
	for i, g := range got {
		sym.Assert(g.Tag >= 0 && g.Tag < n && !seen[g.Tag], "every element is there once")
		seen[g.Tag] = true
		ok = sym.And(ok, g.Key == keys[g.Tag])
		if i == 0 {
			continue
		}
		if down {
			ok = sym.And(ok, got[i-1].Key >= g.Key)
		} else {
			ok = sym.And(ok, got[i-1].Key <= g.Key)
		}
		if stable && got[i-1].Tag > g.Tag {
			ok = sym.And(ok, got[i-1].Key != g.Key)
		}
	}
	sym.Assert(ok, "the elements are in the order of their keys")
	sym.Cover("done")
}

// CheckHeapSTL: the other way to adjust a heap.
func CheckHeapSTL() {
	maxTop := sym.Bool("maxTop")
	if sym.Bool("deep") {
		n := []int{8, 9, 16, 31, 40, 70}[sym.Choice("n", sym.Bound(4, 6))]
		step := []int{1, 5, n + 1}[sym.Choice("step", 3)]
		c06.Algorithms(gp.NewSHeap(0, 0, maxTop), maxTop, hx.Mixed("v", n, sym.Bound(1, 2), step))
		return
	}
	c06.Algorithms(gp.NewSHeap(0, 0, maxTop), maxTop, hx.Ints("v", sym.Choice("n", sym.Bound(6, 7))))
}

// CheckHeapLimit: and with a limit.
func CheckHeapLimit() {
	maxTop := sym.Bool("maxTop")
	limit := sym.Choice("limit", 4)
	h := gp.NewSHeap(0, limit, maxTop)
	in := hx.Ints("v", sym.Bound(4, 5))
	for _, v := range in {
		h.Push(v)
	}
	if limit == 0 {
		limit = len(in)
	}
	sym.Assert(h.Size() == limit, "the heap holds as many as it may")
	var out []int
	for len(out) <= limit {
		t, ok1 := h.Top()
		v, ok := h.Pop()
		sym.Assert(ok == ok1 && t == v, "Top is what Pop gives")
		if !ok {
			break
		}
		out = append(out, v)
	}
	sym.Assert(len(out) == limit && h.Empty(), "all of them come out")
	sym.Assert(hx.Sorted(out, maxTop), "in order")
	rest, ok := hx.Minus(in, out)
	sym.Assert(ok, "the elements kept are among those pushed")
	ok = true
	for _, r := range rest {
		for _, k := range out {
			if maxTop {
				ok = sym.And(ok, k <= r)
			} else {
				ok = sym.And(ok, k >= r)
			}
		}
	}
	sym.Assert(ok, "the elements kept are the best ones")
	sym.Cover("done")
}
