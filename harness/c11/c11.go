// Package c11: the sort slice is an indexable sequence that sorts.
//
// bound: CheckOps: slices of 0..4 (thorough 0..5) elements with spare capacity 0..2, then 2 (thorough 3) arbitrary operations with every index -2..len+1; values arbitrary 64-bit ints
// bound: CheckLarge: 1 arbitrary operation on 5..9, 16, 17 and 33 (thorough also 64 and 100) elements, every index
// bound: CheckSort: 0..6 (thorough 7) arbitrary values; CheckDeep: 12..60 (thorough ..200) elements of which 1 (thorough 2) arbitrary
// bound: CheckNodes: the instance for tree nodes, 0..3 nodes, 2 arbitrary operations
package c11

import (
	"github.com/vipally/gx/stl"

	"verif/hx"
	"verif/sym"
)

func check(s *stl.IntSortSlice, m []int, where string) {
	sym.Assert(s.Len() == len(m), where+": Len counts the elements")
	sym.Assert(len(s.Buffer()) == len(m), where+": Buffer holds the elements")
	for i, v := range m {
		r, ok := s.Get(i)
		sym.Assert(ok && r == v, where+": Get returns the element at the index")
		sym.Assert(s.MustGet(i) == v, where+": MustGet returns the element at the index")
		sym.Assert(s.Buffer()[i] == v, where+": Buffer is in order")
	}
	for _, i := range []int{-1, len(m), len(m) + 1} {
		_, ok := s.Get(i)
		sym.Assert(!ok, where+": no element outside")
		i := i
		sym.Assert(sym.Panics(func() { s.MustGet(i) }), where+": MustGet outside panics")
	}
}

func CheckOps() { ops(sym.Choice("n", sym.Bound(5, 6)), sym.Bound(2, 3)) }

// CheckLarge: one operation on a larger slice.
func CheckLarge() {
	ops([]int{5, 6, 7, 8, 9, 16, 17, 33, 64, 100}[sym.Choice("n", sym.Bound(8, 10))], 1)
}

func ops(n, most int) {
	s := stl.NewIntSortSlice(sym.Choice("cap", 2) * (n + 2))
	var m []int
	for i := 0; i < n; i++ {
		v := sym.Int("v")
		sym.Assert(s.Push(v) == i+1, "Push returns the length")
		m = append(m, v)
	}
	check(s, m, "filling")
	for k := most; k > 0; k-- {
		switch sym.Choice("op", 6) {
		case 0:
			v := sym.Int("v")
			m = append(m, v)
			sym.Assert(s.Push(v) == len(m), "Push returns the length")
			check(s, m, "Push")
		case 1:
			v := sym.Int("v")
			i := sym.Choice("idx", len(m)+4) - 2
			at := i
			if i < 0 || i > len(m) {
				at = len(m)
			}
			r := hx.Clone(m[:at])
			r = append(r, v)
			m = append(r, m[at:]...)
			sym.Assert(s.Insert(v, i) == len(m), "Insert returns the length")
			check(s, m, "Insert")
		case 2:
			i := sym.Choice("idx", len(m)+4) - 2
			v, ok := s.Remove(i)
			sym.Assert(ok == (i >= 0 && i < len(m)), "Remove ok iff the index is inside")
			if ok {
				sym.Assert(v == m[i], "Remove returns the element")
				m = append(hx.Clone(m[:i]), m[i+1:]...)
			}
			check(s, m, "Remove")
		case 3:
			v, ok := s.Pop()
			sym.Assert(ok == (len(m) > 0), "Pop ok iff non-empty")
			if ok {
				sym.Assert(v == m[len(m)-1], "Pop returns the last element")
				m = m[:len(m)-1]
			}
			check(s, m, "Pop")
		case 4:
			if len(m) < 2 {
				sym.Skip()
			}
			i, j := sym.Choice("i", len(m)), sym.Choice("j", len(m))
			sym.Assert(s.Less(i, j) == (m[i] < m[j]), "Less compares the elements")
			s.Swap(i, j)
			m = hx.Clone(m)
			m[i], m[j] = m[j], m[i]
			check(s, m, "Swap")
		case 5:
			s.Init(sym.Choice("recap", 2) * 30)
			m = nil
			check(s, m, "Init")
		}
	}
	sym.Cover("done")
}

func sorted(in []int) {
	s := stl.NewIntSortSlice(0)
	for _, v := range in {
		s.Push(v)
	}
	s.Sort()
	out := hx.Clone(s.Buffer())
	sym.Assert(hx.Sorted(out, false), "Sort orders ascending")
	sym.Assert(hx.Perm(in, out), "Sort permutes")
	sym.Cover("done")
}

func CheckSort() { sorted(hx.Ints("v", sym.Choice("n", 1+sym.Bound(6, 7)))) }

func CheckDeep() {
	n := []int{12, 13, 20, 33, 60, 100, 200}[sym.Choice("n", sym.Bound(5, 7))]
	sorted(hx.Mixed("v", n, sym.Bound(1, 2), []int{1, 5, 11, 0, n + 1}[sym.Choice("step", 5)]))
}

func eq(s *stl.IntTreeNodeSortSlice, m []*stl.IntTreeNode, where string) {
	sym.Assert(s.Len() == len(m) && len(s.Buffer()) == len(m), where+": node slice: Len counts")
	for i, n := range m {
		r, ok := s.Get(i)
		sym.Assert(ok && r == n && s.Buffer()[i] == n, where+": node slice: elements in order")
	}
}

func CheckNodes() {
	parent := &stl.IntTreeNode{}
	s := stl.NewIntTreeNodeSortSlice(sym.Choice("cap", 2) * 4)
	var m []*stl.IntTreeNode
	vals := map[*stl.IntTreeNode]int{}
	node := func() *stl.IntTreeNode {
		v := sym.Int("v")
		n := parent.AddChild(v, -1)
		vals[n] = v
		return n
	}
	for i := sym.Choice("n", 4); i > 0; i-- {
		n := node()
		s.Push(n)
		m = append(m, n)
	}
	eq(s, m, "filling")
	for k := 2; k > 0; k-- {
		switch sym.Choice("op", 4) {
		case 0:
			n := node()
			i := sym.Choice("idx", len(m)+3) - 1
			at := i
			if i < 0 || i > len(m) {
				at = len(m)
			}
			s.Insert(n, i)
			r := append([]*stl.IntTreeNode(nil), m[:at]...)
			m = append(append(r, n), m[at:]...)
			eq(s, m, "Insert")
		case 1:
			i := sym.Choice("idx", len(m)+3) - 1
			r, ok := s.Remove(i)
			sym.Assert(ok == (i >= 0 && i < len(m)), "node slice: Remove ok iff inside")
			if ok {
				sym.Assert(r == m[i], "node slice: Remove returns the element")
				m = append(append([]*stl.IntTreeNode(nil), m[:i]...), m[i+1:]...)
			}
			eq(s, m, "Remove")
		case 2:
			r, ok := s.Pop()
			sym.Assert(ok == (len(m) > 0), "node slice: Pop ok iff non-empty")
			if ok {
				sym.Assert(r == m[len(m)-1], "node slice: Pop returns the last")
				m = m[:len(m)-1]
			}
			eq(s, m, "Pop")
		case 3:
			s.Sort()
			out := append([]*stl.IntTreeNode(nil), s.Buffer()...)
			sym.Assert(len(out) == len(m), "node slice: Sort keeps the elements")
			for i, n := range out {
				found := 0
				for _, o := range out {
					if o == n {
						found++
					}
				}
				_, known := vals[n]
				sym.Assert(found == 1 && known, "node slice: Sort permutes")
				if i > 0 {
					sym.Assert(vals[out[i-1]] <= vals[n], "node slice: Sort orders by value")
				}
			}
			m = out
			eq(s, m, "Sort")
		}
	}
	sym.Cover("done")
}

// CheckHuge: many elements.
//
// bound: CheckHuge: sorting 1030 and 4200 (thorough also 17000 and 66000) elements in scrambled, ascending or descending order and one with any value below, between or above the others, then taking and putting back some
func CheckHuge() {
	n := []int{1030, 4200, 17000, 66000}[sym.Choice("n", sym.Bound(2, 4))]
	in, want := hx.Huge(n)
	s := stl.NewIntSortSlice(0)
	for _, v := range in {
		s.Push(v)
	}
	s.Sort()
	sym.Assert(hx.Eq(want, hx.Clone(s.Buffer())), "Sort orders ascending")
	at := []int{0, n / 3, n - 1, n}[sym.Choice("at", 4)]
	v, ok := s.Remove(at)
	sym.Assert(ok && v == want[at] && s.Len() == n, "Remove takes the element out")
	sym.Assert(s.Insert(v, at) == n+1 && hx.Eq(want, hx.Clone(s.Buffer())), "Insert puts it back")
	v, ok = s.Pop()
	sym.Assert(ok && v == want[n] && s.Len() == n, "Pop takes the last element")
	sym.Cover("done")
}
