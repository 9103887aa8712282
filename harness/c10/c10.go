// Package c10: sorting the singly linked list.
//
// bound: CheckSort: 0..7 (thorough 8) nodes with arbitrary 64-bit values; CheckDeep: 7..40 (thorough ..100) nodes of which 1 (thorough 2) arbitrary
package c10

import (
	"github.com/vipally/gx/stl"

	"verif/hx"
	"verif/sym"
)

func run(in []int) {
	l := stl.NewIntSList()
	nodes := make([]*stl.IntSListNode, len(in))
	for i := len(in) - 1; i >= 0; i-- {
		nodes[i] = l.PushFront(in[i])
	}
	l.Sort()
	var out []*stl.IntSListNode
	n := l.Front()
	for i := 0; i < len(in); i++ {
		sym.Assert(n != nil, "Sort keeps every element")
		out = append(out, n)
		n = n.Next()
	}
	sym.Assert(n == nil, "the list ends after Sort")
	pos := make([]int, len(out))
	seen := make([]bool, len(in))
	for i, o := range out {
		pos[i] = -1
		for k, nd := range nodes {
			if nd == o {
				pos[i] = k
			}
		}
		sym.Assert(pos[i] >= 0 && !seen[pos[i]], "Sort keeps the nodes")
		seen[pos[i]] = true
		sym.Assert(o.Get() == in[pos[i]], "nodes keep their values")
	}
	ok := true
	for i := 1; i < len(out); i++ {
		x, y := in[pos[i-1]], in[pos[i]]
		if pos[i-1] < pos[i] {
			ok = sym.And(ok, x <= y)
		} else {
			ok = sym.And(ok, x < y)
		}
	}
	sym.Assert(ok, "Sort orders ascending and is stable")
	sym.Cover("done")
}

func CheckSort() { run(hx.Ints("v", sym.Choice("n", 1+sym.Bound(7, 8)))) }

func CheckDeep() {
	n := []int{7, 8, 9, 15, 16, 17, 31, 33, 40, 64, 65, 100}[sym.Choice("n", sym.Bound(9, 12))]
	step := []int{1, 5, 11, 0, n + 1}[sym.Choice("step", 5)]
	run(hx.Mixed("v", n, sym.Bound(1, 2), step))
}

// CheckLong: long lists.
//
// bound: CheckLong: 64,65,100,130,257,300 (thorough also 600) nodes in scrambled or descending order, with many or few different values, of which 1 arbitrary
func CheckLong() {
	n := []int{64, 65, 100, 130, 257, 300, 600}[sym.Choice("n", sym.Bound(6, 7))]
	in := hx.Mixed("v", n, 0, []int{37, n + 1}[sym.Choice("step", 2)])
	if sym.Choice("few", 2) == 1 {
		for i := range in {
			in[i] %= 4
		}
	}
	in[[]int{0, n / 2, n - 1}[sym.Choice("at", 3)]] = sym.Int("v")
	run(in)
}

// CheckHuge: very long lists.
//
// bound: CheckHuge: 1030 and 4200 (thorough also 17000 and 66000) nodes in scrambled, ascending or descending order and one with any value below, between or above the others; and as many with three different values
func CheckHuge() {
	n := []int{1030, 4200, 17000, 66000}[sym.Choice("n", sym.Bound(2, 4))]
	l := stl.NewIntSList()
	nodes := map[*stl.IntSListNode]int{}
	var in, want []int
	few := sym.Choice("few", 2) == 1
	if few {
		for i := 0; i < n; i++ {
			in = append(in, i*i%3)
		}
	} else {
		in, want = hx.Huge(n)
	}
	for i := len(in) - 1; i >= 0; i-- {
		nodes[l.PushFront(in[i])] = i
	}
	l.Sort()
	x := l.Front()
	last, pos := 0, 0
	for i := range in {
		k, ok := nodes[x]
		sym.Assert(ok, "Sort keeps every element")
		delete(nodes, x)
		v := x.Get()
		if few {
			sym.Assert(v == in[k] && (i == 0 || last < v || last == v && pos < k), "Sort orders ascending and is stable")
		} else {
			sym.Assert(v == want[i], "Sort orders ascending")
		}
		last, pos = v, k
		x = x.Next()
	}
	sym.Assert(x == nil, "Sort adds no element")
	sym.Cover("done")
}
