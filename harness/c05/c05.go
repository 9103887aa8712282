// Package c05: a size-limited heap keeps the best N elements.
//
// bound: limit 1..4 (thorough 1..5) and 5 (thorough 6) pushed arbitrary 64-bit ints, min-top and max-top; CheckDeep: limits 1,2,5,7,8,15,16,31 with 40 pushes of which 1 (thorough 2) arbitrary
// bound: CheckHistory: 6 (thorough 7) pushes and pops in any order with limit 1..3
package c05

import (
	"github.com/vipally/gx/stl"

	"verif/hx"
	"verif/sym"
)

// best: kept holds, among all, the smallest (max-top) or biggest (min-top)
// ones.
func best(maxTop bool, all, kept []int) {
	rest, ok := hx.Minus(all, kept)
	sym.Assert(ok, "the kept elements are among those offered")
	ok = true
	for _, r := range rest {
		for _, k := range kept {
			if maxTop {
				ok = sym.And(ok, k <= r)
			} else {
				ok = sym.And(ok, k >= r)
			}
		}
	}
	sym.Assert(ok, "the kept elements are the best ones")
}

func check(h *stl.IntHeap, maxTop bool, limit int, in []int) {
	for i, v := range in {
		h.Push(v)
		sz := i + 1
		if sz > limit {
			sz = limit
		}
		sym.Assert(h.Size() == sz, "Size never exceeds the limit and no slot is wasted")
	}
	var out []int
	for i := 0; i <= limit; i++ {
		v, ok := h.Pop()
		if !ok {
			break
		}
		out = append(out, v)
	}
	sym.Assert(len(out) <= limit && h.Empty(), "at most limit elements are held")
	sym.Assert(len(out) == len(in) || len(out) == limit, "no slot is wasted")
	sym.Assert(hx.Sorted(out, maxTop), "the kept elements come out in order")
	best(maxTop, in, out)
	sym.Cover("done")
}

func CheckLimit() {
	maxTop := sym.Choice("maxTop", 2) == 1
	limit := 1 + sym.Choice("limit", sym.Bound(4, 5))
	h := stl.NewIntHeap(sym.Choice("cap", 2)*3, limit, maxTop)
	check(h, maxTop, limit, hx.Ints("v", sym.Bound(5, 6)))
}

func CheckDeep() {
	maxTop := sym.Choice("maxTop", 2) == 1
	limit := []int{1, 2, 5, 7, 8, 15, 16, 31}[sym.Choice("limit", 8)]
	step := []int{1, 5, 11, 41}[sym.Choice("step", 4)]
	h := stl.NewIntHeap(0, limit, maxTop)
	check(h, maxTop, limit, hx.Mixed("v", 40, sym.Bound(1, 2), step))
}

// CheckHistory: with pops in between, the limit still holds and nothing that
// was offered while there was room is lost.
func CheckHistory() {
	maxTop := sym.Choice("maxTop", 2) == 1
	limit := 1 + sym.Choice("limit", 3)
	h := stl.NewIntHeap(0, limit, maxTop)
	var m []int // elements held
	for i := sym.Bound(6, 7); i > 0; i-- {
		if sym.Choice("op", 2) == 0 {
			v := sym.Int("v")
			h.Push(v)
			m = append(m, v)
			if len(m) > limit { // the worst one goes
				left := hx.Clone(h.Buffer())
				sym.Assert(len(left) == limit, "the heap stays full")
				best(maxTop, m, left)
				m = left
			}
		} else {
			v, ok := h.Pop()
			sym.Assert(ok == (len(m) > 0), "Pop ok iff non-empty")
			if ok {
				m, ok = hx.Minus(m, []int{v})
				sym.Assert(ok, "Pop returns an element held")
			}
		}
		sym.Assert(h.Size() == len(m), "Size never exceeds the limit")
		sym.Assert(hx.Perm(m, hx.Clone(h.Buffer())), "the heap holds the best of what was offered")
	}
	sym.Cover("done")
}

// CheckHuge: a large limit.
//
// bound: CheckHuge: limits of 100, 1000 and 4000 over 4201 elements in scrambled, ascending or descending order of which one with any value below, between or above the others
func CheckHuge() {
	maxTop := sym.Choice("maxTop", 2) == 1
	limit := []int{100, 1000, 4000}[sym.Choice("limit", 3)]
	in, want := hx.Huge(4200)
	h := stl.NewIntHeap(0, limit, maxTop)
	for _, v := range in {
		h.Push(v)
	}
	sym.Assert(h.Size() == limit, "Size never exceeds the limit and no slot is wasted")
	for i := 0; i < limit; i++ {
		w := want[len(want)-limit+i]
		if maxTop {
			w = want[limit-1-i]
		}
		v, ok := h.Pop()
		sym.Assert(ok && v == w, "the kept elements are the best ones and come out in order")
	}
	sym.Assert(h.Empty(), "at most limit elements are held")
	sym.Cover("done")
}
