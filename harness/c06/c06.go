// Package c06: the heap algorithms on slices.
//
// bound: slices of 0..6 (thorough 0..7) arbitrary 64-bit ints, min-top and max-top; CheckDeep: lengths 8,9,15,16,17,24,31,40 (thorough also 63,70) with 1 (thorough 2) arbitrary elements
package c06

import (
	"github.com/vipally/gx/stl"

	"verif/hx"
	"verif/sym"
)

// valid: no child precedes its parent.
func valid(maxTop bool, b []int) bool {
	ok := true
	for i := 1; i < len(b); i++ {
		p := b[(i-1)/2]
		if maxTop {
			ok = sym.And(ok, p >= b[i])
		} else {
			ok = sym.And(ok, p <= b[i])
		}
	}
	return ok
}

// Heap is the algorithms of a heap of ints.
type Heap interface {
	MakeHeap(b []int)
	SortHeap(b []int) []int
	Reverse(b []int)
	CheckHeap(b []int) bool
	PushHeap(b []int, v int) []int
	PopHeap(b []int) (h []int, top int, ok bool)
}

// Algorithms is CheckAlgorithms for any implementation.
func Algorithms(h Heap, maxTop bool, in []int) {
	b := hx.Clone(in)
	switch sym.Choice("alg", 5) {
	case 0:
		h.MakeHeap(b)
		sym.Assert(valid(maxTop, b), "MakeHeap makes a heap")
		sym.Assert(hx.Perm(in, b), "MakeHeap permutes")
		sym.Assert(h.CheckHeap(b), "CheckHeap accepts what MakeHeap made")
	case 1:
		r := h.SortHeap(b)
		sym.Assert(hx.Sorted(r, !maxTop), "SortHeap sorts: ascending for max-top, descending for min-top")
		sym.Assert(hx.Perm(in, r), "SortHeap permutes")
		sym.Assert(hx.Eq(r, b), "SortHeap sorts in place")
	case 2:
		h.Reverse(b)
		ok := len(b) == len(in)
		for i := range b {
			ok = sym.And(ok, b[i] == in[len(in)-1-i])
		}
		sym.Assert(ok, "Reverse reverses")
	case 3:
		h.MakeHeap(b)
		v := sym.Int("pushed")
		r := h.PushHeap(b, v)
		sym.Assert(valid(maxTop, r), "PushHeap keeps a heap")
		sym.Assert(hx.Perm(append(hx.Clone(in), v), r), "PushHeap adds the value")
	case 4:
		h.MakeHeap(b)
		r, top, ok := h.PopHeap(b)
		sym.Assert(ok == (len(in) > 0), "PopHeap ok iff non-empty")
		sym.Assert(valid(maxTop, r), "PopHeap keeps a heap")
		if ok {
			for _, x := range in {
				if maxTop {
					sym.Assert(top >= x, "PopHeap returns the top")
				} else {
					sym.Assert(top <= x, "PopHeap returns the top")
				}
			}
			sym.Assert(hx.Perm(in, append(hx.Clone(r), top)), "PopHeap removes just the top")
		}
	}
	sym.Cover("done")
}

func CheckAlgorithms() {
	maxTop := sym.Choice("maxTop", 2) == 1
	Algorithms(stl.NewIntHeap(0, 0, maxTop), maxTop, hx.Ints("v", sym.Choice("n", 1+sym.Bound(6, 7))))
}

func CheckDeep() {
	maxTop := sym.Choice("maxTop", 2) == 1
	n := []int{8, 9, 15, 16, 17, 24, 31, 40, 63, 70}[sym.Choice("n", sym.Bound(8, 10))]
	step := []int{1, 5, n + 1}[sym.Choice("step", 3)]
	Algorithms(stl.NewIntHeap(0, 0, maxTop), maxTop, hx.Mixed("v", n, sym.Bound(1, 2), step))
}

// CheckCheckHeap: CheckHeap decides heap order for any slice.
func CheckCheckHeap() {
	maxTop := sym.Choice("maxTop", 2) == 1
	b := hx.Ints("v", sym.Choice("n", 1+sym.Bound(12, 24)))
	h := stl.NewIntHeap(0, 0, maxTop)
	sym.Assert(h.CheckHeap(b) == valid(maxTop, b), "CheckHeap iff heap order")
	sym.Cover("done")
}

// CheckBig: slices of many elements.
//
// bound: CheckBig: 65, 130, 300 (thorough also 600) elements in scrambled, ascending, descending or all equal order, the pushed one arbitrary
func CheckBig() {
	maxTop := sym.Choice("maxTop", 2) == 1
	n := []int{65, 130, 300, 600}[sym.Choice("n", sym.Bound(3, 4))]
	step := []int{1, 37, n + 1, 0}[sym.Choice("step", 4)]
	Algorithms(stl.NewIntHeap(0, 0, maxTop), maxTop, hx.Mixed("v", n, 0, step))
}

// CheckHuge: very large slices.
//
// bound: CheckHuge: 1030 and 4200 (thorough also 17000 and 66000) elements in scrambled, ascending or descending order and one with any value below, between or above the others
func CheckHuge() {
	maxTop := sym.Choice("maxTop", 2) == 1
	n := []int{1030, 4200, 17000, 66000}[sym.Choice("n", sym.Bound(2, 4))]
	in, want := hx.Huge(n)
	h := stl.NewIntHeap(0, 0, maxTop)
	b := hx.Clone(in)
	h.MakeHeap(b)
	sym.Assert(len(b) == n+1 && valid(maxTop, b) && h.CheckHeap(b), "MakeHeap makes a heap")
	r := h.SortHeap(b)
	if !maxTop {
		h.Reverse(r)
	}
	sym.Assert(hx.Eq(r, want), "SortHeap sorts: ascending for max-top, descending for min-top")
	sym.Cover("done")
}
