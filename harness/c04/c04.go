// Package c04: the heap pops its elements in priority order.
//
// bound: CheckHistory: every interleaving of 7 (thorough 9) Push/Pop operations, min-top and max-top, values arbitrary 64-bit ints
// bound: CheckSort: 6 (thorough 8) arbitrary values pushed and drained
// bound: CheckDeep: heaps of 7,15,16,24,31,33 (thorough also 63,64,100) elements of which 1 (thorough 2) arbitrary, drained with a re-push in between
package c04

import (
	"github.com/vipally/gx/stl"

	"verif/hx"
	"verif/sym"
)

func before(maxTop bool, a, b int) bool {
	if maxTop {
		return a >= b
	}
	return a <= b
}

// takeTop: v is at the top of m: an element no other element precedes. The
// rest is returned.
func takeTop(maxTop bool, m []int, v int, what string) []int {
	rest, in := hx.Minus(m, []int{v})
	sym.Assert(in, what+" returns an element held")
	ok := true
	for _, x := range rest {
		ok = sym.And(ok, before(maxTop, v, x))
	}
	sym.Assert(ok, what+" returns the top element")
	return rest
}

func CheckHistory() {
	maxTop := sym.Choice("maxTop", 2) == 1
	var h *stl.IntHeap
	switch sym.Choice("new", 3) {
	case 0:
		h = stl.NewIntHeap(0, 0, maxTop)
	case 1:
		h = stl.NewIntHeap(4, 0, maxTop)
	case 2: // a used heap, initialised again
		h = stl.NewIntHeap(2, 1, !maxTop)
		h.Push(1)
		h.Init(0, 0, maxTop)
	}
	var m []int
	for i := sym.Bound(7, 9); i > 0; i-- {
		if sym.Choice("op", 2) == 0 {
			v := sym.Int("v")
			h.Push(v)
			m = append(m, v)
		} else {
			v, ok := h.Pop()
			sym.Assert(ok == (len(m) > 0), "Pop ok iff non-empty")
			if ok {
				m = takeTop(maxTop, m, v, "Pop")
			}
		}
		sym.Assert(h.Size() == len(m), "Size counts the elements")
		sym.Assert(h.Empty() == (len(m) == 0), "Empty iff no elements")
		t, ok := h.Top()
		sym.Assert(ok == (len(m) > 0), "Top ok iff non-empty")
		if ok {
			takeTop(maxTop, m, t, "Top")
		}
		sym.Assert(h.CheckHeap(h.Buffer()), "the buffer is a heap")
	}
	sym.Cover("done")
}

func drain(h *stl.IntHeap, max int) (out []int) {
	for i := 0; i <= max; i++ {
		v, ok := h.Pop()
		if !ok {
			return
		}
		out = append(out, v)
	}
	sym.Assert(false, "Pop ends after Size elements")
	return
}

func CheckSort() {
	maxTop := sym.Choice("maxTop", 2) == 1
	h := stl.NewIntHeap(3, 0, maxTop)
	in := hx.Ints("v", sym.Bound(6, 8))
	for _, v := range in {
		h.Push(v)
	}
	out := drain(h, len(in))
	sym.Assert(hx.Sorted(out, maxTop), "elements come out in order")
	sym.Assert(hx.Perm(in, out), "exactly the pushed elements come out")
	sym.Cover("done")
}

func CheckDeep() {
	maxTop := sym.Choice("maxTop", 2) == 1
	n := []int{7, 15, 16, 24, 31, 33, 63, 64, 100}[sym.Choice("n", sym.Bound(6, 9))]
	step := []int{1, 5, 11, -1}[sym.Choice("step", 4)]
	if step < 0 {
		step = n + 1 // descending
	}
	in := hx.Mixed("v", n, sym.Bound(1, 2), step)
	h := stl.NewIntHeap(0, 0, maxTop)
	for _, v := range in {
		h.Push(v)
	}
	var first []int
	for i := 0; i < n/3; i++ {
		v, _ := h.Pop()
		first = append(first, v)
	}
	sym.Assert(hx.Sorted(first, maxTop), "elements come out in order")
	for _, v := range first {
		h.Push(v)
	}
	out := drain(h, n)
	sym.Assert(hx.Sorted(out, maxTop), "elements come out in order after a re-push")
	sym.Assert(hx.Perm(in, out), "exactly the pushed elements come out")
	sym.Cover("done")
}

// CheckTwo: two heaps worked on in turn do not touch each other.
//
// bound: CheckTwo: two heaps of opposite kinds with 1 arbitrary value each among 9
func CheckTwo() {
	maxTop := sym.Choice("maxTop", 2) == 1
	c := sym.Choice("cap", 2) * 16
	a, b := stl.NewIntHeap(c, 0, maxTop), stl.NewIntHeap(c, 0, !maxTop)
	in, jn := hx.Mixed("v", 9, 1, 4), hx.Mixed("w", 9, 1, 5)
	for i := range in {
		a.Push(in[i])
		b.Push(jn[i])
	}
	if sym.Choice("again", 2) == 1 {
		a.Init(sym.Choice("recap", 2)*20, 0, maxTop)
		for _, v := range in {
			a.Push(v)
		}
	}
	out := drain(a, len(in))
	put := drain(b, len(jn))
	sym.Assert(hx.Sorted(out, maxTop) && hx.Perm(in, out), "the first heap gives its elements in order")
	sym.Assert(hx.Sorted(put, !maxTop) && hx.Perm(jn, put), "the second heap gives its elements in order")
	sym.Cover("done")
}

// CheckBig is a heap of many elements, some of them popped between.
//
// bound: CheckBig: 70, 130 or 300 (thorough 600) elements in scrambled, ascending or descending order of which 1 arbitrary
func CheckBig() {
	maxTop := sym.Choice("maxTop", 2) == 1
	n := []int{70, 130, 300, 600}[sym.Choice("n", sym.Bound(3, 4))]
	step := []int{1, 37, n + 1}[sym.Choice("step", 3)]
	in := hx.Mixed("v", n, 0, step)
	h := stl.NewIntHeap(0, 0, maxTop)
	var early []int
	for i, v := range in {
		if i == n*2/3 {
			v = sym.Int("v")
			in[i] = v
		}
		h.Push(v)
		if i%16 == 15 {
			t, ok := h.Top()
			w, _ := h.Pop()
			sym.Assert(sym.And(ok, t == w), "Pop gives the top")
			early = append(early, w)
		}
	}
	sym.Assert(h.CheckHeap(h.Buffer()), "the buffer is a heap")
	out := drain(h, n)
	sym.Assert(hx.Sorted(out, maxTop), "elements come out in order")
	sym.Assert(hx.Perm(in, append(early, out...)), "exactly the pushed elements come out")
	sym.Cover("done")
}

// CheckHuge: very many elements.
//
// bound: CheckHuge: 1030 and 4200 (thorough also 17000 and 66000) elements in scrambled, ascending or descending order and one with any value below, between or above the others
func CheckHuge() {
	maxTop := sym.Choice("maxTop", 2) == 1
	n := []int{1030, 4200, 17000, 66000}[sym.Choice("n", sym.Bound(2, 4))]
	in, want := hx.Huge(n)
	h := stl.NewIntHeap(0, 0, maxTop)
	for _, v := range in {
		h.Push(v)
	}
	sym.Assert(h.Size() == n+1, "Size counts")
	for i := range want {
		w := want[i]
		if maxTop {
			w = want[n-i]
		}
		t, ok := h.Top()
		v, ok2 := h.Pop()
		sym.Assert(ok && ok2 && t == w && v == w, "elements come out in order")
	}
	sym.Assert(h.Empty(), "nothing else comes out")
	sym.Cover("done")
}
