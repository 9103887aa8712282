// Package c03: the stack is last-in first-out.
//
// bound: CheckHistory: every operation sequence of length 6 (thorough 8) from a zero-value stack or a new one with bufSize -2..3; element values arbitrary 64-bit ints
// bound: CheckBig: 7..9000 pushes with interleaved pops, then drained
package c03

import (
	"github.com/vipally/gx/stl"

	"verif/sym"
)

type model struct {
	s *stl.IntStack
	m []int
}

func (x *model) check(where string) {
	s, m := x.s, x.m
	sym.Assert(s.Size() == len(m), where+": Size is the number of elements held")
	sym.Assert(s.Empty() == (len(m) == 0), where+": Empty iff no elements")
	t, ok := s.Top()
	sym.Assert(ok == (len(m) > 0), where+": Top ok iff non-empty")
	if ok {
		sym.Assert(t == m[len(m)-1], where+": Top is the newest element")
	}
}

func (x *model) push() {
	v := sym.Int("v")
	sym.Assert(x.s.Push(v), "Push succeeds")
	x.m = append(x.m, v)
}

func (x *model) pop() {
	v, ok := x.s.Pop()
	sym.Assert(ok == (len(x.m) > 0), "Pop ok iff non-empty")
	if ok {
		sym.Assert(v == x.m[len(x.m)-1], "Pop returns the newest element")
		x.m = x.m[:len(x.m)-1]
	}
}

func (x *model) drain() {
	for n := len(x.m); n >= 0; n-- {
		x.pop()
	}
	x.check("after draining")
}

// CheckHistory runs every short history.
func CheckHistory() {
	x := &model{}
	if b := sym.Choice("buf", 7); b == 6 {
		x.s = &stl.IntStack{}
	} else {
		x.s = stl.NewGOGPStackNamePrefixStack(b - 2)
	}
	x.check("new")
	for i := sym.Bound(6, 8); i > 0; i-- {
		switch sym.Choice("op", 4) {
		case 0:
			x.push()
		case 1:
			x.pop()
		case 2:
			x.s.Clear()
			x.m = nil
		case 3:
			x.s.Init(sym.Choice("rebuf", 2) * 5)
			x.m = nil
		}
		x.check("after an operation")
	}
	x.drain()
	sym.Cover("done")
}

// CheckBig is a long history.
func CheckBig() {
	x := &model{s: stl.NewGOGPStackNamePrefixStack([]int{-1, 0, 1, 9}[sym.Choice("buf", 4)])}
	n := []int{7, 8, 9, 10, 11, 33, 130, 257, 1030, 2100, 4100, 9000}[sym.Choice("n", sym.Bound(12, 12))]
	every := []int{0, 3, 2}[sym.Choice("every", 3)]
	for i := 0; i < n; i++ {
		x.push()
		if every > 0 && i%every == 1 {
			x.pop()
		}
	}
	x.check("after pushes")
	x.drain()
	x.push()
	x.check("after refilling")
	sym.Cover("done")
}

// CheckTwo: two stacks worked on in turn do not touch each other.
//
// bound: CheckTwo: two stacks of bufSize 1,4,16, grown to 1,5,17 elements each, shrunk or cleared and refilled in either order
func CheckTwo() {
	c := []int{1, 4, 16}[sym.Choice("buf", 3)]
	n := []int{1, 5, 17}[sym.Choice("n", 3)]
	x, y := &model{s: stl.NewGOGPStackNamePrefixStack(c)}, &model{s: stl.NewGOGPStackNamePrefixStack(c)}
	for i := 0; i < n; i++ {
		x.push()
		y.push()
	}
	for i := 0; i < n*2/3; i++ {
		x.pop()
	}
	switch sym.Choice("op", 3) {
	case 1:
		x.s.Clear()
		x.m = nil
	case 2:
		x.s.Init(3)
		x.m = nil
	}
	for i := sym.Choice("more", 3) * 5; i > 0; i-- {
		y.push()
		x.push()
		if i%2 == 0 {
			y.pop()
		}
	}
	z := &model{s: stl.NewGOGPStackNamePrefixStack(c)}
	for i := 0; i < n; i++ {
		z.push()
	}
	x.check("the first one")
	y.check("the second one")
	x.drain()
	y.drain()
	z.drain()
	sym.Cover("done")
}
