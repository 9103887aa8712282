// Package c01: the deque is a double-ended sequence.
//
// bound: CheckState: every ring-buffer state (capacity 1,2,3,4,5,7,8,9,12,16 (thorough also 6,8 by default,10,11,17,18,24,31), every head offset, every fill) followed by 2 arbitrary operations; element values arbitrary 64-bit ints
// bound: CheckHistory: every operation sequence of length 4 (thorough 6) from a new deque with bufSize -1..3
package c01

import (
	"github.com/vipally/gx/stl"

	"verif/sym"
)

type model struct {
	d *stl.IntDeque
	m []int
}

func (x *model) check(where string) {
	d, m := x.d, x.m
	sym.Assert(d.Size() == len(m), where+": Size is the number of elements held")
	sym.Assert(d.Empty() == (len(m) == 0), where+": Empty iff no elements")
	f, ok := d.Front()
	sym.Assert(ok == (len(m) > 0), where+": Front ok iff non-empty")
	if ok {
		sym.Assert(f == m[0], where+": Front is the first element")
	}
	b, ok := d.Back()
	sym.Assert(ok == (len(m) > 0), where+": Back ok iff non-empty")
	if ok {
		sym.Assert(b == m[len(m)-1], where+": Back is the last element")
	}
}

func (x *model) pushBack() {
	v := sym.Int("v")
	sym.Assert(x.d.PushBack(v), "PushBack succeeds")
	x.m = append(x.m, v)
}

func (x *model) pushFront() {
	v := sym.Int("v")
	sym.Assert(x.d.PushFront(v), "PushFront succeeds")
	x.m = append([]int{v}, x.m...)
}

func (x *model) popFront() {
	v, ok := x.d.PopFront()
	sym.Assert(ok == (len(x.m) > 0), "PopFront ok iff non-empty")
	if ok {
		sym.Assert(v == x.m[0], "PopFront returns the first element")
		x.m = x.m[1:]
	}
}

func (x *model) popBack() {
	v, ok := x.d.PopBack()
	sym.Assert(ok == (len(x.m) > 0), "PopBack ok iff non-empty")
	if ok {
		sym.Assert(v == x.m[len(x.m)-1], "PopBack returns the last element")
		x.m = x.m[:len(x.m)-1]
	}
}

func (x *model) op() {
	switch sym.Choice("op", 7) {
	case 0:
		x.pushBack()
		x.check("after PushBack")
	case 1:
		x.pushFront()
		x.check("after PushFront")
	case 2:
		x.popFront()
		x.check("after PopFront")
	case 3:
		x.popBack()
		x.check("after PopBack")
	case 4:
		c := x.d.Cap()
		r := x.d.Shrink()
		sym.Assert(r == (x.d.Cap() < c), "Shrink reports whether it shrank")
		sym.Assert(x.d.Cap() <= c, "Shrink never grows")
		x.check("after Shrink")
	case 5:
		x.d.Clear()
		x.m = nil
		x.check("after Clear")
	case 6:
		x.d.Init(sym.Choice("rebuf", 2) * 5)
		x.m = nil
		x.check("after Init")
	}
}

func (x *model) drain() {
	if sym.Choice("drain", 2) == 0 {
		for n := len(x.m); n >= 0; n-- {
			x.popFront()
		}
	} else {
		for n := len(x.m); n >= 0; n-- {
			x.popBack()
		}
	}
	x.check("after draining")
}

// CheckState reaches every (capacity, offset, fill) of the ring buffer.
func CheckState() {
	caps := []int{1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 0, 6, 10, 11, 17, 18, 24, 31}
	c := caps[sym.Choice("cap", sym.Bound(10, 18))]
	x := &model{d: stl.NewGOGPDequeNamePrefixDeque(c)}
	if c == 0 {
		c = 8
	}
	rot := sym.Choice("rot", c)
	for i := 0; i < rot; i++ {
		x.d.PushBack(i)
		x.d.PopFront()
	}
	fill := sym.Choice("fill", c)
	for i := 0; i < fill; i++ {
		x.pushBack()
	}
	x.check("after fill")
	for i := 2; i > 0; i-- {
		x.op()
	}
	x.drain()
	sym.Cover("done")
}

// CheckHistory runs every short history.
func CheckHistory() {
	x := &model{}
	if b := sym.Choice("buf", 6); b == 5 {
		x.d = &stl.IntDeque{}
	} else {
		x.d = stl.NewGOGPDequeNamePrefixDeque(b - 1)
	}
	x.check("new")
	for i := sym.Bound(4, 6); i > 0; i-- {
		x.op()
	}
	x.drain()
	sym.Cover("done")
}

// CheckLong fills far beyond several growths, with a shrink in between.
//
// bound: CheckLong: up to 70 elements pushed at either end from bufSize 1..9, then shrunk and drained
func CheckLong() {
	x := &model{d: stl.NewGOGPDequeNamePrefixDeque(1 + sym.Choice("buf", 9))}
	n := []int{7, 8, 9, 15, 16, 17, 31, 33, 70}[sym.Choice("n", 9)]
	pat := sym.Choice("pattern", 4)
	for i := 0; i < n; i++ {
		switch {
		case pat == 0 || pat == 2 && i%2 == 0 || pat == 3 && i%3 == 0:
			x.pushBack()
		default:
			x.pushFront()
		}
	}
	x.check("after pushes")
	k := n * sym.Choice("keep", 4) / 4
	for i := 0; i < k; i++ {
		if pat == 1 {
			x.popBack()
		} else {
			x.popFront()
		}
	}
	for i := 0; i < 3; i++ {
		x.d.Shrink()
		x.check("after Shrink")
	}
	x.pushBack()
	x.pushFront()
	x.drain()
}

// CheckBig grows the buffer through many doublings from a rotated state.
//
// bound: CheckBig: 130..4100 (thorough ..9000) elements from bufSize 1,8,9,1000, rotated by 0,1,7,500 first, pushed at the back, the front or alternately, then half popped, shrunk and drained
func CheckBig() {
	x := &model{d: stl.NewGOGPDequeNamePrefixDeque([]int{1, 8, 9, 1000}[sym.Choice("buf", 4)])}
	rot := []int{0, 1, 7, 500}[sym.Choice("rot", 4)]
	for i := 0; i < rot; i++ {
		x.d.PushFront(i)
		x.d.PopBack()
	}
	n := []int{130, 257, 1030, 2100, 4100, 9000}[sym.Choice("n", sym.Bound(5, 6))]
	pat := sym.Choice("pattern", 3)
	base := sym.Int("base")
	var front, back []int
	for i := 0; i < n; i++ {
		v := base
		if i%8 != 0 {
			v = i
		}
		if pat == 0 || pat == 2 && i%2 == 0 {
			x.d.PushBack(v)
			back = append(back, v)
		} else {
			x.d.PushFront(v)
			front = append(front, v)
		}
	}
	for i := len(front) - 1; i >= 0; i-- {
		x.m = append(x.m, front[i])
	}
	x.m = append(x.m, back...)
	x.check("after pushes")
	for i := n - n/4; i > 0; i-- {
		x.popFront()
	}
	x.d.Shrink()
	x.check("after Shrink")
	x.pushFront()
	for n := len(x.m); n >= 0; n-- {
		x.popBack()
	}
	x.check("after draining")
	sym.Cover("done")
}

// CheckTwo: two deques worked on in turn do not touch each other.
//
// bound: CheckTwo: two deques of bufSize 1,4,16, grown to 1,5,17 elements each, shrunk or cleared and refilled in either order
func CheckTwo() {
	c := []int{1, 4, 16}[sym.Choice("buf", 3)]
	n := []int{1, 5, 17}[sym.Choice("n", 3)]
	x, y := &model{d: stl.NewGOGPDequeNamePrefixDeque(c)}, &model{d: stl.NewGOGPDequeNamePrefixDeque(c)}
	for i := 0; i < n; i++ {
		x.pushBack()
		y.pushBack()
	}
	for i := 0; i < n*2/3; i++ {
		x.popFront()
	}
	switch sym.Choice("op", 3) {
	case 0:
		x.d.Shrink()
	case 1:
		x.d.Clear()
		x.m = nil
	case 2:
		x.d.Init(3)
		x.m = nil
	}
	for i := sym.Choice("more", 3) * 5; i > 0; i-- {
		y.pushBack()
		x.pushBack()
		if i%2 == 0 {
			y.popFront()
		}
	}
	z := &model{d: stl.NewGOGPDequeNamePrefixDeque(c)}
	for i := 0; i < n; i++ {
		z.pushBack()
	}
	x.check("the first one")
	y.check("the second one")
	x.drain()
	y.drain()
	z.drain()
	sym.Cover("done")
}
