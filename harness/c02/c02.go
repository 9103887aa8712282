// Package c02: the queue is first-in first-out.
//
// bound: CheckState: every ring-buffer state (capacity 1,2,3,4,5,7,8,9,12,16,24 (thorough also default 8,6,10,11,17,18,31,40), every head offset, every fill) followed by 2 (thorough 3) arbitrary operations; element values arbitrary 64-bit ints
// bound: CheckHistory: every operation sequence of length 5 (thorough 7) from a zero-value queue or a new one with bufSize -1..3
// bound: CheckLong: 7..70 pushes with 0..3 pops interleaved from bufSize 1..9, then shrunk and drained
package c02

import (
	"github.com/vipally/gx/stl"

	"verif/sym"
)

type model struct {
	q *stl.IntQueue
	m []int
}

func (x *model) check(where string) {
	q, m := x.q, x.m
	sym.Assert(q.Size() == len(m), where+": Size is the number of elements held")
	sym.Assert(q.Empty() == (len(m) == 0), where+": Empty iff no elements")
	f, ok := q.Front()
	sym.Assert(ok == (len(m) > 0), where+": Front ok iff non-empty")
	if ok {
		sym.Assert(f == m[0], where+": Front is the oldest element")
	}
	b, ok := q.Back()
	sym.Assert(ok == (len(m) > 0), where+": Back ok iff non-empty")
	if ok {
		sym.Assert(b == m[len(m)-1], where+": Back is the newest element")
	}
}

func (x *model) push() {
	v := sym.Int("v")
	sym.Assert(x.q.Push(v), "Push succeeds")
	x.m = append(x.m, v)
}

func (x *model) pop() {
	v, ok := x.q.Pop()
	sym.Assert(ok == (len(x.m) > 0), "Pop ok iff non-empty")
	if ok {
		sym.Assert(v == x.m[0], "Pop returns the oldest element")
		x.m = x.m[1:]
	}
}

func (x *model) op() {
	switch sym.Choice("op", 5) {
	case 0:
		x.push()
		x.check("after Push")
	case 1:
		x.pop()
		x.check("after Pop")
	case 2:
		c := x.q.Cap()
		r := x.q.Shrink()
		sym.Assert(r == (x.q.Cap() < c), "Shrink reports whether it shrank")
		sym.Assert(x.q.Cap() <= c, "Shrink never grows")
		x.check("after Shrink")
	case 3:
		x.q.Clear()
		x.m = nil
		x.check("after Clear")
	case 4:
		x.q.Init(sym.Choice("rebuf", 2) * 5)
		x.m = nil
		x.check("after Init")
	}
}

func (x *model) drain() {
	for n := len(x.m); n >= 0; n-- {
		x.pop()
	}
	x.check("after draining")
}

// CheckState reaches every (capacity, offset, fill) of the ring buffer.
func CheckState() {
	caps := []int{1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 24, 0, 6, 10, 11, 17, 18, 31, 40}
	c := caps[sym.Choice("cap", sym.Bound(11, 19))]
	x := &model{q: stl.NewGOGPQueueNamePrefixQueue(c)}
	if c == 0 {
		c = 8
	}
	rot := sym.Choice("rot", c)
	for i := 0; i < rot; i++ {
		x.q.Push(i)
		x.q.Pop()
	}
	fill := sym.Choice("fill", c)
	for i := 0; i < fill; i++ {
		x.push()
	}
	x.check("after fill")
	for i := sym.Bound(2, 3); i > 0; i-- {
		x.op()
	}
	x.drain()
	sym.Cover("done")
}

// CheckHistory runs every short history.
func CheckHistory() {
	x := &model{}
	if b := sym.Choice("buf", 6); b == 5 {
		x.q = &stl.IntQueue{}
	} else {
		x.q = stl.NewGOGPQueueNamePrefixQueue(b - 1)
	}
	x.check("new")
	for i := sym.Bound(5, 7); i > 0; i-- {
		x.op()
	}
	x.drain()
	sym.Cover("done")
}

// CheckLong fills far beyond several growths, with pops and shrinks between.
func CheckLong() {
	x := &model{q: stl.NewGOGPQueueNamePrefixQueue(1 + sym.Choice("buf", 9))}
	n := []int{7, 8, 9, 15, 16, 17, 31, 33, 70}[sym.Choice("n", 9)]
	every := 1 + sym.Choice("every", 4)
	for i := 0; i < n; i++ {
		x.push()
		if i%every == 1 {
			x.pop()
		}
	}
	x.check("after pushes")
	k := len(x.m) * sym.Choice("keep", 4) / 4
	for i := 0; i < k; i++ {
		x.pop()
	}
	for i := 0; i < 3; i++ {
		x.q.Shrink()
		x.check("after Shrink")
		x.push()
		x.check("after Push")
	}
	x.drain()
	sym.Cover("done")
}

// CheckBig grows the buffer through many doublings from a rotated state.
//
// bound: CheckBig: 130..4100 (thorough ..9000) pushes from bufSize 1,8,9,1000, rotated by 0,1,7,500 first, with a pop every 0,3,2 pushes, then three quarters popped, shrunk and drained
func CheckBig() {
	x := &model{q: stl.NewGOGPQueueNamePrefixQueue([]int{1, 8, 9, 1000}[sym.Choice("buf", 4)])}
	rot := []int{0, 1, 7, 500}[sym.Choice("rot", 4)]
	for i := 0; i < rot; i++ {
		x.q.Push(i)
		x.q.Pop()
	}
	n := []int{130, 257, 1030, 2100, 4100, 9000}[sym.Choice("n", sym.Bound(5, 6))]
	every := []int{0, 3, 2}[sym.Choice("every", 3)]
	base := sym.Int("base")
	for i := 0; i < n; i++ {
		v := base
		if i%8 != 0 {
			v = i
		}
		x.q.Push(v)
		x.m = append(x.m, v)
		if every > 0 && i%every == 1 {
			x.pop()
		}
	}
	x.check("after pushes")
	for i := len(x.m) * 3 / 4; i > 0; i-- {
		x.pop()
	}
	x.q.Shrink()
	x.check("after Shrink")
	x.push()
	x.drain()
	sym.Cover("done")
}

// CheckTwo: two queues worked on in turn do not touch each other.
//
// bound: CheckTwo: two queues of bufSize 1,4,16, grown to 1,5,17 elements each, shrunk or cleared and refilled in either order
func CheckTwo() {
	c := []int{1, 4, 16}[sym.Choice("buf", 3)]
	n := []int{1, 5, 17}[sym.Choice("n", 3)]
	x, y := &model{q: stl.NewGOGPQueueNamePrefixQueue(c)}, &model{q: stl.NewGOGPQueueNamePrefixQueue(c)}
	for i := 0; i < n; i++ {
		x.push()
		y.push()
	}
	for i := 0; i < n*2/3; i++ {
		x.pop()
	}
	switch sym.Choice("op", 3) {
	case 0:
		x.q.Shrink()
	case 1:
		x.q.Clear()
		x.m = nil
	case 2:
		x.q.Init(3)
		x.m = nil
	}
	for i := sym.Choice("more", 3) * 5; i > 0; i-- {
		y.push()
		x.push()
		if i%2 == 0 {
			y.pop()
		}
	}
	z := &model{q: stl.NewGOGPQueueNamePrefixQueue(c)}
	for i := 0; i < n; i++ {
		z.push()
	}
	x.check("the first one")
	y.check("the second one")
	x.drain()
	y.drain()
	z.drain()
	sym.Cover("done")
}
