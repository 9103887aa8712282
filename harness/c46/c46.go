// Package c46: the templates that have no instance in the repository: the
// one-to-one mapping, the lock-free list and the lock-free ring.
//
// instance: regable/gp/mapping.gp verifgp KEY_TYPE=int VALUE_TYPE=int GLOBAL_NAME_PREFIX=M
// instance: stl/gp/lfqueue.gp verifgp VALUE_TYPE=int GLOBAL_NAME_PREFIX=L
// instance: stl/gp/lfdeque.gp verifgp VALUE_TYPE=int GLOBAL_NAME_PREFIX=L
// instrument: verifgp
//
// bound: CheckMapping: every history of 5 (thorough 6) calls of the 6 methods with arbitrary 64-bit keys and values, each followed by a look at an arbitrary key and an arbitrary value; CheckQueue: every history of 7 (thorough 9) calls on the lock-free list; CheckDeque: every history of 5 (thorough 6) calls on rings of 2..5 (thorough 6) places from every position; CheckDequeDefault: the ring that was never initialised; CheckQueueTwo, CheckQueueThree: 2 threads of 2 calls (at most 3, thorough 5 preemptions) or 3 of 1 (2, thorough 3) on 0..2 values; CheckQueueClear: a clearing thread and one that pushes and pops; CheckDequePoppers, CheckDequePushers: two threads of 1..2 pops, or of one push at the same end; CheckDequeThreads: one thread that pushes 3 values at one end of a ring of 3 places and one that pops at the other or the same, at most 4 (thorough 6) preemptions; sequentially consistent memory
package c46

import (
	gp "github.com/vipally/gx/verifgp"

	"verif/sched"
	"verif/sym"
)

type pair struct {
	k int
	v int
}

// CheckMapping: the mapping is one to one, whatever happened before.
func CheckMapping() {
	m := gp.NewMMapping()
	var all []pair
	find := func(k int) int {
		for i, p := range all {
			if p.k == k {
				return i
			}
		}
		return -1
	}
	rfind := func(v int) int {
		for i, p := range all {
			if p.v == v {
				return i
			}
		}
		return -1
	}
	del := func(i int) { all = append(append([]pair(nil), all[:i]...), all[i+1:]...) }
	for n := sym.Bound(5, 6); n > 0; n-- {
		switch sym.Choice("op", 4) {
		case 0:
			k, v := sym.Int("k"), sym.Int("v")
			id, err := m.Insert(k, v)
			if find(k) >= 0 || rfind(v) >= 0 {
				sym.Assert(err != nil, "a key or a value that is taken is refused")
				continue
			}
			sym.Assert(err == nil, "a free key and a free value are taken")
			sym.Assert(int(id) == k, "the id of a pair is its key")
			all = append(all, pair{k, v})
		case 1:
			k := sym.Int("k")
			i := find(k)
			sym.Assert(m.RemoveByKey(k) == (i >= 0), "RemoveByKey tells whether there was such a key")
			if i >= 0 {
				del(i)
			}
		case 2:
			v := sym.Int("v")
			i := rfind(v)
			sym.Assert(m.RemoveByValue(v) == (i >= 0), "RemoveByValue tells whether there was such a value")
			if i >= 0 {
				del(i)
			}
		case 3:
			if len(all) == 0 {
				sym.Skip()
			}
			m.Clear()
			all = nil
		}
	}
	k, v := sym.Int("k"), sym.Int("v")
	gv, ok := m.Find(k)
	if i := find(k); i >= 0 {
		sym.Assert(ok && gv == all[i].v, "a key leads to its value")
	} else {
		sym.Assert(!ok && gv == 0, "a key that is not there is not found")
	}
	gk, ok := m.ReverseFind(v)
	if i := rfind(v); i >= 0 {
		sym.Assert(ok && gk == all[i].k, "a value leads to its key")
	} else {
		sym.Assert(!ok && gk == 0, "a value that is not there is not found")
	}
	for _, p := range all {
		gv, ok := m.Find(p.k)
		gk, ok2 := m.ReverseFind(p.v)
		sym.Assert(ok && ok2 && gv == p.v && gk == p.k, "every pair is found both ways")
	}
	sym.Cover("done")
}

// CheckMappingTwo: mappings do not share their pairs.
func CheckMappingTwo() {
	a, b := gp.NewMMapping(), &gp.MMapping{}
	b.Init()
	k, v := sym.Int("k"), sym.Int("v")
	a.Insert(k, v)
	_, ok := b.Find(k)
	_, ok2 := b.ReverseFind(v)
	sym.Assert(!ok && !ok2, "a pair is in its own mapping only")
	_, err := b.Insert(k, v)
	sym.Assert(err == nil && b.RemoveByValue(v), "a pair is in its own mapping only")
	w, ok := a.Find(k)
	sym.Assert(ok && w == v, "a pair is in its own mapping only")
	sym.Cover("done")
}

// CheckQueue: the list in one thread is a stack.
func CheckQueue() {
	var q gp.LLFQueue
	var m []int
	for n := sym.Bound(7, 9); n > 0; n-- {
		switch sym.Choice("op", 3) {
		case 0:
			v := sym.Int("v")
			sym.Assert(q.PushFront(v), "PushFront pushes")
			m = append(m, v)
		case 1:
			v, ok := q.PopFront()
			sym.Assert(ok == (len(m) > 0), "PopFront pops iff there is something")
			if ok {
				sym.Assert(v == m[len(m)-1], "PopFront gives the value pushed last")
				m = m[:len(m)-1]
			}
		case 2:
			q.Clear()
			m = nil
		}
		sym.Assert(q.Size() == len(m), "Size counts the values")
		sym.Assert(q.Empty() == (len(m) == 0), "Empty iff there are no values")
	}
	sym.Cover("done")
}

// drain takes what is left.
func drain(q *gp.LLFQueue) (r []int) {
	for len(r) < 10 {
		v, ok := q.PopFront()
		if !ok {
			break
		}
		r = append(r, v)
	}
	return
}

func count(vs []int, v int) (n int) {
	for _, x := range vs {
		if x == v {
			n++
		}
	}
	return
}

// threads: what several threads push and pop.
func threads(kinds [][]int, pre, start int) {
	var q gp.LLFQueue
	var pushed []int
	for i := 0; i < start; i++ {
		q.PushFront(90 + i)
		pushed = append(pushed, 90+i)
	}
	got := make([][]int, len(kinds))
	missed := 0
	var fs []func()
	for t, ks := range kinds {
		for i, k := range ks {
			if k == 0 {
				pushed = append(pushed, 10*t+i)
			}
		}
		t, ks := t, ks
		fs = append(fs, func() {
			for i, k := range ks {
				if k == 0 {
					q.PushFront(10*t + i)
				} else if v, ok := q.PopFront(); ok {
					got[t] = append(got[t], v)
				} else {
					missed++
				}
			}
		})
	}
	sched.Par(pre, fs...)
	var all []int
	for _, g := range got {
		all = append(all, g...)
	}
	sym.Assert(q.Size() == len(pushed)-len(all), "Size counts the values left")
	left := drain(&q)
	for i, v := range left {
		for _, w := range left[i+1:] {
			sym.Assert(v/10 != w/10 || w < v || v >= 90 && w < 90, "the values of a thread stay in order")
		}
	}
	all = append(all, left...)
	for _, v := range pushed {
		sym.Assert(count(all, v) == 1, "every value is popped once")
	}
	sym.Assert(len(all) == len(pushed), "only what was pushed is popped")
	pops := 0
	for _, ks := range kinds {
		for _, k := range ks {
			pops += k
		}
	}
	if pops <= start {
		sym.Assert(missed == 0, "PopFront finds what is there")
	}
	sym.Assert(q.Size() == 0 && q.Empty(), "nothing is left")
	sym.Cover("done")
}

// CheckQueueTwo: nothing is lost and nothing comes twice.
func CheckQueueTwo() {
	threads([][]int{{sym.Choice("a", 2), sym.Choice("a", 2)}, {sym.Choice("b", 2), sym.Choice("b", 2)}}, sym.Bound(3, 5), sym.Choice("start", 3))
}

// CheckQueueThree: nor with three threads.
func CheckQueueThree() {
	threads([][]int{{sym.Choice("a", 2)}, {sym.Choice("b", 2)}, {sym.Choice("c", 2)}}, sym.Bound(2, 3), sym.Choice("start", 3))
}

// CheckQueueClear: clearing while others push and pop.
func CheckQueueClear() {
	var q gp.LLFQueue
	for i := sym.Choice("start", 3); i > 0; i-- {
		q.PushFront(90 + i)
	}
	var got []int
	kind := sym.Choice("kind", 3)
	sched.Par(sym.Bound(4, 6), q.Clear, func() {
		if kind != 1 {
			q.PushFront(1)
		}
		if kind != 0 {
			if v, ok := q.PopFront(); ok {
				got = append(got, v)
			}
		}
	})
	n := q.Size()
	left := drain(&q)
	sym.Assert(len(left) == n, "Size counts the values left")
	sym.Assert(q.Size() == 0 && q.Empty(), "nothing is left")
	for _, v := range append(left, got...) {
		sym.Assert(v == 1 || v == 91 || v == 92, "only what was pushed is popped")
	}
	sym.Assert(kind == 2 || count(left, 91) == 0 && count(left, 92) == 0, "what was there is gone")
	sym.Cover("done")
}

// ring is a ring with its first place anywhere.
func ring() *gp.LLFDeque {
	q := &gp.LLFDeque{}
	size := 2 + sym.Choice("places", sym.Bound(4, 5))
	q.Init(int32(size))
	sym.Assert(q.Cap() == uint32(size), "Init sets the number of places")
	for i := sym.Choice("position", size); i > 0; i-- {
		q.PushBack(7)
		q.PopFront()
	}
	return q
}

func dequeOps(q *gp.LLFDeque, n int) {
	var m []int
	for ; n > 0; n-- {
		switch op := sym.Choice("op", 5); op {
		case 0, 1:
			if len(m) == int(q.Cap())-1 {
				sym.Skip() // would wait
			}
			v := sym.Int("v")
			if op == 0 {
				sym.Assert(q.PushBack(v), "PushBack pushes")
				m = append(m, v)
			} else {
				sym.Assert(q.PushFront(v), "PushFront pushes")
				m = append([]int{v}, m...)
			}
		case 2:
			v, ok := q.PopFront()
			sym.Assert(ok == (len(m) > 0), "PopFront pops iff there is something")
			if ok {
				sym.Assert(v == m[0], "PopFront gives the first value")
				m = m[1:]
			}
		case 3:
			v, ok := q.PopBack()
			sym.Assert(ok == (len(m) > 0), "PopBack pops iff there is something")
			if ok {
				sym.Assert(v == m[len(m)-1], "PopBack gives the last value")
				m = m[:len(m)-1]
			}
		case 4:
			if len(m) == 0 {
				sym.Skip()
			}
			q.Clear()
			m = nil
		}
		sym.Assert(q.Size() == uint32(len(m)), "Size counts the values")
		sym.Assert(q.Empty() == (len(m) == 0), "Empty iff there are no values")
		sym.Assert(q.Busy() == 0, "nothing waits in one thread")
	}
	sym.Cover("done")
}

// CheckDeque: the ring in one thread is a double-ended queue.
func CheckDeque() { dequeOps(ring(), sym.Bound(5, 6)) }

// CheckDequeDefault: a ring need not be initialised.
func CheckDequeDefault() {
	q := &gp.LLFDeque{}
	sym.Assert(q.Empty() && q.Size() == 0 && q.Cap() == 0, "a new ring is empty")
	switch sym.Choice("first", 4) {
	case 0:
		_, ok := q.PopFront()
		sym.Assert(!ok, "nothing to pop")
	case 1:
		_, ok := q.PopBack()
		sym.Assert(!ok, "nothing to pop")
	case 2:
		q.Init(-int32(sym.Choice("size", 3)))
	case 3:
	}
	if sym.Bool("front") {
		q.PushFront(5)
	} else {
		q.PushBack(5)
	}
	v, ok := q.PopBack()
	sym.Assert(ok && v == 5 && q.Cap() > 1, "a ring gets places when it needs them")
	for i := 0; i < int(q.Cap())-1; i++ {
		q.PushBack(i)
	}
	for i := 0; i < int(q.Cap())-1; i++ {
		v, ok := q.PopFront()
		sym.Assert(ok && v == i, "the values come in order")
	}
	dequeOps(q, sym.Bound(2, 3))
}

// CheckDequeThreads: one thread pushes at one end, one pops at the other.
func CheckDequeThreads() { pushPop(sym.Bool("front"), false) }

// CheckDequeSame: one thread pushes and one pops at the same end.
func CheckDequeSame() { pushPop(sym.Bool("front"), true) }

func pushPop(front, same bool) {
	q := &gp.LLFDeque{}
	q.Init(3)
	for i := sym.Choice("position", 3); i > 0; i-- {
		q.PushBack(7)
		q.PopFront()
	}
	pop := q.PopFront
	if front != same {
		pop = q.PopBack
	}
	var got []int
	sched.Par(sym.Bound(4, 6), func() {
		for i := 1; i <= 3; i++ {
			if front {
				q.PushFront(i)
			} else {
				q.PushBack(i)
			}
		}
	}, func() {
		for i := 0; i < 3 || len(got) == 0; i++ {
			if v, ok := pop(); ok {
				got = append(got, v)
			}
		}
	})
	for !q.Empty() && len(got) < 9 {
		v, ok := pop()
		sym.Assert(ok, "what is there is popped")
		got = append(got, v)
	}
	sym.Assert(len(got) == 3, "as many values as were pushed")
	for i := 1; i <= 3; i++ {
		sym.Assert(count(got, i) == 1, "every value comes once")
		sym.Assert(same || got[i-1] == i, "every value comes in order")
	}
	sym.Cover("done")
}

// CheckDequePoppers: threads that pop get different values.
func CheckDequePoppers() {
	q := &gp.LLFDeque{}
	q.Init(4)
	for i := sym.Choice("position", 4); i > 0; i-- {
		q.PushBack(7)
		q.PopFront()
	}
	n := 1 + sym.Choice("values", 3)
	for i := 1; i <= n; i++ {
		q.PushBack(i)
	}
	var got [2][]int
	pops := func(t int) func() {
		ends := []bool{sym.Bool("end"), sym.Bool("end")}
		return func() {
			for _, front := range ends {
				v, ok := 0, false
				if front {
					v, ok = q.PopFront()
				} else {
					v, ok = q.PopBack()
				}
				if ok {
					got[t] = append(got[t], v)
				}
			}
		}
	}
	sched.Par(sym.Bound(2, 4), pops(0), pops(1))
	all := append(got[0], got[1]...)
	sym.Assert(len(all) == n, "pops find what is there")
	for i := 1; i <= n; i++ {
		sym.Assert(count(all, i) == 1, "every value is popped once")
	}
	sym.Assert(q.Empty(), "nothing is left")
	sym.Cover("done")
}

// CheckDequePushers: values pushed by several threads at the same end.
func CheckDequePushers() {
	q := &gp.LLFDeque{}
	q.Init(4)
	front := sym.Bool("front")
	push := func(v int) func() {
		return func() {
			if front {
				q.PushFront(v)
			} else {
				q.PushBack(v)
			}
		}
	}
	sched.Par(sym.Bound(3, 4), push(1), push(2))
	sym.Assert(q.Size() == 2, "as many values as were pushed")
	a, _ := q.PopFront()
	b, _ := q.PopFront()
	if front {
		sym.Assert(a+b == 3 && a*b == 2, "two goroutines push at the front of a ring: both values are there")
	} else {
		sym.Assert(a+b == 3 && a*b == 2, "two goroutines push at the back of a ring: both values are there")
	}
	sym.Cover("done")
}
