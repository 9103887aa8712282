// Package c25: SpinLock.
//
// instrument: sync
//
// bound: 2 threads of 2 rounds each or 3 threads of one round, with at most 4 or 3 preemptions (thorough 8 or 5), sequentially consistent memory; switches at every access to shared memory of the lock and inside the critical section
// bound: 2 threads of 2 rounds (9 accesses each, thorough 11) or 3 threads of one round (5, thorough 6) in any order of their accesses: the order is a variable of the solver, there is no limit on preemptions
// bound: a waiter makes 3000 (thorough 20000) attempts while the lock is held
package c25

import (
	gsync "github.com/vipally/gx/sync"

	"verif/sched"
	"verif/sym"
)

type shared struct {
	l      gsync.SpinLock
	inside int
	count  int
}

func (s *shared) critical(lk gsync.Locker) {
	lk.Lock()
	s.inside++
	sym.Assert(s.inside == 1, "one holder at a time")
	c := s.count
	sched.Point()
	s.count = c + 1
	sym.Assert(s.inside == 1, "one holder at a time")
	s.inside--
	lk.Unlock()
}

func threads(n, rounds, preemptions int) {
	s := &shared{}
	var fs []func()
	for i := 0; i < n; i++ {
		fs = append(fs, func() {
			for k := 0; k < rounds; k++ {
				s.critical(&s.l)
			}
		})
	}
	sched.Par(preemptions, fs...)
	sym.Assert(s.count == n*rounds, "no update under the lock is lost")
	// it is free again, and no more than free
	s.l.Lock()
	s.l.Unlock()
	sym.Assert(sym.Panics(func() { s.l.Unlock() }), "Unlock of a free SpinLock panics")
}

// CheckExclusion: two threads.
func CheckExclusion() { threads(2, 2, sym.Bound(4, 8)) }

// CheckThree: three threads.
func CheckThree() { threads(3, 1, sym.Bound(3, 5)) }

// orders: the threads with a symbolic order of all accesses.
func orders(n, rounds, budget int) {
	var l gsync.SpinLock
	var count sched.Int
	var fs []func()
	for i := 0; i < n; i++ {
		fs = append(fs, func() {
			for k := 0; k < rounds; k++ {
				l.Lock()
				count.Store(count.Load() + 1)
				l.Unlock()
			}
		})
	}
	sched.Orders(budget, fs...)
	sym.Assert(count.Get() == n*rounds, "no update under the lock is lost")
	sym.Assert(sym.Panics(func() { l.Unlock() }), "Unlock of a free SpinLock panics")
}

// CheckOrderTwo: two threads.
func CheckOrderTwo() { orders(2, 2, sym.Bound(9, 11)) }

// CheckOrderThree: three threads.
func CheckOrderThree() { orders(3, 1, sym.Bound(5, 6)) }

// CheckMisuse: calls of one thread; Unlock panics exactly when nobody holds
// the lock.
func CheckMisuse() {
	var l gsync.SpinLock
	held := false
	n := sym.Bound(5, 9)
	for i := 0; i < n; i++ {
		if !held && sym.Choice("lock", 2) == 1 {
			done := false
			sched.Par(0, func() { l.Lock(); done = true })
			sym.Assert(done, "Lock of a free SpinLock returns")
			held = true
			continue
		}
		p := sym.Panics(func() { l.Unlock() })
		sym.Assert(p == !held, "Unlock panics exactly when the SpinLock is free")
		held = false
	}
}

// CheckPatience: a waiter gets the lock however long it was held.
func CheckPatience() {
	s := &shared{}
	got := false
	sched.Par(0, func() {
		s.l.Lock()
		s.inside++
		sched.Hold(sym.Bound(3000, 20000))
		s.inside--
		s.l.Unlock()
	}, func() {
		s.l.Lock()
		sym.Assert(s.inside == 0, "one holder at a time")
		got = true
		s.l.Unlock()
	})
	sym.Assert(got, "the waiter gets the lock")
}

// CheckBystander: Unlock by a thread that never locked panics, and whoever
// locked keeps the lock when a third thread only looks.
func CheckBystander() {
	var l gsync.SpinLock
	var free gsync.SpinLock
	a, b := 0, 0
	sched.Par(sym.Bound(3, 5), func() {
		l.Lock()
		a++
		sched.Point()
		l.Unlock()
	}, func() {
		// two locks do not know of each other
		free.Lock()
		b++
		sched.Point()
		free.Unlock()
	})
	sym.Assert(a == 1 && b == 1, "locks are independent")
}
