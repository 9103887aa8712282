// Package c26: RWSpinLock.
//
// instrument: sync
//
// bound: 2 threads of 2 rounds, or 3 threads of one round (thorough: also 4 threads), each round reading or writing in any combination, with at most 2 or 3 preemptions (thorough 4 or 5), sequentially consistent memory; switches at every access to shared memory of the lock and inside the critical section
// bound: 2 threads (9 accesses each, thorough 12) or 3 threads (7, thorough 9) of one round in any order of their accesses: the order is a variable of the solver, there is no limit on preemptions
// bound: a waiter makes 2000 (thorough 20000) attempts while the lock is held
package c26

import (
	gsync "github.com/vipally/gx/sync"

	"verif/sched"
	"verif/sym"
)

type shared struct {
	l       gsync.RWSpinLock
	readers int
	writers int
	count   int
}

func (s *shared) read() {
	s.l.RLock()
	s.readers++
	sym.Assert(s.writers == 0, "no writer while a reader is inside")
	c := s.count
	sched.Point()
	sym.Assert(s.count == c, "what a reader reads does not change")
	sym.Assert(s.writers == 0, "no writer while a reader is inside")
	s.readers--
	s.l.RUnlock()
}

func (s *shared) write() {
	s.l.Lock()
	s.writers++
	sym.Assert(s.writers == 1 && s.readers == 0, "a writer is alone")
	c := s.count
	sched.Point()
	s.count = c + 1
	sym.Assert(s.writers == 1 && s.readers == 0, "a writer is alone")
	s.writers--
	s.l.Unlock()
}

func (s *shared) free() {
	done := 0
	sched.Par(0, func() { s.l.Lock(); done++; s.l.Unlock(); done++ })
	sym.Assert(done == 2, "a writer gets the lock when all have left")
	sched.Par(0, func() {
		s.l.RLock()
		s.l.RLock()
		done++
		s.l.RUnlock()
		s.l.RUnlock()
		done++
	})
	sym.Assert(done == 4, "readers get the lock when all have left")
	sched.Par(0, func() { s.l.Lock(); done++; s.l.Unlock(); done++ })
	sym.Assert(done == 6, "a writer gets the lock when all have left")
}

func threads(n, rounds, preemptions int) {
	s := &shared{}
	var fs []func()
	w := 0
	for i := 0; i < n; i++ {
		var kinds []bool
		for k := 0; k < rounds; k++ {
			wr := sym.Choice("write", 2) == 1
			if wr {
				w++
			}
			kinds = append(kinds, wr)
		}
		fs = append(fs, func() {
			for _, wr := range kinds {
				if wr {
					s.write()
				} else {
					s.read()
				}
			}
		})
	}
	sched.Par(preemptions, fs...)
	sym.Assert(s.count == w, "no update under the write lock is lost")
	s.free()
}

// CheckTwo: two threads, two rounds each.
func CheckTwo() { threads(2, 2, sym.Bound(3, 5)) }

// CheckThree: three threads, one round each.
func CheckThree() { threads(3, 1, sym.Bound(2, 4)) }

// orders: threads of one round each with a symbolic order of all accesses.
func orders(kinds []bool, budget int) {
	var l gsync.RWSpinLock
	var count sched.Int
	var fs []func()
	w := 0
	for _, wr := range kinds {
		if wr {
			w++
			fs = append(fs, func() {
				l.Lock()
				count.Store(count.Load() + 1)
				l.Unlock()
			})
		} else {
			fs = append(fs, func() {
				l.RLock()
				a := count.Load()
				sched.Assert(count.Load() == a, "what a reader reads does not change")
				l.RUnlock()
			})
		}
	}
	sched.Orders(budget, fs...)
	sym.Assert(count.Get() == w, "no update under the write lock is lost")
	switch sym.Choice("then", 2) {
	case 0:
		sym.Assert(sym.Panics(func() { l.Unlock() }), "Unlock of a free RWSpinLock panics")
	case 1:
		sym.Assert(sym.Panics(func() { l.RUnlock() }), "RUnlock of a free RWSpinLock panics")
	}
}

// CheckOrderTwo: two threads.
func CheckOrderTwo() {
	orders([]bool{true, sym.Choice("write", 2) == 1}, sym.Bound(9, 12))
}

// CheckOrderThree: three threads, at least one of them a writer.
func CheckOrderThree() {
	k := sym.Choice("writers", 3)
	orders([]bool{true, k > 0, k > 1}, sym.Bound(7, 9))
}

// CheckFour: four threads (thorough).
func CheckFour() {
	if sym.Bound(0, 1) == 0 {
		threads(3, 1, 1)
		return
	}
	threads(4, 1, 3)
}

// CheckShared: readers are inside together.
func CheckShared() {
	s := &shared{}
	n := sym.Bound(3, 5)
	done := 0
	var fs []func()
	for i := 0; i < n; i++ {
		fs = append(fs, func() {
			s.l.RLock()
			s.readers++
			for k := 0; k < 100 && s.readers < n; k++ { // all meet inside
				sched.Point()
			}
			if s.readers == n {
				done++
			}
		})
	}
	sched.Par(sym.Bound(1, 2), fs...)
	sym.Assert(done == n, "readers share the lock")
	// a writer comes in only after the last of them
	out := 0
	sched.Par(sym.Bound(2, 3), func() {
		for i := 0; i < n; i++ {
			out++
			s.l.RUnlock()
		}
	}, func() {
		s.l.Lock()
		sym.Assert(out == n, "a writer waits for every reader")
		done = -1
		s.l.Unlock()
	})
	sym.Assert(done == -1, "a writer gets the lock when all have left")
	s.free()
}

// CheckMisuse: release without acquire panics.
func CheckMisuse() {
	s := &shared{}
	// any balanced history first
	for i := sym.Choice("rounds", 3); i > 0; i-- {
		if sym.Choice("write", 2) == 1 {
			s.write()
		} else {
			s.read()
		}
	}
	switch sym.Choice("case", 4) {
	case 0:
		sym.Assert(sym.Panics(func() { s.l.Unlock() }), "Unlock of a free RWSpinLock panics")
	case 1:
		sym.Assert(sym.Panics(func() { s.l.RUnlock() }), "RUnlock of a free RWSpinLock panics")
	case 2:
		s.l.Lock()
		sym.Assert(sym.Panics(func() { s.l.RUnlock() }), "RUnlock of a write-locked RWSpinLock panics")
	case 3:
		for i := sym.Choice("readers", 3); i >= 0; i-- {
			s.l.RLock()
		}
		sym.Assert(sym.Panics(func() { s.l.Unlock() }), "Unlock of a read-locked RWSpinLock panics")
	}
}

// CheckPatience: a waiter gets the lock however long it was held.
func CheckPatience() {
	s := &shared{}
	hw, ww := sym.Choice("holder writes", 2) == 1, sym.Choice("waiter writes", 2) == 1
	got := false
	sched.Par(0, func() {
		if hw {
			s.l.Lock()
			s.writers++
			sched.Hold(sym.Bound(2000, 20000))
			s.writers--
			s.l.Unlock()
		} else {
			s.l.RLock()
			s.readers++
			sched.Hold(sym.Bound(2000, 20000))
			s.readers--
			s.l.RUnlock()
		}
	}, func() {
		if ww {
			s.write()
		} else {
			s.read()
		}
		got = true
	})
	sym.Assert(got, "the waiter gets the lock")
}
