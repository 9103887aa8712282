// Package xsync replaces package sync in instrumented code: its locks are
// shared memory like any other.
package xsync

import (
	"sync"

	"verif/sched"
)

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
	Pool      = sync.Pool
	Map       = sync.Map
	Cond      = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

type Mutex struct{ s int32 }

func (m *Mutex) Lock() {
	for !sched.CompareAndSwapInt32(&m.s, 0, 1) {
	}
}

func (m *Mutex) TryLock() bool { return sched.CompareAndSwapInt32(&m.s, 0, 1) }

func (m *Mutex) Unlock() {
	if !sched.CompareAndSwapInt32(&m.s, 1, 0) {
		panic("sync: unlock of unlocked mutex")
	}
}

type RWMutex struct{ s int32 } // -1: a writer, n: n readers

func (m *RWMutex) TryLock() bool { return sched.CompareAndSwapInt32(&m.s, 0, -1) }

func (m *RWMutex) TryRLock() bool {
	n := sched.LoadInt32(&m.s)
	return n >= 0 && sched.CompareAndSwapInt32(&m.s, n, n+1)
}

func (m *RWMutex) Lock() {
	for !sched.CompareAndSwapInt32(&m.s, 0, -1) {
	}
}

func (m *RWMutex) Unlock() {
	if !sched.CompareAndSwapInt32(&m.s, -1, 0) {
		panic("sync: Unlock of unlocked RWMutex")
	}
}

func (m *RWMutex) RLock() {
	for {
		if n := sched.LoadInt32(&m.s); n >= 0 && sched.CompareAndSwapInt32(&m.s, n, n+1) {
			return
		}
	}
}

func (m *RWMutex) RUnlock() {
	if sched.AddInt32(&m.s, -1) < 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		o.done = true
		f()
	}
}
