// Package sched runs threads of the code under test one step at a time. A
// step is one access to shared memory and the private computation after it.
// Which thread steps next is a symbolic choice, so that one run of the
// checker covers every schedule within the bounds; natively the recorded
// choices are followed, on the same instrumented code. Memory is sequentially
// consistent.
//
// The instrumented copies of the packages under test call P, St, Point and
// the replacements of sync/atomic below.
package sched

import (
	"time"
	"unsafe"

	"verif/sym"
)

const (
	soft = 4   // accesses in a row that change nothing: let the others go first
	hard = 120 // ... of every thread: nobody gets anywhere
	turn = 200 // steps in a row after which the others have their turn
)

type thread struct {
	co     *Co
	id     int
	done   bool
	futile int
	seen   int
	hold   int
	ran    int // when it ran last
}

var (
	cur     *thread
	version int // counts the changes of shared memory
)

// Point is where another thread may step in.
func Point() {
	if ord != nil {
		ord.event(-1)
	}
	if cur != nil {
		coSuspend(cur.co)
	}
}

// Gosched is a Point that changes nothing.
func Gosched() { Point() }

// Sleep lets another thread make a step, if one can.
func Sleep(time.Duration) {
	if ord != nil || cur == nil {
		Point()
		return
	}
	Hold(1)
}

func changed() { version++ }

// P stands for the address in a read of shared memory.
func P[T any](p *T) *T {
	if ord != nil {
		if v, ok := plain(p); ok {
			return v
		}
	}
	Point()
	return p
}

// plain reads of numbers under Orders
func plain[T any](p *T) (*T, bool) {
	v := new(T)
	switch q := any(p).(type) {
	case *int32:
		*any(v).(*int32) = ld(q)
	case *int64:
		*any(v).(*int64) = ld(q)
	case *uint32:
		*any(v).(*uint32) = ld(q)
	case *uint64:
		*any(v).(*uint64) = ld(q)
	case *int:
		*any(v).(*int) = ld(q)
	case *uint:
		*any(v).(*uint) = ld(q)
	case *uintptr:
		*any(v).(*uintptr) = ld(q)
	case *bool:
		*any(v).(*bool) = ord.read(boolLoc(q)).rv != 0
	default:
		return p, false
	}
	return v, true
}

func boolLoc(p *bool) int {
	return ord.loc(p, uint64(b2u(*p)), func(v uint64) { *p = v != 0 })
}

func plainSt[T any](p *T, v T) bool {
	switch q := any(p).(type) {
	case *int32:
		st(q, any(v).(int32))
	case *int64:
		st(q, any(v).(int64))
	case *uint32:
		st(q, any(v).(uint32))
	case *uint64:
		st(q, any(v).(uint64))
	case *int:
		st(q, any(v).(int))
	case *uint:
		st(q, any(v).(uint))
	case *uintptr:
		st(q, any(v).(uintptr))
	case *bool:
		ord.write(boolLoc(q), uint64(b2u(any(v).(bool))))
	default:
		return false
	}
	return true
}

// St is a write of shared memory: St(p)(v) is *p = v.
func St[T any](p *T) func(T) {
	return func(v T) {
		if ord != nil && plainSt(p, v) {
			return
		}
		Point()
		*p = v
		changed()
	}
}

// W stands for the address in one of several writes at once.
func W[T any](p *T) *T { Point(); changed(); return p }

// Hold lets the other threads make n steps before the running one goes on.
func Hold(n int) {
	if cur != nil {
		cur.hold = n
		coSuspend(cur.co)
	}
}

// Self is the number of the running thread.
func Self() int {
	if cur == nil {
		return -1
	}
	return cur.id
}

// Par runs the threads to completion with at most preemptions switches away
// from a thread that could go on.
func Par(preemptions int, fs ...func()) {
	var ts []*thread
	for i, f := range fs {
		ts = append(ts, &thread{co: coNew(f), id: i})
	}
	last, streak, now, forced := -1, 0, 0, 0
	for {
		var run []*thread
		var held []*thread
		live, best := 0, (*thread)(nil)
		for _, t := range ts {
			if t.done {
				continue
			}
			live++
			if t.hold > 0 {
				held = append(held, t)
				continue
			}
			if t.seen != version {
				t.futile = 0
			}
			if best == nil || t.futile < best.futile {
				best = t
			}
			if t.futile < soft {
				if t.id == last {
					run = append([]*thread{t}, run...)
				} else {
					run = append(run, t)
				}
			}
		}
		if live == 0 {
			return
		}
		if streak >= turn+forced%7 && len(run) > 1 && run[0].id == last { // not always at the same place of a loop
			forced++
			next := run[1]
			for _, t := range run[2:] {
				if t.ran < next.ran {
					next = t
				}
			}
			run = []*thread{next}
		}
		var t *thread
		switch {
		case best == nil: // all are on hold
			t = held[0]
			t.hold = 0
		case len(run) == 0 && len(held) > 0:
			t = best
		case len(run) == 0:
			t = best
			sym.Assert(t.futile < hard, "some thread can go on")
		case len(run) == 1 || run[0].id == last && preemptions == 0:
			t = run[0]
		default:
			t = run[sym.Choice("sched", len(run))]
			if run[0].id == last && t.id != last {
				preemptions--
			}
		}
		for _, h := range held {
			if h != t {
				h.hold--
			}
		}
		v := version
		cur = t
		t.done = coResume(t.co)
		cur = nil
		if t.id != last {
			streak = 0
		}
		streak++
		now++
		t.ran = now
		last = t.id
		if version != v {
			t.futile = 0
		} else {
			t.futile++
		}
		t.seen = version
	}
}

// ---- the functions of sync/atomic -------------------------------------------

func LoadInt32(p *int32) int32                      { return ld(p) }
func StoreInt32(p *int32, v int32)                  { st(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool { return casN(p, o, n) }
func AddInt32(p *int32, d int32) int32 {
	_, n := rmw(p, func(v int32) int32 { return v + d })
	return n
}
func SwapInt32(p *int32, v int32) int32 {
	o, _ := rmw(p, func(int32) int32 { return v })
	return o
}
func AndInt32(p *int32, m int32) int32 {
	o, _ := rmw(p, func(v int32) int32 { return v & m })
	return o
}
func OrInt32(p *int32, m int32) int32 {
	o, _ := rmw(p, func(v int32) int32 { return v | m })
	return o
}

func LoadInt64(p *int64) int64                      { return ld(p) }
func StoreInt64(p *int64, v int64)                  { st(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool { return casN(p, o, n) }
func AddInt64(p *int64, d int64) int64 {
	_, n := rmw(p, func(v int64) int64 { return v + d })
	return n
}
func SwapInt64(p *int64, v int64) int64 {
	o, _ := rmw(p, func(int64) int64 { return v })
	return o
}
func AndInt64(p *int64, m int64) int64 {
	o, _ := rmw(p, func(v int64) int64 { return v & m })
	return o
}
func OrInt64(p *int64, m int64) int64 {
	o, _ := rmw(p, func(v int64) int64 { return v | m })
	return o
}

func LoadUint32(p *uint32) uint32                      { return ld(p) }
func StoreUint32(p *uint32, v uint32)                  { st(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool { return casN(p, o, n) }
func AddUint32(p *uint32, d uint32) uint32 {
	_, n := rmw(p, func(v uint32) uint32 { return v + d })
	return n
}
func SwapUint32(p *uint32, v uint32) uint32 {
	o, _ := rmw(p, func(uint32) uint32 { return v })
	return o
}
func AndUint32(p *uint32, m uint32) uint32 {
	o, _ := rmw(p, func(v uint32) uint32 { return v & m })
	return o
}
func OrUint32(p *uint32, m uint32) uint32 {
	o, _ := rmw(p, func(v uint32) uint32 { return v | m })
	return o
}

func LoadUint64(p *uint64) uint64                      { return ld(p) }
func StoreUint64(p *uint64, v uint64)                  { st(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool { return casN(p, o, n) }
func AddUint64(p *uint64, d uint64) uint64 {
	_, n := rmw(p, func(v uint64) uint64 { return v + d })
	return n
}
func SwapUint64(p *uint64, v uint64) uint64 {
	o, _ := rmw(p, func(uint64) uint64 { return v })
	return o
}
func AndUint64(p *uint64, m uint64) uint64 {
	o, _ := rmw(p, func(v uint64) uint64 { return v & m })
	return o
}
func OrUint64(p *uint64, m uint64) uint64 {
	o, _ := rmw(p, func(v uint64) uint64 { return v | m })
	return o
}

func LoadUintptr(p *uintptr) uintptr                      { return ld(p) }
func StoreUintptr(p *uintptr, v uintptr)                  { st(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool { return casN(p, o, n) }
func AddUintptr(p *uintptr, d uintptr) uintptr {
	_, n := rmw(p, func(v uintptr) uintptr { return v + d })
	return n
}
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	o, _ := rmw(p, func(uintptr) uintptr { return v })
	return o
}
func AndUintptr(p *uintptr, m uintptr) uintptr {
	o, _ := rmw(p, func(v uintptr) uintptr { return v & m })
	return o
}
func OrUintptr(p *uintptr, m uintptr) uintptr {
	o, _ := rmw(p, func(v uintptr) uintptr { return v | m })
	return o
}

// ---- the types of sync/atomic -----------------------------------------------

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return ld(&x.v) }
func (x *Int32) Store(v int32)                  { st(&x.v, v) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) And(m int32) int32              { return AndInt32(&x.v, m) }
func (x *Int32) Or(m int32) int32               { return OrInt32(&x.v, m) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return casN(&x.v, o, n) }

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return ld(&x.v) }
func (x *Int64) Store(v int64)                  { st(&x.v, v) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) And(m int64) int64              { return AndInt64(&x.v, m) }
func (x *Int64) Or(m int64) int64               { return OrInt64(&x.v, m) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return casN(&x.v, o, n) }

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return ld(&x.v) }
func (x *Uint32) Store(v uint32)                  { st(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) And(m uint32) uint32             { return AndUint32(&x.v, m) }
func (x *Uint32) Or(m uint32) uint32              { return OrUint32(&x.v, m) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return casN(&x.v, o, n) }

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return ld(&x.v) }
func (x *Uint64) Store(v uint64)                  { st(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) And(m uint64) uint64             { return AndUint64(&x.v, m) }
func (x *Uint64) Or(m uint64) uint64              { return OrUint64(&x.v, m) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return casN(&x.v, o, n) }

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return ld(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { st(&x.v, v) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) And(m uintptr) uintptr            { return AndUintptr(&x.v, m) }
func (x *Uintptr) Or(m uintptr) uintptr             { return OrUintptr(&x.v, m) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return casN(&x.v, o, n) }

type Bool struct{ v uint32 }

func b2u(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}

func (x *Bool) Load() bool                    { return LoadUint32(&x.v) != 0 }
func (x *Bool) Store(v bool)                  { StoreUint32(&x.v, b2u(v)) }
func (x *Bool) Swap(v bool) bool              { return SwapUint32(&x.v, b2u(v)) != 0 }
func (x *Bool) CompareAndSwap(o, n bool) bool { return CompareAndSwapUint32(&x.v, b2u(o), b2u(n)) }

type Pointer[T any] struct{ v *T }

func (x *Pointer[T]) Load() *T   { Point(); return x.v }
func (x *Pointer[T]) Store(v *T) { Point(); x.v = v; changed() }
func (x *Pointer[T]) Swap(v *T) *T {
	Point()
	o := x.v
	x.v = v
	changed()
	return o
}
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	Point()
	if x.v != o {
		return false
	}
	x.v = n
	changed()
	return true
}

type Value struct{ v interface{} }

func (x *Value) Load() interface{}   { Point(); return x.v }
func (x *Value) Store(v interface{}) { Point(); x.v = v; changed() }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { Point(); return *p }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { Point(); *p = v; changed() }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	Point()
	o := *p
	*p = v
	changed()
	return o
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	Point()
	if *p != o {
		return false
	}
	*p = n
	changed()
	return true
}
