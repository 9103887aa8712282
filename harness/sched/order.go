package sched

import (
	"strconv"

	"verif/sym"
)

// Orders runs threads with a symbolic order of their accesses: each thread is
// executed by itself, every read of shared memory gives an arbitrary value,
// and every access an arbitrary point in time. At the end the solver is told
// that a read gives what the last write before it wrote, and asked whether
// any of the assertions can fail. So all interleavings of the accesses are in
// one formula per combination of branches the threads take. At most budget
// accesses per thread; longer runs are outside the bound.
//
// Natively the threads run in the order of the solver's points in time.
func Orders(budget int, fs ...func()) {
	n := len(fs) * budget
	if n > 200 {
		panic("sched.Orders: too many accesses")
	}
	orders++
	if !sym.Symbolic() {
		replayOrder(budget, fs)
		return
	}
	o := &order{budget: budget, n: n}
	for i, f := range fs {
		o.thread(i, f)
	}
	o.finish()
}

var (
	ord    *order
	orders int
)

type event struct {
	th    int
	t     byte
	loc   int
	read  bool
	rv    uint64
	write bool
	wv    uint64
}

type location struct {
	p    interface{}
	init uint64
	set  func(uint64)
}

type order struct {
	budget, n int
	th        int
	mine      []*event
	all       []*event
	locs      []*location
	asserts   []check
	panicked  bool
}

type check struct {
	ok  bool
	msg string
}

func stamp(th, i int) byte {
	return sym.Byte("at" + strconv.Itoa(orders) + "." + strconv.Itoa(th) + "." + strconv.Itoa(i))
}

func (o *order) thread(i int, f func()) {
	o.th, o.mine = i, nil
	defer func() {
		ord = nil
		o.all = append(o.all, o.mine...)
		if r := recover(); r != nil {
			o.panicked = true
		}
	}()
	ord = o
	f()
}

func (o *order) event(l int) *event {
	if len(o.mine) >= o.budget {
		sym.Skip()
	}
	e := &event{th: o.th, loc: l}
	o.mine = append(o.mine, e)
	return e
}

func (o *order) read(l int) *event {
	e := o.event(l)
	e.read, e.rv = true, sym.Uint64("rd")
	return e
}

func (o *order) write(l int, v uint64) {
	e := o.event(l)
	e.write, e.wv = true, v
}

// Assert is for assertions of threads under Orders.
func Assert(ok bool, msg string) {
	if ord == nil {
		sym.Assert(ok, msg)
		return
	}
	ord.asserts = append(ord.asserts, check{ok, msg})
}

// last: v is what was last written to l before time t (the end, if t < 0).
func (o *order) last(l int, v uint64, t byte, end bool) bool {
	var ws []*event
	for _, w := range o.all {
		if w.write && w.loc == l {
			ws = append(ws, w)
		}
	}
	// the initial value
	some := v == o.locs[l].init
	for _, w := range ws {
		some = sym.And(some, sym.And(!end, w.t >= t))
	}
	for _, w := range ws {
		this := sym.And(v == w.wv, sym.Or(end, w.t < t))
		for _, x := range ws {
			if x != w {
				this = sym.And(this, sym.Or(x.t < w.t, sym.And(!end, x.t >= t)))
			}
		}
		some = sym.Or(some, this)
	}
	return some
}

func (o *order) finish() {
	// one at a time, and each thread in its own order
	th, k := -1, 0
	for _, e := range o.all {
		if e.th != th {
			th, k = e.th, 0
		}
		e.t = stamp(th, k)
		k++
	}
	c := true
	for i, a := range o.all {
		c = sym.And(c, int(a.t) < o.n)
		if i > 0 && o.all[i-1].th == a.th {
			c = sym.And(c, o.all[i-1].t < a.t)
		}
		for _, b := range o.all[i+1:] {
			if a.th != b.th {
				c = sym.And(c, a.t != b.t)
			}
		}
	}
	for _, e := range o.all {
		if e.read {
			c = sym.And(c, o.last(e.loc, e.rv, e.t, false))
		}
	}
	sym.Assume(c)
	sym.Assert(!o.panicked, "no thread panics")
	for _, c := range o.asserts {
		sym.Assert(c.ok, c.msg)
	}
	for l, loc := range o.locs {
		v := sym.Uint64("end")
		sym.Assume(o.last(l, v, 0, true))
		loc.set(v)
	}
}

type num interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~int | ~uint | ~uintptr
}

func (o *order) loc(p interface{}, init uint64, set func(uint64)) int {
	for i, l := range o.locs {
		if l.p == p {
			return i
		}
	}
	o.locs = append(o.locs, &location{p, init, set})
	return len(o.locs) - 1
}

func locOf[T num](p *T) int {
	return ord.loc(p, uint64(*p), func(v uint64) { *p = T(v) })
}

func ld[T num](p *T) T {
	if ord != nil {
		return T(ord.read(locOf(p)).rv)
	}
	Point()
	return *p
}

func st[T num](p *T, v T) {
	if ord != nil {
		ord.write(locOf(p), uint64(v))
		return
	}
	Point()
	o := *p
	*p = v
	differs(o, v)
}

// differs: a write of what is there already is no change (a lock tried in
// vain by swapping, say).
func differs[T num](o, n T) {
	if !sym.Same(int(o), int(n)) {
		changed()
	}
}

func casN[T num](p *T, o, n T) bool {
	if ord != nil {
		e := ord.read(locOf(p))
		if T(e.rv) != o {
			return false
		}
		e.write, e.wv = true, uint64(n)
		return true
	}
	Point()
	if *p != o {
		return false
	}
	*p = n
	differs(o, n)
	return true
}

func rmw[T num](p *T, f func(T) T) (old, new T) {
	if ord != nil {
		e := ord.read(locOf(p))
		old = T(e.rv)
		new = f(old)
		e.write, e.wv = true, uint64(new)
		return old, new
	}
	Point()
	old = *p
	new = f(old)
	*p = new
	differs(old, new)
	return old, new
}

// Int is a shared variable of a harness.
type Int struct{ v int }

func (x *Int) Load() int   { return ld(&x.v) }
func (x *Int) Store(v int) { st(&x.v, v) }

// Get is the value after the threads.
func (x *Int) Get() int { return x.v }

// ---- native ------------------------------------------------------------------

func replayOrder(budget int, fs []func()) {
	type th struct {
		t    *thread
		next int
		at   byte
	}
	var ts []*th
	resume := func(x *th) {
		cur = x.t
		x.t.done = coResume(x.t.co)
		cur = nil
		if !x.t.done {
			if x.next >= budget {
				sym.Skip()
			}
			x.at = stamp(x.t.id, x.next)
			x.next++
		}
	}
	for i, f := range fs {
		x := &th{t: &thread{co: coNew(f), id: i}}
		ts = append(ts, x)
	}
	for _, x := range ts {
		resume(x)
	}
	for {
		var best *th
		for _, x := range ts {
			if !x.t.done && (best == nil || x.at < best.at) {
				best = x
			}
		}
		if best == nil {
			return
		}
		resume(best)
	}
}
