// Package c29: the random number generators.
//
// instrument: math/rand
//
// bound: every seed, every min and max; 3 (thorough 5) draws; no repeat within 6 (thorough 12) draws; 2 threads of 2 draws, or 3 threads of 1 draw, and a reseeding thread, with at most 3 preemptions (thorough 5), sequentially consistent memory
// assume: the cycle counter and the time of day give arbitrary but fixed seeds to the generators that seed themselves
package c29

import (
	"github.com/vipally/gx/math/rand"

	"verif/sched"
	"verif/sym"
)

// gen is one kind of generator; all numbers as uint64.
type gen interface {
	next() uint64
	rng(a, b uint64) uint64
	max(m uint64) uint64
	seed() uint64
	srand(s uint64) uint64
}

type g32 struct{ *rand.Rand32T }

func (g g32) next() uint64           { return uint64(g.Rand()) }
func (g g32) rng(a, b uint64) uint64 { return uint64(g.RandRange(uint32(a), uint32(b))) }
func (g g32) max(m uint64) uint64    { return uint64(g.RandMax(uint32(m))) }
func (g g32) seed() uint64           { return uint64(g.Seed()) }
func (g g32) srand(s uint64) uint64  { return uint64(g.Srand(uint32(s))) }

type g64 struct{ *rand.Rand64T }

func (g g64) next() uint64           { return g.Rand() }
func (g g64) rng(a, b uint64) uint64 { return g.RandRange(a, b) }
func (g g64) max(m uint64) uint64    { return g.RandMax(m) }
func (g g64) seed() uint64           { return g.Seed() }
func (g g64) srand(s uint64) uint64  { return g.Srand(s) }

func mk(wide bool, s uint64) gen {
	if wide {
		return g64{rand.NewRand64S(s)}
	}
	return g32{rand.NewRand32S(uint32(s))}
}

func num(wide bool, name string) uint64 {
	if wide {
		return sym.Uint64(name + "64")
	}
	return uint64(sym.Uint32(name))
}

func between(v, a, b uint64) bool {
	return sym.Or(sym.And(a <= v, v <= b), sym.And(b <= v, v <= a))
}

func inRange(wide bool) {
	g := mk(wide, num(wide, "seed"))
	a, b := num(wide, "min"), num(wide, "max")
	switch sym.Choice("call", 3) {
	case 0:
		sym.Assert(between(g.rng(a, b), a, b), "RandRange stays between its bounds, in either order")
	case 1:
		sym.Assume(b > 0)
		sym.Assert(g.max(b) < b, "RandMax is less than max")
	case 2:
		sym.Assert(g.rng(a, a) == a, "RandRange of one number is that number")
	}
}

// CheckRange32: bounds.
func CheckRange32() { inRange(false) }

// CheckRange64: bounds.
func CheckRange64() { inRange(true) }

// CheckGlobal: the same for the generators that seed themselves.
func CheckGlobal() {
	a, b := sym.Uint32("min"), sym.Uint32("max")
	c, d := sym.Uint64("min64"), sym.Uint64("max64")
	switch sym.Choice("call", 6) {
	case 0:
		sym.Assert(between(uint64(rand.RandRange32(a, b)), uint64(a), uint64(b)), "RandRange32 stays between its bounds")
	case 1:
		sym.Assume(b > 0)
		sym.Assert(rand.RandMax32(b) < b, "RandMax32 is less than max")
	case 2:
		sym.Assert(between(rand.RandRange64(c, d), c, d), "RandRange64 stays between its bounds")
	case 3:
		sym.Assume(d > 0)
		sym.Assert(rand.RandMax64(d) < d, "RandMax64 is less than max")
	case 4:
		g := rand.NewRand32()
		sym.Assert(between(uint64(g.RandRange(a, b)), uint64(a), uint64(b)), "RandRange stays between its bounds")
		s := g.Seed()
		h := rand.NewRand32S(s)
		sym.Assert(g.Rand() == h.Rand(), "a generator goes on like one made from its seed")
	case 5:
		g := rand.NewRand64()
		sym.Assert(between(g.RandRange(c, d), c, d), "RandRange stays between its bounds")
		s := g.Seed()
		h := rand.NewRand64S(s)
		sym.Assert(g.Rand() == h.Rand(), "a generator goes on like one made from its seed")
	}
}

// CheckBothEnds: both bounds do come out.
func CheckBothEnds() {
	wide := sym.Choice("wide", 2) == 1
	g := mk(wide, num(wide, "seed"))
	a := uint64(sym.Choice("min", 3))
	lo, hi := false, false
	for i := 0; i < 8; i++ {
		v := g.rng(a, a+1)
		lo = sym.Or(lo, v == a)
		hi = sym.Or(hi, v == a+1)
	}
	sym.Assert(lo, "the lower bound comes out")
	sym.Assert(hi, "the upper bound comes out")
}

// CheckSequence: the sequence is a function of the seed.
func CheckSequence() {
	wide := sym.Choice("wide", 2) == 1
	s, s2 := num(wide, "seed"), num(wide, "seed2")
	g, h := mk(wide, s), mk(wide, s)
	other := mk(wide, s2)
	sym.Assert(g.seed() == s, "Seed is the seed given")
	n := sym.Bound(3, 5)
	for i := 0; i < n; i++ {
		if sym.Choice("other", 2) == 1 {
			other.next()
		}
		sym.Assert(g.next() == h.next(), "the same seed gives the same numbers")
		sym.Assert(g.seed() == h.seed(), "the same seed gives the same seeds")
	}
	// from where it is, a generator can be continued
	k := mk(wide, g.seed())
	sym.Assert(k.next() == g.next(), "a generator goes on like one made from its seed")
	old := h.seed()
	sym.Assert(h.srand(s2) == old, "Srand returns the seed it replaces")
	sym.Assert(h.seed() == s2, "Srand sets the seed")
	f := mk(wide, s2)
	for i := 0; i < n; i++ {
		sym.Assert(h.next() == f.next(), "after Srand the numbers are those of the new seed")
	}
	// draws in a range use up the sequence in the same way
	a, b := mk(wide, s), mk(wide, s)
	sym.Assert(a.rng(3, 12) == b.rng(3, 12) && a.seed() == b.seed(), "the same seed gives the same numbers in a range")
}

// concurrent: threads drawing from one generator get the numbers of the
// sequence, each of them once.
func concurrent(wide bool, n, draws, preemptions int) {
	s := num(wide, "seed")
	g := mk(wide, s)
	got := make([][]uint64, n)
	var fs []func()
	for i := 0; i < n; i++ {
		i := i
		fs = append(fs, func() {
			for k := 0; k < draws; k++ {
				got[i] = append(got[i], g.next())
			}
		})
	}
	sched.Par(preemptions, fs...)
	ref := mk(wide, s)
	var seq []uint64
	for i := 0; i < n*draws; i++ {
		seq = append(seq, ref.next())
	}
	sym.Assert(interleaving(got, make([]int, n), seq), "threads share the sequence: every number is drawn once")
	sym.Assert(g.seed() == ref.seed(), "the generator is as far as the draws")
}

// interleaving: seq is made of the lists, each in its order.
func interleaving(got [][]uint64, at []int, seq []uint64) bool {
	if len(seq) == 0 {
		return true
	}
	r := false
	for i := range got {
		if at[i] < len(got[i]) {
			at[i]++
			r = sym.Or(r, sym.And(got[i][at[i]-1] == seq[0], interleaving(got, at, seq[1:])))
			at[i]--
		}
	}
	return r
}

// CheckThreadsTwo: two threads.
func CheckThreadsTwo() { concurrent(sym.Choice("wide", 2) == 1, 2, 2, sym.Bound(3, 5)) }

// CheckThreadsThree: three threads.
func CheckThreadsThree() { concurrent(sym.Choice("wide", 2) == 1, 3, 1, sym.Bound(3, 5)) }

// CheckReseed: Srand during draws takes effect at one moment.
func CheckReseed() {
	wide := sym.Choice("wide", 2) == 1
	s, s2 := num(wide, "seed"), num(wide, "seed2")
	g := mk(wide, s)
	var got []uint64
	var old uint64
	n := 3
	sched.Par(sym.Bound(4, 6), func() {
		for i := 0; i < n; i++ {
			got = append(got, g.next())
		}
	}, func() { old = g.srand(s2) })
	ok := false
	for k := 0; k <= n; k++ { // k draws before, the others after
		a, b := mk(wide, s), mk(wide, s2)
		this := true
		for i := 0; i < n; i++ {
			if i < k {
				this = sym.And(this, got[i] == a.next())
			} else {
				this = sym.And(this, got[i] == b.next())
			}
		}
		this = sym.And(this, sym.And(old == a.seed(), g.seed() == b.seed()))
		ok = sym.Or(ok, this)
	}
	sym.Assert(ok, "Srand takes effect at one moment")
}

// CheckAdvances: no seed gets a generator stuck, and different seeds stay
// different.
func CheckAdvances() {
	wide := sym.Choice("wide", 2) == 1
	s, s2 := num(wide, "seed"), num(wide, "seed2")
	g, h := mk(wide, s), mk(wide, s2)
	last := []uint64{s}
	for i := sym.Bound(6, 12); i > 0; i-- {
		v := g.next()
		for _, o := range last {
			sym.Assert(v != o, "a number does not come back at once")
		}
		last = append(last, v)
	}
	k := mk(wide, s)
	sym.Assume(s != s2)
	sym.Assert(h.next() != k.next(), "different seeds give different numbers")
}
