// Package c17: primality.
//
// bound: CheckSmall: every number below 2^10 (thorough 2^12)
// bound: CheckComposite: every composite 32-bit number, by its smallest prime factor (all 6542 below 2^16; from the 102nd on the quick tier takes the numbers that are 1 and those that are 5 modulo 6 in turn); CheckPrime: every prime of 32 bits, by the square it lies above (from the 102nd on the quick tier takes every eighth square and one of the two residues)
// bound: CheckTop: within 1 (thorough 3) of p*p and p*q for p up to 65521 and of 2^32, without the intervals and divisors the two above are decided from
package c17

import (
	"github.com/vipally/gx/math/prime"

	"verif/sym"
)

func CheckSmall() {
	k := sym.Bound(10, 12)
	n := sym.Uint32("n")
	sym.Assume(n < uint32(1)<<uint(k))
	composite := false
	for d := uint32(2); d*d < uint32(1)<<uint(k); d++ {
		composite = sym.Or(composite, sym.And(n > d, n%d == 0))
	}
	want := sym.And(n >= 2, !composite)
	sym.Assert(prime.IsPrime(n) == want, "IsPrime iff at least 2 and no proper divisor")
	sym.Cover("done")
}

// isPrime is the reference: trial division.
func isPrime(n uint64) bool {
	if n < 2 {
		return false
	}
	for d := uint64(2); d*d <= n; d++ {
		if n%d == 0 {
			return false
		}
	}
	return true
}

func next(p uint64) uint64 {
	for p++; !isPrime(p); p++ {
	}
	return p
}

func window(center uint64, w int) {
	lo := uint64(0)
	if center > uint64(w) {
		lo = center - uint64(w)
	}
	hi := center + uint64(w)
	if hi > 0xffffffff {
		hi = 0xffffffff
	}
	want := make([]bool, hi-lo+1)
	for i := range want {
		want[i] = isPrime(lo + uint64(i))
	}
	t := sym.Byte("t")
	sym.Assume(int(t) < len(want))
	got := prime.IsPrime(uint32(lo) + uint32(t))
	ok := false
	for i := range want {
		ok = sym.Or(ok, sym.And(int(t) == i, got == want[i]))
	}
	sym.Assert(ok, "IsPrime is right in the window")
	sym.Cover("done")
}

// primes are the primes below 2^16, by a sieve of their own.
var primes = sieve()

func sieve() (l []uint32) {
	var c [1 << 16]bool
	for d := 2; d < len(c); d++ {
		if c[d] {
			continue
		}
		l = append(l, uint32(d))
		for m := d * d; m < len(c); m += d {
			c[m] = true
		}
	}
	return
}

// pick is any number below n.
func pick(n int) int {
	w := 1
	for w*w < n {
		w++
	}
	i := sym.Choice("hi", w)*w + sym.Choice("lo", w)
	if i >= n {
		sym.Skip()
	}
	return i
}

// residue settles n mod 6, which is 1 or 5 when neither 2 nor 3 divide n.
func residue(n uint32, k int, at uint32) {
	if k > 1 {
		if at%6 == 1 {
			sym.Assume(n%6 == 1)
		} else {
			sym.Assume(n%6 == 5)
		}
	}
}

// other chooses between the residues 1 and 5; the quick tier takes them in
// turn.
func other(i int) bool {
	if i > 100 && sym.Bound(0, 1) == 0 {
		return i%2 == 0
	}
	return sym.Choice("residue", 2) == 1
}

// CheckComposite: every composite number has a smallest prime factor p below
// 2^16 and is at least p*p; IsPrime says no, whatever the rest of the number.
func CheckComposite() {
	i := pick(len(primes))
	p := primes[i]
	at := p * p
	if i > 1 && other(i) { // the other residue
		m := p
		for {
			// the next number that has p as its smallest factor
			m += 2
			if uint64(m)*uint64(p) > 0xffffffff {
				sym.Skip()
			}
			at = m * p
			if at%6 != 5 {
				continue
			}
			free := true
			for _, q := range primes[:i] {
				if m%q == 0 {
					free = false
					break
				}
			}
			if free {
				break
			}
		}
	}
	n := sym.Uint32("n")
	sym.Example(n, at)
	sym.Assume(n >= p*p)
	sym.Assume(n%p == 0)
	residue(n, i, at)
	sym.NoDivisor(n, primes[:i])
	sym.Assert(!prime.IsPrime(n), "a composite number is not prime")
	sym.Cover("done")
}

// CheckPrime: a number below the square of the next prime that none of the
// primes so far divides is prime, and IsPrime says so.
func CheckPrime() {
	i := pick(len(primes)+1) - 1 // the last prime that may divide
	lo, hi := uint64(2), uint64(4)
	if i >= 0 {
		lo, hi = uint64(primes[i])*uint64(primes[i]), 1<<32
	}
	if i >= 0 && i+1 < len(primes) {
		hi = uint64(primes[i+1]) * uint64(primes[i+1])
	}
	if i > 100 && sym.Bound(0, 1) == 0 && i%8 != i/8%2 && i != len(primes)-1 {
		sym.Skip()
	}
	want := uint64(1)
	if other(i) {
		want = 5
	}
	at := lo
	for ; at < hi; at++ {
		if i > 0 && at%6 != want {
			continue
		}
		free := true
		for _, q := range primes[:i+1] {
			if at%uint64(q) == 0 {
				free = false
				break
			}
		}
		if free {
			break
		}
	}
	if at == hi {
		sym.Skip() // no such number: shown by looking at all of them
	}
	n := sym.Uint32("n")
	sym.Example(n, uint32(at))
	sym.Assume(uint64(n) >= lo)
	sym.Assume(uint64(n) < hi)
	residue(n, i+1, uint32(at))
	sym.NoDivisor(n, primes[:i+1])
	sym.Assert(prime.IsPrime(n), "a number without proper divisors is prime")
	sym.Cover("done")
}

func CheckTop() {
	ps := []uint64{1999, 4001, 10007, 32749, 46337, 65497, 65519, 65521}
	p := ps[sym.Choice("p", len(ps))]
	kind := sym.Choice("kind", 3)
	c := p * p
	if kind == 1 {
		c = p * next(p)
	}
	if kind == 2 {
		c = 0xffffffff - p + 1999
	}
	if c > 0xffffffff {
		c = 0xffffffff - 16
	}
	window(c, sym.Bound(1, 3))
}
