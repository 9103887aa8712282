// Package hx holds oracles shared by the harnesses. They do not branch on
// symbolic values, so that a property stays one formula.
package hx

import "verif/sym"

// Count is the number of elements of xs equal to v.
func Count(xs []int, v int) int {
	n := 0
	for _, x := range xs {
		n += sym.Ite(x == v, 1, 0)
	}
	return n
}

// Minus removes the elements of sub from all, counting duplicates; ok is
// false when sub holds something all does not.
func Minus(all, sub []int) (rest []int, ok bool) {
	rest = Clone(all)
next:
	for _, s := range sub {
		for i, x := range rest {
			if sym.Same(x, s) {
				rest = append(rest[:i], rest[i+1:]...)
				continue next
			}
		}
		for i, x := range rest {
			if x == s {
				rest = append(rest[:i], rest[i+1:]...)
				continue next
			}
		}
		return nil, false
	}
	return rest, true
}

// Perm: a and b hold the same elements, counting duplicates.
func Perm(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	_, ok := Minus(a, b)
	return ok
}

// Sorted: no element precedes a smaller (desc: bigger) one.
func Sorted(xs []int, desc bool) bool {
	ok := true
	for i := 1; i < len(xs); i++ {
		if desc {
			ok = sym.And(ok, xs[i-1] >= xs[i])
		} else {
			ok = sym.And(ok, xs[i-1] <= xs[i])
		}
	}
	return ok
}

// Eq: the same sequence.
func Eq(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = sym.And(ok, a[i] == b[i])
	}
	return ok
}

// Clone copies xs.
func Clone(xs []int) []int { return append([]int(nil), xs...) }

// Ints is a slice of n arbitrary ints.
func Ints(name string, n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = sym.Int(name)
	}
	return r
}

// Mixed is a slice of n ints: concrete values in a scrambled order with
// duplicates, except k arbitrary ones at scattered positions.
func Mixed(name string, n, k, step int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = (i*step + 3) % (n + 2)
	}
	for j := 0; j < k; j++ {
		r[(j*(n/k)+n/(2*k))%n] = sym.Int(name)
	}
	return r
}

// All is a conjunction.
func All(cs ...bool) bool {
	ok := true
	for _, c := range cs {
		ok = sym.And(ok, c)
	}
	return ok
}

// Huge is a long slice, one of whose elements is any value below, between or
// above the others, and the same elements in order.
func Huge(n int) (in, want []int) {
	step := []int{37, 1, n - 1}[sym.Choice("order", 3)]
	v := sym.Int("v")
	for i := 0; i < n; i++ {
		in = append(in, i*step%n*2)
		want = append(want, i*2)
	}
	at := []int{0, n / 2, n}[sym.Choice("slot", 3)]
	sym.Assume(at == 0 || v > want[at-1])
	sym.Assume(at == n || v < want[at])
	want = append(want[:at:at], append([]int{v}, want[at:]...)...)
	p := []int{0, n * 2 / 3, n}[sym.Choice("place", 3)]
	in = append(in[:p:p], append([]int{v}, in[p:]...)...)
	return
}

// Roomy is b in an array with room behind it.
func Roomy(b []byte) []byte {
	r := make([]byte, len(b), len(b)+40)
	copy(r, b)
	rest := r[len(b):cap(r)]
	for i := range rest {
		rest[i] = 0xA5
	}
	return r
}

// RoomKept: nothing was written behind b.
func RoomKept(b []byte) bool {
	for _, x := range b[len(b):cap(b)] {
		if x != 0xA5 {
			return false
		}
	}
	return true
}
