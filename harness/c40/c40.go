// Package c40: random strings.
//
// instrument: strings math/rand
//
// bound: every state of the generator behind it, every rule, lengths 0..6 (thorough 0..12) 33 and 300; two strings of 0..3 characters made one after the other; two threads with strings of 2 and 1 characters, at most 2 (thorough 3) preemptions
// assume: the numbers among the variables of package strings may have any value
package c40

import (
	"github.com/vipally/gx/strings"

	"verif/sched"
	"verif/sym"
)

const gx = "github.com/vipally/gx/strings"

// known: c is one of the letters, digits and signs.
func known(c byte) bool {
	r := sym.Or(sym.And('a' <= c, c <= 'z'), sym.And('A' <= c, c <= 'Z'))
	r = sym.Or(r, sym.And('0' <= c, c <= '9'))
	for _, s := range []byte("_-#@!$&*[]{}<>?/\\~") {
		r = sym.Or(r, c == s)
	}
	return r
}

func good(s string, n int) {
	sym.Assert(len(s) == n, "Rand gives as many characters as asked for")
	ok := true
	for i := 0; i < len(s); i++ {
		ok = sym.And(ok, known(s[i]))
	}
	sym.Assert(ok, "the characters are letters, digits and signs")
}

// tries: a native run has no say in the state of the generator and goes
// through many.
func tries() int {
	if sym.Symbolic() {
		return 1
	}
	return 20000
}

func CheckRand() {
	sym.Havoc(gx)
	n := sym.Choice("n", sym.Bound(9, 15))
	if k := sym.Bound(9, 15); n >= k-2 {
		n = []int{33, 300}[n-k+2]
	}
	rule := strings.Rule(sym.Uint("rule"))
	for i := (tries() + n/32) / (1 + n/32); i > 0; i-- {
		good(strings.Rand(rule, n), n)
	}
	sym.Cover("done")
}

// CheckKept: a string given out earlier stays as it is when more are made.
func CheckKept() {
	sym.Havoc(gx)
	n, m := sym.Choice("n", 4), sym.Choice("m", 4)
	for i := tries(); i > 0; i-- {
		a := strings.Rand(strings.RULE_NORMAL, n)
		was := []byte(a)
		b := strings.Rand(strings.RULE_STRONG, m)
		sym.Assert(sym.EqBytes(was, []byte(a)), "a string given out earlier stays as it is")
		good(b, m)
	}
	sym.Cover("done")
}

// CheckThreads: goroutines may ask at once.
func CheckThreads() {
	sym.Havoc(gx)
	rule := strings.Rule(sym.Uint("rule"))
	var a, b string
	sched.Par(sym.Bound(2, 3), func() { a = strings.Rand(rule, 2) }, func() { b = strings.Rand(rule, 1) })
	good(a, 2)
	good(b, 1)
	sym.Cover("done")
}
