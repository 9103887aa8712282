// Package c16: thousands separators.
//
// bound: every 64-bit unsigned number; CheckTwo: every number below 10^8 before or after 6 others
package c16

import (
	"github.com/vipally/gx/math"

	"verif/sym"
)

func CheckComma() {
	n := sym.Uint64("n")
	s := math.Uint64(n).CommaString()
	check(s, n)
	sym.Cover("done")
}

// CheckTwo: a text does not depend on earlier ones, nor change with later ones.
func CheckTwo() {
	n := sym.Uint64("n")
	m := []uint64{0, 12, 999, 98765, 1234567, 1<<64 - 1}[sym.Choice("other", 6)]
	sym.Assume(n < 100000000)
	if sym.Choice("first", 2) == 1 {
		math.Uint64(m).CommaString()
	}
	s := math.Uint64(n).CommaString()
	t := math.Uint64(m).CommaString()
	check(s, n)
	check(t, m)
	sym.Cover("done")
}

func check(s string, n uint64) {
	// shape and value
	digits := 0
	var back uint64
	ok := len(s) > 0
	for i := 0; i < len(s); i++ {
		fromEnd := len(s) - 1 - i
		if fromEnd%4 == 3 {
			ok = sym.And(ok, s[i] == ',')
			continue
		}
		ok = sym.And(ok, sym.And('0' <= s[i], s[i] <= '9'))
		back = back*10 + uint64(s[i]-'0')
		digits++
	}
	sym.Assert(ok && s[0] != ',', "groups of three digits separated by commas")
	sym.Assert(len(s) == 1 || s[0] != '0', "no leading zero")
	sym.Assert(digits <= 20, "at most 20 digits")
	sym.Assert(back == n, "the digits are the number")
}
