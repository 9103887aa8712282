// Package c39: file sizes as text.
//
// replace: fs
//
// bound: every 64-bit size whose nearest float64 is below 2^64; below 2^53 the rounding is exact, above to a thousandth of the unit
package c39

import (
	"github.com/vipally/gx/fs"

	"verif/sym"
)

var units = []string{"B", "KB", "MB", "GB", "TB", "PB", "EB"}

// CheckString: the unit is the largest not above the size, the number the
// size in that unit to three decimals.
func CheckString() {
	n := sym.Uint64("size")
	sym.Assume(n < 1<<64-1<<10)
	check(n)
}

// CheckHalves: the same next to the halves of a thousandth.
//
// bound: CheckHalves: the 64 sizes around three halves of a thousandth of each unit
func CheckHalves() {
	b := uint(10 * (1 + sym.Choice("unit", 4)))
	t := []uint64{1023998, 700123, 1000}[sym.Choice("thousandths", 3)]
	// t.5 thousandths of 2^b
	x := (2*t + 1) * (1 << b / 2)
	check(x/1000 - 32 + uint64(sym.Byte("off")&63))
}

func check(n uint64) {
	k := 0
	for k < 6 && n>>(10*(k+1)) != 0 {
		k++
	}
	s := fs.FileSize(n).String()
	u := units[k]
	sym.Assert(len(s) > len(u)+4 && s[len(s)-len(u):] == u, "the unit is the largest that is not above the size")
	s = s[:len(s)-len(u)]
	p := len(s) - 4
	sym.Assert(s[p] == '.', "there are three decimals")
	num, ok := uint64(0), true
	for i := 0; i < len(s); i++ {
		if i == p {
			continue
		}
		ok = sym.And(ok, sym.And(s[i] >= '0', s[i] <= '9'))
		num = num*10 + uint64(s[i]-'0')
	}
	sym.Assert(ok, "the number is in decimal digits")
	sym.Assert(sym.Or(p == 1, s[0] != '0'), "the number has no needless zeros")

	// num/1000 against n/2^b
	b := uint(10 * k)
	whole, rest := n>>b, n&(1<<b-1)
	sym.Assert(sym.And(num >= whole*1000, num <= whole*1000+1000), "the number is the size in that unit")
	if b == 0 {
		sym.Assert(num == whole*1000, "bytes are whole")
		return
	}
	if n < 1<<53 {
		// exactly, a half either way
		x := rest * 1000
		q, r := x>>b, x&(1<<b-1)
		up, half := r > 1<<(b-1), r == 1<<(b-1)
		d := num - whole*1000
		sym.Assert(sym.Or(sym.And(d == q, !up), sym.And(d == q+1, sym.Or(up, half))), "the number is rounded to the nearest thousandth")
	} else {
		// a float64 does not hold the size exactly; from its first ten bits
		// the rest is known to a thousandth
		t := (rest >> (b - 10)) * 1000 >> 10
		sym.Assert(sym.And(num+1 >= whole*1000+t, num <= whole*1000+t+2), "the number is that of the size to a thousandth")
	}
	sym.Cover("done")
}

// CheckNumber: the number itself.
func CheckNumber() {
	n, m := sym.Uint64("size"), sym.Uint64("other")
	f := fs.FileSize(n)
	sym.Assert(f.N() == n, "N is the size")
	f.Set(m)
	sym.Assert(f.N() == m && f == fs.FileSize(m), "Set sets the size")
	sym.Cover("done")
}
