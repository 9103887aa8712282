// Package c18: the integer square root.
//
// bound: CheckLow: every value below 2^16 (thorough 2^20); CheckHigh: every value in 128 (thorough 1024) windows of 2^14 spread over the whole 32-bit range; CheckEdge: every value within 40 of k*k, k*(k+1) for 26 values of k up to 65535, and of 2^32-1
package c18

import (
	"github.com/vipally/gx/math/prime"

	"verif/sym"
)

// nearest: r is the integer nearest to the square root of v.
func nearest(v uint32) {
	r := uint64(prime.SqrtUint32(v))
	w := uint64(v)
	sym.Assert(sym.And(w <= r*r+r, sym.Or(r == 0, r*r-r < w)), "the result is the nearest integer to the square root")
	sym.Cover("done")
}

func CheckLow() {
	v := sym.Uint32("v")
	sym.Assume(v < uint32(1)<<uint(sym.Bound(16, 20)))
	nearest(v)
}

func CheckHigh() {
	n := sym.Bound(128, 1024)
	k := uint32(sym.Choice("window", n))
	t := sym.Uint32("t")
	sym.Assume(t < 1<<14)
	nearest(k*uint32((uint64(1)<<32)/uint64(n)) + t)
}

func CheckEdge() {
	ks := []uint64{1, 2, 3, 7, 8, 15, 16, 31, 100, 255, 256, 1000, 1023, 1024, 4095, 4096, 10000, 16383, 16384, 30000, 32767, 32768, 46340, 50000, 65534, 65535}
	k := ks[sym.Choice("k", len(ks))]
	c := []uint64{k * k, k * (k + 1), 0xffffffff}[sym.Choice("kind", 3)]
	t := int64(sym.Byte("t")) - 40
	sym.Assume(t <= 40)
	v := int64(c) + t
	sym.Assume(sym.And(v >= 0, v <= 0xffffffff))
	nearest(uint32(v))
}
