// Package c23: block padding.
//
// bound: (zero round trip: 0..6, thorough 0..15 bytes) data of 0..17 (thorough 0..40) arbitrary bytes, block sizes 1..8, 16 (thorough 1..20, 32, 255), the argument with and without spare capacity
package c23

import (
	"github.com/vipally/gx/crypto"
	aes "github.com/vipally/gx/crypto/aes"

	"verif/sym"
)

func bs() int {
	if sym.Bound(0, 1) == 1 {
		return []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 32, 255}[sym.Choice("block", 22)]
	}
	return []int{1, 2, 3, 4, 5, 6, 7, 8, 16}[sym.Choice("block", 9)]
}

// arg gives a caller's slice: its bytes, and the array behind it.
func arg() (d, whole, copyOf []byte) {
	n := sym.Choice("len", sym.Bound(18, 41))
	spare := 20 * sym.Choice("spare", 2)
	whole = sym.Bytes("data", n+spare)
	copyOf = append([]byte(nil), whole...)
	return whole[:n], whole, copyOf
}

func pad(got, d []byte, b int, fill func(n int) byte) {
	sym.Assert(len(got)%b == 0 && len(got) > len(d) && len(got) <= len(d)+b, "1 to blockSize bytes are added, to a whole number of blocks")
	sym.Assert(sym.EqBytes(got[:len(d)], d), "the data come first, unchanged")
	n := len(got) - len(d)
	ok := true
	for _, x := range got[len(d):] {
		ok = sym.And(ok, x == fill(n))
	}
	sym.Assert(ok, "the bytes added are the padding")
}

func CheckPKCS5() {
	d, whole, was := arg()
	b := bs()
	p := crypto.PKCS5Padding(d, b)
	pad(p, was[:len(d)], b, func(n int) byte { return byte(n) })
	sym.Assert(sym.EqBytes(crypto.PKCS5UnPadding(p), was[:len(d)]), "unpadding gives the data back")
	sym.Assert(sym.EqBytes(whole, was), "the caller's memory is untouched")
	sym.Cover("done")
}

func CheckPKCS7() {
	d, whole, was := arg()
	b := bs()
	p := aes.PKCS7Padding(d, b)
	pad(p, was[:len(d)], b, func(n int) byte { return byte(n) })
	sym.Assert(sym.EqBytes(aes.PKCS7Unpadding(p), was[:len(d)]), "unpadding gives the data back")
	sym.Assert(sym.EqBytes(whole, was), "the caller's memory is untouched")
	sym.Assert(!sym.Overlap(p, whole), "the result is the caller's own")
	q := aes.PKCS7PaddingString(string(d), b)
	sym.Assert(len(q) == len(p) && sym.EqBytes(p, q), "a string is padded like its bytes")
	sym.Cover("done")
}

func CheckZero() {
	d, whole, was := arg()
	b := bs()
	p := crypto.ZeroPadding(d, b)
	pad(p, was[:len(d)], b, func(n int) byte { return 0 })
	sym.Assert(sym.EqBytes(whole, was), "the caller's memory is untouched")
	sym.Cover("done")
}

// CheckZeroTrip: zero padding is taken off data that do not end in zero.
func CheckZeroTrip() {
	n := sym.Choice("len", sym.Bound(7, 16))
	d := sym.Bytes("data", n)
	if n > 0 {
		sym.Assume(d[n-1] != 0)
	}
	b := []int{1, 4, 7, 8}[sym.Choice("block", 4)]
	got := crypto.ZeroUnPadding(crypto.ZeroPadding(d, b))
	sym.Assert(len(got) == n && sym.EqBytes(got, d), "unpadding gives the data back")
	sym.Cover("done")
}

// CheckBig: larger data and blocks.
//
// bound: CheckBig: data of 63, 64, 65, 127, 128, 255, 256, 300, 1000, 5000, 70000 bytes of which 3 arbitrary, blocks of 8, 16, 64, 128, 255
func CheckBig() {
	n := []int{63, 64, 65, 127, 128, 255, 256, 300, 1000, 5000, 70000}[sym.Choice("len", 11)]
	b := []int{8, 16, 64, 128, 255}[sym.Choice("block", 5)]
	whole := make([]byte, n+300*sym.Choice("spare", 2))
	for i := range whole {
		whole[i] = byte(i * 31)
	}
	copy(whole[n-2:], sym.Bytes("data", 3))
	d := whole[:n]
	was := append([]byte(nil), whole...)
	var p, back []byte
	fill := func(n int) byte { return byte(n) }
	kind := sym.Choice("kind", 3)
	switch kind {
	case 0:
		p = crypto.PKCS5Padding(d, b)
		back = crypto.PKCS5UnPadding(append([]byte(nil), p...))
	case 1:
		p = aes.PKCS7Padding(d, b)
		back = aes.PKCS7Unpadding(append([]byte(nil), p...))
	case 2:
		sym.Assume(d[n-1] != 0)
		p = crypto.ZeroPadding(d, b)
		back = crypto.ZeroUnPadding(append([]byte(nil), p...))
		fill = func(int) byte { return 0 }
	}
	pad(p, was[:n], b, fill)
	sym.Assert(len(back) == n && sym.EqBytes(back, was[:n]), "unpadding gives the data back")
	sym.Assert(sym.EqBytes(whole, was), "the caller's memory is untouched")
	sym.Cover("done")
}
