// Package c28: strings and byte slices as views of each other.
//
// bound: contents of 0..6 (thorough 0..16), 33, 100 and 300 arbitrary bytes, slices taken from the middle of a bigger array
package c28

import (
	"unsafe"

	gx "github.com/vipally/gx/unsafe"

	"verif/sym"
)

func buf() []byte {
	n := sym.Choice("len", sym.Bound(7, 17)+3)
	if big := n - sym.Bound(7, 17); big >= 0 {
		n = []int{33, 100, 300}[big]
	}
	off := sym.Choice("offset", 3)
	b := sym.Bytes("data", n+off+2)
	return b[off : off+n]
}

// CheckBytesString: the string has the bytes, and follows them.
func CheckBytesString() {
	b := buf()
	s := string(gx.BytesString(b))
	sym.Assert(len(s) == len(b), "the string is as long as the slice")
	sym.Assert(sym.EqBytes([]byte(s), b), "the string has the bytes of the slice")
	if len(b) > 0 {
		sym.Assert(unsafe.StringData(s) == &b[0], "nothing is copied")
		i := sym.Choice("at", len(b))
		v := sym.Byte("v")
		b[i] = v
		sym.Assert(s[i] == v, "the string follows the slice")
	}
	sym.Cover("done")
}

// CheckStringBytes: the slice has the bytes of the string, without a copy.
func CheckStringBytes() {
	s := string(buf())
	b := gx.StringBytes(s)
	sym.Assert(len(b) == len(s) && cap(b) == len(s), "the slice is as long as the string and cannot grow in place")
	sym.Assert(sym.EqBytes(b, []byte(s)), "the slice has the bytes of the string")
	if len(s) > 0 {
		sym.Assert(&b[0] == unsafe.StringData(s), "nothing is copied")
	}
	sym.Cover("done")
}

// CheckWrite: the slice of a heap string writes through.
func CheckWrite() {
	b := buf()
	if len(b) == 0 {
		sym.Skip()
	}
	s := string(gx.BytesString(b))
	w := gx.StringBytes(s)
	i := sym.Choice("at", len(b))
	v := sym.Byte("v")
	w[i] = v
	was := append([]byte(nil), b...)
	sym.Assert(s[i] == v && b[i] == v, "writing through the slice changes the string")
	x := append(w, 1, 2)
	sym.Assert(len(x) == len(b)+2 && sym.EqBytes(b, was), "appending does not write past the string")
	full := b[:len(b)+1]
	sym.Assert(!sym.Overlap(x, full), "appending does not write past the string")
	sym.Cover("done")
}

// CheckPointer: the address of the first byte.
func CheckPointer() {
	b := buf()
	if len(b) == 0 {
		sym.Skip()
	}
	s := string(gx.BytesString(b))
	sym.Assert(unsafe.Pointer(gx.BytesPointer(b)) == unsafe.Pointer(&b[0]), "BytesPointer is the address of the first byte")
	sym.Assert(unsafe.Pointer(gx.StringPointer(s)) == unsafe.Pointer(&b[0]), "StringPointer is the address of the first byte")
	sym.Assert(unsafe.Pointer(gx.Bytes(b).Pointer()) == unsafe.Pointer(&b[0]), "Pointer is the address of the first byte")
	sym.Assert(unsafe.Pointer(gx.String(s).Pointer()) == unsafe.Pointer(&b[0]), "Pointer is the address of the first byte")
	*(*byte)(gx.BytesPointer(b)) = 7
	sym.Assert(b[0] == 7 && s[0] == 7, "writing through the pointer changes the first byte")
	sym.Cover("done")
}
