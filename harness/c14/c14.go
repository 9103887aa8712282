// Package c14: bit, byte and word extraction.
//
// bound: every 32-bit value and every 32-bit index
package c14

import (
	"github.com/vipally/gx/math"

	"verif/sym"
)

func CheckGet() {
	v, i := sym.Uint32("val"), sym.Uint32("idx")
	b, err := math.GetBit(v, i)
	sym.Assert((err == nil) == (i < 32), "GetBit fails iff the index is outside")
	if err == nil {
		sym.Assert(b == v>>i&1, "GetBit is the bit")
	} else {
		sym.Assert(b == 0, "no bit, zero")
	}
	b, err = math.GetByte(v, i)
	sym.Assert((err == nil) == (i < 4), "GetByte fails iff the index is outside")
	if err == nil {
		sym.Assert(b == v>>(8*i)&0xff, "GetByte is the byte")
	} else {
		sym.Assert(b == 0, "no byte, zero")
	}
	b, err = math.GetWord(v, i)
	sym.Assert((err == nil) == (i < 2), "GetWord fails iff the index is outside")
	if err == nil {
		sym.Assert(b == v>>(16*i)&0xffff, "GetWord is the word")
	} else {
		sym.Assert(b == 0, "no word, zero")
	}
	sym.Cover("done")
}

// CheckRebuild: the parts make up the value.
func CheckRebuild() {
	v := sym.Uint32("val")
	var bits, bytes, words uint32
	for i := uint32(0); i < 32; i++ {
		b, err := math.GetBit(v, i)
		sym.Assert(err == nil, "32 bits")
		bits |= b << i
	}
	for i := uint32(0); i < 4; i++ {
		b, err := math.GetByte(v, i)
		sym.Assert(err == nil, "4 bytes")
		bytes |= b << (8 * i)
	}
	for i := uint32(0); i < 2; i++ {
		b, err := math.GetWord(v, i)
		sym.Assert(err == nil, "2 words")
		words |= b << (16 * i)
	}
	sym.Assert(bits == v && bytes == v && words == v, "the parts make up the value")
	sym.Cover("done")
}
