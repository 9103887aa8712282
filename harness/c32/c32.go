// Package c32: triple DES in ECB mode and the text codecs built on it.
//
// bound: keys of 0..26 arbitrary bytes, data of 0..17 (thorough 0..33) arbitrary bytes; DES is an uninterpreted permutation for every key (every block cipher of that shape); CheckTwo: two encryptions by keys differing in one arbitrary byte
package c32

import (
	"bytes"
	"crypto/des"
	"crypto/sha512"
	"encoding/base64"

	"github.com/vipally/gx/crypto/ecb"
	"github.com/vipally/gx/crypto/rsa"

	"verif/hx"
	"verif/sym"
)

func data() []byte {
	n := []int{0, 1, 7, 8, 9, 16, 17, 24, 33}[sym.Choice("len", sym.Bound(6, 9))]
	d := sym.Bytes("data", n)
	if n > 0 {
		sym.Assume(d[n-1] != 0)
	}
	return d
}

func key() []byte {
	return sym.Bytes("key", []int{0, 1, 8, 16, 23, 24, 26}[sym.Choice("key len", 7)])
}

// want is E-D-E with the three thirds of the key, block by block.
func want(d, k []byte) []byte {
	t := make([]byte, 24)
	copy(t, k)
	b1, _ := des.NewCipher(t[:8])
	b2, _ := des.NewCipher(t[8:16])
	b3, _ := des.NewCipher(t[16:])
	p := append(append([]byte(nil), d...), make([]byte, 8-len(d)%8)...)
	for i := 0; i < len(p); i += 8 {
		b1.Encrypt(p[i:i+8], p[i:i+8])
		b2.Decrypt(p[i:i+8], p[i:i+8])
		b3.Encrypt(p[i:i+8], p[i:i+8])
	}
	return p
}

// CheckTrip: decrypting undoes encrypting, for data not ending in zero.
func CheckTrip() {
	d, k := hx.Roomy(data()), hx.Roomy(key())
	dw, kw := append([]byte(nil), d...), append([]byte(nil), k...)
	c, err := ecb.TripleDesEncrypt(d, k)
	sym.Assert(err == nil, "any key and any data are encrypted")
	sym.Assert(len(c) == len(d)/8*8+8 && sym.EqBytes(c, want(dw, kw)), "the ciphertext is DES encrypt-decrypt-encrypt, block by block")
	sym.Assert(sym.EqBytes(d, dw) && sym.EqBytes(k, kw), "the arguments are left alone")
	sym.Assert(hx.RoomKept(d) && hx.RoomKept(k), "what follows the arguments is left alone")
	c = hx.Roomy(c)
	cw := append([]byte(nil), c...)
	got, err := ecb.TripleDesDecrypt(c, k)
	sym.Assert(err == nil && len(got) == len(d) && sym.EqBytes(got, d), "decrypting gives the data back")
	sym.Assert(sym.EqBytes(c, cw), "the ciphertext is left alone")
	sym.Assert(hx.RoomKept(c) && hx.RoomKept(k), "what follows the arguments is left alone")
	sym.Cover("done")
}

// CheckBadSize: what is not a whole number of blocks is refused.
func CheckBadSize() {
	n := sym.Choice("n", 20)
	if n%8 == 0 && n > 0 {
		sym.Skip()
	}
	_, err := ecb.TripleDesDecrypt(sym.Bytes("data", n), sym.Bytes("key", 24))
	sym.Assert(err != nil, "a partial block is refused")
	sym.Cover("done")
}

// CheckCodec: Encode/Decode and their string forms.
func CheckCodec() {
	d := hx.Roomy(data())
	e := rsa.Encode(d)
	sym.Assert(hx.RoomKept(d), "what follows the data is left alone")
	sym.Assert(len(e) == (len(d)/8*8+8+2)/3*4, "the code is base64 of the encrypted data")
	b, err := base64.StdEncoding.DecodeString(e)
	sym.Assert(err == nil && len(b) == len(d)/8*8+8 && sym.EqBytes(b, want(d, []byte(fixed))), "the code is base64 of the encrypted data")
	got := rsa.Decode(e)
	sym.Assert(len(got) == len(d) && sym.EqBytes(got, d), "Decode undoes Encode")
	sym.Assert(sym.EqBytes([]byte(rsa.EncodeString(string(d))), []byte(e)), "EncodeString encodes like Encode")
	s := rsa.DecodeString(e)
	sym.Assert(len(s) == len(d) && sym.EqBytes([]byte(s), d), "DecodeString undoes Encode")
	sym.Cover("done")
}

// CheckJunk: what is no code decodes to nothing.
func CheckJunk() {
	n := sym.Choice("n", sym.Bound(4, 6))
	s := sym.String("s", n)
	sym.Assert(len(rsa.Decode(s)) == 0 && rsa.DecodeString(s) == "", "what is no code decodes to nothing")
	sym.Cover("done")
}

// fixed is the key of the package.
const fixed = "ac643718-9730-e711-59210"

func keyed(d []byte) []byte {
	var all []byte
	for i := 0; i < 5; i++ {
		all = append(append(append(all, fixed...), d...), fixed...)
	}
	r := sha512.Sum512(all)
	return r[:]
}

// CheckHash: a digest, the same for equal data, in hex for strings.
func CheckHash() {
	d := hx.Roomy(sym.Bytes("data", sym.Choice("len", 4)))
	h := rsa.Hash(d)
	sym.Assert(hx.RoomKept(d), "what follows the data is left alone")
	sym.Assert(len(h) == sha512.Size && sym.EqBytes(h, rsa.Hash(append([]byte(nil), d...))), "Hash is a function of the data")
	sym.Assert(sym.EqBytes(h, keyed(d)), "Hash is SHA-512 of five times key, data and key")
	sym.Assert(bytes.Equal([]byte(rsa.HashString(string(d))), []byte(rsa.BytesToHexString(h))), "HashString is Hash in hex")
	sym.Cover("done")
}

// CheckHex: hex strings.
func CheckHex() {
	d := sym.Bytes("data", sym.Choice("len", sym.Bound(5, 9)))
	s := rsa.BytesToHexString(d)
	sym.Assert(len(s) == 2*len(d), "two digits a byte")
	ok := true
	for i, c := range d {
		const dig = "0123456789abcdef"
		ok = sym.And(ok, sym.And(s[2*i] == dig[c>>4], s[2*i+1] == dig[c&15]))
	}
	sym.Assert(ok, "lower-case digits, the high half first")
	b := rsa.HexStringToBytes(s)
	sym.Assert(len(b) == len(d) && sym.EqBytes(b, d), "HexStringToBytes undoes BytesToHexString")
	sym.Cover("done")
}

// CheckNoHex: what is no hex string gives nil.
func CheckNoHex() {
	n := sym.Choice("n", sym.Bound(3, 5))
	s := sym.String("s", n)
	b := rsa.HexStringToBytes(s)
	digit := func(c byte) bool {
		return sym.Or(sym.And(c >= '0', c <= '9'), sym.Or(sym.And(c >= 'a', c <= 'f'), sym.And(c >= 'A', c <= 'F')))
	}
	ok := n%2 == 0
	for i := 0; i < n; i++ {
		ok = sym.And(ok, digit(s[i]))
	}
	sym.Assert((b != nil) == ok, "only pairs of hex digits are taken")
	sym.Cover("done")
}

// CheckBig: larger data, of which some bytes are arbitrary.
//
// bound: CheckBig: data of 64, 65, 100 (thorough also 1000) bytes of which 6 arbitrary, for encryption, codec, hash and hex
func CheckBig() {
	n := []int{64, 65, 100, 1000}[sym.Choice("len", sym.Bound(3, 4))]
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(i*37 + 1)
	}
	copy(d[n/2:], sym.Bytes("data", 5))
	d[n-1] = sym.Byte("last")
	sym.Assume(d[n-1] != 0)
	switch sym.Choice("what", 3) {
	case 0:
		k := sym.Bytes("key", 24)
		c, err := ecb.TripleDesEncrypt(d, k)
		sym.Assert(err == nil && len(c) == len(d)/8*8+8 && sym.EqBytes(c, want(d, k)), "the ciphertext is DES encrypt-decrypt-encrypt, block by block")
		got, err := ecb.TripleDesDecrypt(c, k)
		sym.Assert(err == nil && len(got) == len(d) && sym.EqBytes(got, d), "decrypting gives the data back")
	case 1:
		got := rsa.Decode(rsa.Encode(d))
		sym.Assert(len(got) == len(d) && sym.EqBytes(got, d), "Decode undoes Encode")
		sym.Assert(sym.EqBytes(rsa.Hash(d), keyed(d)), "Hash is SHA-512 of five times key, data and key")
	case 2:
		s := rsa.BytesToHexString(d)
		sym.Assert(len(s) == 2*n, "two digits a byte")
		b := rsa.HexStringToBytes(s)
		sym.Assert(len(b) == n && sym.EqBytes(b, d), "HexStringToBytes undoes BytesToHexString")
	}
	sym.Cover("done")
}

// CheckTwo: one encryption has nothing to do with another, even where they
// share the memory of the key.
func CheckTwo() {
	k := make([]byte, []int{1, 24}[sym.Choice("key len", 2)])
	at := []int{0, 8, 16, 23}[sym.Choice("at", 4)] % len(k)
	for i := range k {
		k[i] = byte(i * 3)
	}
	k[at] = sym.Byte("k")
	kw := append([]byte(nil), k...)
	d, e := []byte{sym.Byte("d")}, []byte{7, sym.Byte("e")}
	sym.Assume(d[0] != 0 && e[1] != 0)
	x, err := ecb.TripleDesEncrypt(d, k)
	sym.Assert(err == nil, "any key and any data are encrypted")
	l := k
	if sym.Choice("same memory", 2) == 0 {
		l = append([]byte(nil), k...)
	}
	l[at] = sym.Byte("new")
	y, err := ecb.TripleDesEncrypt(e, l)
	sym.Assert(err == nil && sym.EqBytes(x, want(d, kw)), "a second encryption leaves the first one")
	sym.Assert(sym.EqBytes(y, want(e, l)), "the second one is by its own key")
	a, err := ecb.TripleDesDecrypt(x, kw)
	sym.Assert(err == nil, "decrypting gives the data back")
	b, err := ecb.TripleDesDecrypt(y, l)
	sym.Assert(err == nil && len(b) == len(e) && sym.EqBytes(b, e) && len(a) == len(d) && sym.EqBytes(a, d), "decrypting gives both back")
	sym.Cover("done")
}
