// Package c24: AES in CBC mode.
//
// bound: keys of 16, 24 and 32 arbitrary bytes and every other length 0..33, up to 3 messages of 0..33 (thorough 0..49) arbitrary bytes; the block cipher is an uninterpreted permutation for every key (every block cipher), the CBC mode is the standard library's own code
package c24

import (
	"crypto/aes"
	"crypto/cipher"

	gx "github.com/vipally/gx/crypto/aes"

	"verif/hx"
	"verif/sym"
)

func key() []byte { return sym.Bytes("key", []int{16, 24, 32}[sym.Choice("key len", 3)]) }

var lens = []int{0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 49}

func msg(i int) []byte {
	return sym.Bytes("msg", lens[sym.Choice("len", sym.Bound(8, 11))])
}

func pair(k []byte) (*gx.AESEncrypter, *gx.AESDecrypter) {
	e, err := gx.NewAESEncrypter(k)
	sym.Assert(err == nil && e != nil, "a key of 16, 24 or 32 bytes is taken")
	d, err := gx.NewAESDecrypter(k)
	sym.Assert(err == nil && d != nil, "a key of 16, 24 or 32 bytes is taken")
	return e, d
}

// want is standard CBC with the first key bytes as the vector.
func want(k []byte, msgs ...[]byte) []byte {
	b, _ := aes.NewCipher(k)
	m := cipher.NewCBCEncrypter(b, k[:16])
	var out []byte
	for _, x := range msgs {
		n := 16 - len(x)%16
		p := append([]byte(nil), x...)
		for i := 0; i < n; i++ {
			p = append(p, byte(n))
		}
		o := make([]byte, len(p))
		m.CryptBlocks(o, p)
		out = append(out, o...)
	}
	return out
}

// CheckTrip: messages decrypted in the order they were encrypted come back.
func CheckTrip() {
	k := key()
	e, d := pair(k)
	n := 1 + sym.Choice("msgs", 2)
	var ms, cs [][]byte
	var all []byte
	for i := 0; i < n; i++ {
		m := msg(i)
		was := append([]byte(nil), m...)
		m = hx.Roomy(m)
		var c []byte
		if sym.Choice("string", 2) == 1 {
			c = e.EncryptString(string(m))
		} else {
			c = e.Encrypt(m)
		}
		sym.Assert(sym.EqBytes(m, was), "Encrypt leaves the message alone")
		sym.Assert(hx.RoomKept(m), "Encrypt leaves what follows the message alone")
		sym.Assert(len(c) == len(m)/16*16+16, "the ciphertext is the padded message's size")
		ms, cs = append(ms, m), append(cs, c)
		all = append(all, c...)
	}
	sym.Assert(sym.EqBytes(all, want(k, ms...)), "the ciphertext is AES-CBC of the padded messages")
	for i, c := range cs {
		was := append([]byte(nil), c...)
		if i%2 == 0 {
			got := d.Decrypt(c)
			sym.Assert(len(got) == len(ms[i]) && sym.EqBytes(got, ms[i]), "decrypting gives the message back")
		} else {
			got := d.DecryptToString(c)
			sym.Assert(len(got) == len(ms[i]) && sym.EqBytes([]byte(got), ms[i]), "decrypting gives the message back")
		}
		sym.Assert(sym.EqBytes(c, was), "Decrypt leaves the ciphertext alone")
	}
	sym.Cover("done")
}

// CheckTurns: encrypting and decrypting take turns.
func CheckTurns() {
	k := key()
	e, d := pair(k)
	for i := 0; i < 3; i++ {
		m := sym.Bytes("msg", []int{0, 15, 16}[sym.Choice("len", 3)])
		got := d.Decrypt(e.Encrypt(m))
		sym.Assert(len(got) == len(m) && sym.EqBytes(got, m), "decrypting gives the message back")
	}
	sym.Cover("done")
}

// CheckTwo: two pairs, with different keys, do not disturb each other.
func CheckTwo() {
	k1, k2 := sym.Bytes("key", 16), sym.Bytes("key", 16)
	e1, d1 := pair(k1)
	e2, d2 := pair(k2)
	m1, m2 := sym.Bytes("msg", 5), sym.Bytes("msg", 16)
	c1 := e1.Encrypt(m1)
	c2 := e2.Encrypt(m2)
	sym.Assert(sym.EqBytes(c1, want(k1, m1)) && sym.EqBytes(c2, want(k2, m2)), "each encrypter uses its own key")
	sym.Assert(sym.EqBytes(d2.Decrypt(c2), m2), "decrypting gives the message back")
	sym.Assert(sym.EqBytes(d1.Decrypt(c1), m1), "decrypting gives the message back")
	sym.Cover("done")
}

// CheckKeyCopied: changing the key slice afterwards changes nothing.
func CheckKeyCopied() {
	k := sym.Bytes("key", 16)
	was := append([]byte(nil), k...)
	e, d := pair(k)
	for i := range k {
		k[i] = 0
	}
	m := sym.Bytes("msg", 17)
	c := e.Encrypt(m)
	sym.Assert(sym.EqBytes(c, want(was, m)), "the key given first is used")
	sym.Assert(sym.EqBytes(d.Decrypt(c), m), "decrypting gives the message back")
	sym.Cover("done")
}

// CheckBadKey: no object for a key of the wrong size.
func CheckBadKey() {
	n := sym.Choice("n", 34)
	if n == 16 || n == 24 || n == 32 {
		sym.Skip()
	}
	k := sym.Bytes("key", n)
	e, err := gx.NewAESEncrypter(k)
	sym.Assert(err != nil && e == nil, "a key of another size is refused")
	d, err := gx.NewAESDecrypter(k)
	sym.Assert(err != nil && d == nil, "a key of another size is refused")
	sym.Cover("done")
}

// CheckBig: longer messages, of which some bytes are arbitrary.
//
// bound: CheckBig: a message of 64, 100, 256 (thorough also 1000) bytes of which 5 arbitrary between two short ones
func CheckBig() {
	k := key()
	e, d := pair(k)
	n := []int{64, 100, 256, 1000}[sym.Choice("len", sym.Bound(3, 4))]
	m := make([]byte, n)
	copy(m[n/2:], sym.Bytes("msg", 5))
	ms := [][]byte{sym.Bytes("first", 3), m, sym.Bytes("last", 16)}
	var cs [][]byte
	var all []byte
	for _, m := range ms {
		was := append([]byte(nil), m...)
		c := e.Encrypt(m)
		sym.Assert(sym.EqBytes(m, was), "Encrypt leaves the message alone")
		cs = append(cs, c)
	}
	for _, c := range cs {
		all = append(all, c...)
	}
	sym.Assert(sym.EqBytes(all, want(k, ms...)), "the ciphertext is AES-CBC of the padded messages")
	var got [][]byte
	for _, c := range cs {
		got = append(got, d.Decrypt(c))
	}
	for i := range ms {
		sym.Assert(len(got[i]) == len(ms[i]) && sym.EqBytes(got[i], ms[i]), "decrypting gives the message back")
	}
	sym.Cover("done")
}
