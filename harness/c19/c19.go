// Package c19: the hash methods.
//
// bound: data of 0..4 (thorough 0..8) arbitrary bytes written in up to three pieces split anywhere, prefixes of 0..3 arbitrary bytes with and without spare capacity, all 8 methods and every other method number; the digests md5, sha1, sha256, sha512, crc32, crc64 are uninterpreted functions (every function of that type)
package c19

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	gohash "hash"
	"hash/crc32"
	"hash/crc64"

	"github.com/vipally/gx/hash"

	"verif/sym"
)

var methods = []hash.HashMethod{hash.MD5, hash.SHA1, hash.SHA256, hash.SHA512, hash.CRC32, hash.CRC64}

func std(m hash.HashMethod) gohash.Hash {
	switch m {
	case hash.MD5:
		return md5.New()
	case hash.SHA1:
		return sha1.New()
	case hash.SHA256:
		return sha256.New()
	case hash.SHA512:
		return sha512.New()
	case hash.CRC32:
		return crc32.NewIEEE()
	case hash.CRC64:
		return crc64.New(crc64.MakeTable(crc64.ISO))
	}
	panic("no such method")
}

func want(m hash.HashMethod, data []byte) []byte {
	h := std(m)
	h.Write(data)
	return h.Sum(nil)
}

func method() hash.HashMethod { return methods[sym.Choice("method", len(methods))] }

func data(name string, most int) []byte { return sym.Bytes(name, sym.Choice(name+" len", most+1)) }

// CheckDigest: whatever the pieces, Sum appends the digest of all the data.
func CheckDigest() {
	m := method()
	d := data("data", sym.Bound(4, 8))
	i := sym.Choice("cut", len(d)+1)
	j := i + sym.Choice("cut2", len(d)-i+1)
	var h gohash.Hash
	if sym.Choice("how", 2) == 0 {
		h = hash.New(m)
	} else {
		h = m.New()
	}
	n1, e1 := h.Write(d[:i])
	mid := h.Sum(nil)
	n2, e2 := h.Write(d[i:j])
	n3, e3 := h.Write(d[j:])
	sym.Assert(e1 == nil && e2 == nil && e3 == nil && n1 == i && n2 == j-i && n3 == len(d)-j, "Write takes everything")
	p := sym.Bytes("prefix", sym.Choice("prefix len", 3))
	got := h.Sum(p)
	w := want(m, d)
	sym.Assert(len(got) == len(p)+len(w), "Sum adds the size of the digest")
	sym.Assert(sym.EqBytes(got[:len(p)], p), "Sum keeps its argument")
	sym.Assert(sym.EqBytes(got[len(p):], w), "Sum appends the digest of all the data")
	sym.Assert(sym.EqBytes(mid, want(m, d[:i])), "Sum does not disturb the state")
	sym.Assert(h.Size() == len(w), "Size is the size of the digest")
	h.Reset()
	h.Write(d[i:])
	sym.Assert(sym.EqBytes(h.Sum(nil), want(m, d[i:])), "Reset starts over")
	sym.Cover("done")
}

// CheckIndependent: two objects of the same method do not share state.
func CheckIndependent() {
	m := method()
	a, b := data("a", 2), data("b", 2)
	x, y := m.New(), m.New()
	x.Write(a)
	y.Write(b)
	sym.Assert(sym.EqBytes(x.Sum(nil), want(m, a)), "the first object hashes its own data")
	sym.Assert(sym.EqBytes(y.Sum(nil), want(m, b)), "the second object hashes its own data")
	sym.Cover("done")
}

func hex(b []byte) string {
	const d = "0123456789abcdef"
	r := make([]byte, 0, 2*len(b))
	for _, x := range b {
		r = append(r, d[x>>4], d[x&15])
	}
	return string(r)
}

func eq(a, b string) bool { return sym.EqBytes([]byte(a), []byte(b)) }

// CheckString: StringHash and StringHashL are the digest in hex.
func CheckString() {
	m := method()
	d := data("data", sym.Bound(5, 12))
	w := hex(want(m, d))
	sym.Assert(eq(m.StringHash(string(d)), w), "StringHash is the digest in lower-case hex")
	n := len(d)
	l := "00000000" + string([]byte{byte('0' + n/10), byte('0' + n%10)}) + "-"
	sym.Assert(eq(m.StringHashL(string(d)), l+w), "StringHashL adds the length in ten digits")
	sym.Cover("done")
}

// CheckLong: the length in StringHashL grows with the string.
func CheckLong() {
	n := []int{99, 100, 1234}[sym.Choice("n", 3)]
	l := []string{"0000000099-", "0000000100-", "0000001234-"}
	d := make([]byte, n)
	copy(d[n/2:], sym.Bytes("data", 2))
	k := 0
	for i, x := range []int{99, 100, 1234} {
		if x == n {
			k = i
		}
	}
	sym.Assert(eq(hash.MD5.StringHashL(string(d)), l[k]+hex(want(hash.MD5, d))), "StringHashL adds the length in ten digits")
	sym.Cover("done")
}

// CheckUnknown: there is no object for an unknown method.
func CheckUnknown() {
	m := hash.HashMethod(sym.Uint64("m"))
	sym.Assume(m > hash.FINGERPRINT)
	sym.Assert(sym.Panics(func() { m.New() }), "New of an unknown method panics")
	sym.Assert(sym.Panics(func() { hash.New(m) }), "New of an unknown method panics")
	sym.Cover("done")
}

// CheckCompound: NONE and FINGERPRINT make their own kinds of hash.
func CheckCompound() {
	d := data("data", 3)
	h := hash.FINGERPRINT.New()
	h.Write(d)
	f := hash.NewFingerprint()
	f.Write(d)
	sym.Assert(sym.EqBytes(h.Sum(nil), f.Sum(nil)), "FINGERPRINT makes a fingerprint")
	sym.Assert(eq(hash.FINGERPRINT.StringHash(string(d)), hex(f.Sum(nil))), "StringHash of FINGERPRINT is the fingerprint in hex")
	n := hash.New(hash.NONE)
	_, ok := n.(*hash.NoneHash)
	sym.Assert(ok, "NONE makes a none hash")
	sym.Cover("done")
}

// CheckBig: larger data, of which some bytes are arbitrary.
//
// bound: CheckBig: 63, 64, 65, 127, 129, 1000, 5000, 40000 bytes of which 3 arbitrary, written in pieces of 1, 64, 100 or all, or as a string
func CheckBig() {
	m := method()
	n := []int{63, 64, 65, 127, 129, 1000, 5000, 40000}[sym.Choice("n", sym.Bound(8, 8))]
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(i * 7)
	}
	copy(d[n/2:], sym.Bytes("data", 3))
	w := want(m, d)
	step := []int{0, 64, 100, n}[sym.Choice("step", 4)]
	if step == 0 {
		sym.Assert(eq(m.StringHash(string(d)), hex(w)), "StringHash is the digest in lower-case hex")
		return
	}
	h := m.New()
	for i := 0; i < n; i += step {
		j := i + step
		if j > n {
			j = n
		}
		h.Write(d[i:j])
	}
	sym.Assert(sym.EqBytes(h.Sum(nil), w), "Sum appends the digest of all the data")
	sym.Assert(sym.EqBytes(h.Sum(nil), w), "Sum does not disturb the state")
	sym.Cover("done")
}
