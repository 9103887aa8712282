// Package c20: the fingerprint and the none hash.
//
// instrument: hash
//
// bound: data of 0..4 (thorough 0..8) arbitrary bytes in up to three pieces, every 64-bit size set with Resetsize, prefixes of 0..2 arbitrary bytes; md5, sha1 and crc64 are uninterpreted functions; none hashes made by 2 threads (2 each) or 3 threads (1 each) with at most 3 preemptions (thorough 6)
package c20

import (
	"crypto/md5"
	"crypto/sha1"
	"hash/crc64"

	"github.com/vipally/gx/hash"

	"verif/sched"
	"verif/sym"
)

func data(name string, most int) []byte { return sym.Bytes(name, sym.Choice(name+" len", most+1)) }

func eq(a, b string) bool { return sym.EqBytes([]byte(a), []byte(b)) }

// want is the documented layout: 6 bytes of size, 6 of md5, sha1 and crc64.
func want(d []byte, size int64) []byte {
	var r []byte
	for i := 5; i >= 0; i-- {
		r = append(r, byte(uint64(size)>>(8*uint(i))))
	}
	m, s := md5.Sum(d), sha1.Sum(d)
	c := crc64.New(crc64.MakeTable(crc64.ISO))
	c.Write(d)
	r = append(r, m[4:10]...)
	r = append(r, s[7:13]...)
	return append(r, c.Sum(nil)[1:7]...)
}

func hexs(b []byte) string {
	const d = "0123456789abcdef"
	r := make([]byte, 0, 2*len(b))
	for _, x := range b {
		r = append(r, d[x>>4], d[x&15])
	}
	return string(r)
}

// CheckSum: layout and the hash.Hash contract.
func CheckSum() {
	d := data("data", sym.Bound(4, 8))
	i := sym.Choice("cut", len(d)+1)
	j := i + sym.Choice("cut2", len(d)-i+1)
	f := hash.NewFingerprint()
	if sym.Choice("iface", 2) == 1 {
		sym.Assert(f.Hash() != nil, "Hash gives the object")
	}
	h := f.Hash()
	n1, e1 := h.Write(d[:i])
	mid := h.Sum(nil)
	n2, e2 := h.Write(d[i:j])
	n3, e3 := h.Write(d[j:])
	sym.Assert(e1 == nil && e2 == nil && e3 == nil && n1 == i && n2 == j-i && n3 == len(d)-j, "Write takes everything")
	p := sym.Bytes("prefix", sym.Choice("prefix len", 3))
	got := h.Sum(p)
	w := want(d, int64(len(d)))
	sym.Assert(len(got) == len(p)+24 && h.Size() == 24, "the fingerprint has Size bytes, after the argument of Sum")
	sym.Assert(sym.EqBytes(got[:len(p)], p), "Sum keeps its argument")
	sym.Assert(sym.EqBytes(got[len(p):], w), "Sum appends size, md5, sha1 and crc64 of all the data")
	sym.Assert(sym.EqBytes(mid, want(d[:i], int64(i))), "Sum does not disturb the state")
	sym.Assert(eq(f.String(), hexs(w[:6])+"-"+hexs(w[6:12])+"-"+hexs(w[12:18])+"-"+hexs(w[18:])), "String shows the fingerprint")
	h.Reset()
	h.Write(d[i:])
	sym.Assert(sym.EqBytes(h.Sum(nil), want(d[i:], int64(len(d)-i))), "Reset starts over")
	sym.Cover("done")
}

// CheckSize: the size set from outside, whatever it is, is what shows.
func CheckSize() {
	d := data("data", 2)
	size := sym.Int64("size")
	f := hash.NewFingerprint()
	if sym.Choice("when", 2) == 0 {
		f.Write(d)
		f.Resetsize(size)
	} else {
		f.Resetsize(size)
		f.Write(d)
		size += int64(len(d))
	}
	w := want(d, size)
	sym.Assert(sym.EqBytes(f.Sum(nil), w), "the size is stored in 48 bits, big-endian")
	sym.Assert(eq(f.String(), hexs(w[:6])+"-"+hexs(w[6:12])+"-"+hexs(w[12:18])+"-"+hexs(w[18:])), "String shows the size set")
	f.Reset()
	sym.Assert(sym.EqBytes(f.Sum(nil), want(nil, 0)), "Reset starts over, whatever the size was")
	sym.Cover("done")
}

// CheckSeparate: two fingerprints do not share state.
func CheckSeparate() {
	a, b := data("a", 2), data("b", 2)
	x, y := hash.NewFingerprint(), hash.NewFingerprint()
	x.Write(a)
	y.Write(b)
	sym.Assert(sym.EqBytes(x.Sum(nil), want(a, int64(len(a)))), "the first fingerprint is of its own data")
	sym.Assert(sym.EqBytes(y.Sum(nil), want(b, int64(len(b)))), "the second fingerprint is of its own data")
	sym.Cover("done")
}

// CheckNone: a none hash is a 4-byte number of its own, whatever is written.
func CheckNone() {
	k := sym.Choice("n", 3) + 2
	d := data("data", 3)
	var sums [][]byte
	for i := 0; i < k; i++ {
		h := hash.NewNoneHash()
		s := h.Sum(nil)
		n, err := h.Write(d)
		sym.Assert(n == len(d) && err == nil, "Write takes everything")
		if sym.Choice("reset", 2) == 1 {
			h.Reset()
		}
		p := sym.Bytes("prefix", 2)
		got := h.Sum(p)
		sym.Assert(len(s) == 4 && h.Size() == 4 && len(got) == 6, "the none hash has 4 bytes")
		sym.Assert(sym.EqBytes(got[:2], p) && sym.EqBytes(got[2:], s), "Sum appends the number, whatever was written")
		for _, o := range sums {
			sym.Assert(!sym.EqBytes(o, s), "no two none hashes are the same")
		}
		sums = append(sums, s)
	}
	sym.Cover("done")
}

// CheckNoneHuge: none hashes stay unique in number.
//
// bound: CheckNoneHuge: 300 and 70000 none hashes in a row
func CheckNoneHuge() {
	n := []int{300, 70000}[sym.Choice("n", 2)]
	seen := make(map[uint32]bool)
	for i := 0; i < n; i++ {
		s := hash.NewNoneHash().Sum(nil)
		k := uint32(s[0])<<24 | uint32(s[1])<<16 | uint32(s[2])<<8 | uint32(s[3])
		sym.Assert(!seen[k], "no two none hashes are the same")
		seen[k] = true
	}
	sym.Cover("done")
}

// CheckNoneThreads: none hashes made by several threads at once are unique.
func CheckNoneThreads() {
	threads, each := 2, 2
	if sym.Bool("three") {
		threads, each = 3, 1
	}
	got := make([][]string, threads)
	var fs []func()
	for i := range got {
		i := i
		fs = append(fs, func() {
			for k := 0; k < each; k++ {
				got[i] = append(got[i], string(hash.NONE.New().Sum(nil)))
			}
		})
	}
	sched.Par(sym.Bound(3, 6), fs...)
	var all []string
	for _, l := range got {
		all = append(all, l...)
	}
	for i := range all {
		for j := 0; j < i; j++ {
			sym.Assert(all[i] != all[j], "no two none hashes are the same, whichever threads made them")
		}
	}
	sym.Cover("done")
}

// CheckBig: larger data, of which some bytes are arbitrary.
//
// bound: CheckBig: 63, 64, 65, 300, 70000 bytes of which 3 arbitrary, written in pieces of 64, 4096 or all
func CheckBig() {
	n := []int{63, 64, 65, 300, 70000}[sym.Choice("n", 5)]
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(i * 7)
	}
	copy(d[n/2:], sym.Bytes("data", 3))
	step := []int{64, 4096, n}[sym.Choice("step", 3)]
	f := hash.NewFingerprint()
	for i := 0; i < n; i += step {
		j := i + step
		if j > n {
			j = n
		}
		f.Write(d[i:j])
	}
	w := want(d, int64(n))
	sym.Assert(sym.EqBytes(f.Sum(nil), w), "Sum appends size, md5, sha1 and crc64 of all the data")
	sym.Assert(eq(f.String(), hexs(w[:6])+"-"+hexs(w[6:12])+"-"+hexs(w[12:18])+"-"+hexs(w[18:])), "String shows the fingerprint")
	sym.Cover("done")
}
