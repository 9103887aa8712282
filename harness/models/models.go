// Package models holds the environment models that stand in for functions of
// the standard library the solver cannot look through: digests are
// uninterpreted functions of everything written, block ciphers are
// uninterpreted permutations with their inverse. The checksums carry the
// table's first entry in their tag, so that different polynomials are
// different functions.
package models

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/des"
	"hash"
	"hash/crc32"
	"hash/crc64"
	"sort"
	"time"

	"verif/sym"
)

// digest is a hash.Hash: UF(tag) of the bytes written since Reset.
type digest struct {
	tag         string
	size, block int
	data        []byte
}

func (d *digest) Write(p []byte) (int, error) {
	d.data = append(d.data, p...)
	return len(p), nil
}

func (d *digest) WriteString(s string) (int, error) {
	d.data = append(d.data, s...)
	return len(s), nil
}

func (d *digest) Sum(b []byte) []byte { return append(b, sym.UF(d.tag, d.data, d.size)...) }
func (d *digest) Reset()              { d.data = nil }
func (d *digest) Size() int           { return d.size }
func (d *digest) BlockSize() int      { return d.block }

func be(b []byte) (v uint64) {
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return v
}

type digest32 struct{ digest }

func (d *digest32) Sum32() uint32 { return uint32(be(d.Sum(nil))) }

type digest64 struct{ digest }

func (d *digest64) Sum64() uint64 { return be(d.Sum(nil)) }

func dg(tag string, size, block int) hash.Hash { return &digest{tag: tag, size: size, block: block} }

func NewMD5() hash.Hash        { return dg("md5", 16, 64) }
func NewSHA1() hash.Hash       { return dg("sha1", 20, 64) }
func NewSHA256() hash.Hash     { return dg("sha256", 32, 64) }
func NewSHA224() hash.Hash     { return dg("sha224", 28, 64) }
func NewSHA512() hash.Hash     { return dg("sha512", 64, 128) }
func NewSHA384() hash.Hash     { return dg("sha384", 48, 128) }
func NewSHA512_224() hash.Hash { return dg("sha512_224", 28, 128) }
func NewSHA512_256() hash.Hash { return dg("sha512_256", 32, 128) }

func SumMD5(b []byte) (r [16]byte)    { copy(r[:], sym.UF("md5", b, 16)); return }
func SumSHA1(b []byte) (r [20]byte)   { copy(r[:], sym.UF("sha1", b, 20)); return }
func SumSHA256(b []byte) (r [32]byte) { copy(r[:], sym.UF("sha256", b, 32)); return }
func SumSHA224(b []byte) (r [28]byte) { copy(r[:], sym.UF("sha224", b, 28)); return }
func SumSHA512(b []byte) (r [64]byte) { copy(r[:], sym.UF("sha512", b, 64)); return }
func SumSHA384(b []byte) (r [48]byte) { copy(r[:], sym.UF("sha384", b, 48)); return }

func hex(v uint64) string {
	const d = "0123456789abcdef"
	s := ""
	for i := 0; i < 16; i++ {
		s = d[v&15:v&15+1] + s
		v >>= 4
	}
	return s
}

func tag32(t *crc32.Table) string { return "crc32_" + hex(uint64(t[1])) }
func tag64(t *crc64.Table) string { return "crc64_" + hex(t[1]) }

func NewCRC32T(t *crc32.Table) hash.Hash32 {
	return &digest32{digest{tag: tag32(t), size: 4, block: 1}}
}

func NewCRC32() hash.Hash32 { return NewCRC32T(crc32.MakeTable(crc32.IEEE)) }

func ChecksumCRC32T(b []byte, t *crc32.Table) uint32 { return uint32(be(sym.UF(tag32(t), b, 4))) }
func ChecksumCRC32(b []byte) uint32                  { return ChecksumCRC32T(b, crc32.MakeTable(crc32.IEEE)) }

func NewCRC64T(t *crc64.Table) hash.Hash64 {
	return &digest64{digest{tag: tag64(t), size: 8, block: 1}}
}

func ChecksumCRC64T(b []byte, t *crc64.Table) uint64 { return be(sym.UF(tag64(t), b, 8)) }

func NewAdler32() hash.Hash32 { return &digest32{digest{tag: "adler32", size: 4, block: 4}} }

// block is a cipher.Block: for every key a permutation of the blocks.
type block struct {
	tag  string
	size int
	key  []byte
}

func (c *block) BlockSize() int { return c.size }

func (c *block) check(dst, src []byte) {
	if len(src) < c.size || len(dst) < c.size {
		panic("crypto: block not full")
	}
}

func (c *block) Encrypt(dst, src []byte) {
	c.check(dst, src)
	copy(dst, sym.UFPair(c.tag+"_enc", c.tag+"_dec", c.key, src[:c.size]))
}

func (c *block) Decrypt(dst, src []byte) {
	c.check(dst, src)
	copy(dst, sym.UFPair(c.tag+"_dec", c.tag+"_enc", c.key, src[:c.size]))
}

func NewAES(key []byte) (cipher.Block, error) {
	switch len(key) {
	case 16, 24, 32:
		return &block{"aes", 16, append([]byte(nil), key...)}, nil
	}
	return nil, aes.KeySizeError(len(key))
}

func NewDES(key []byte) (cipher.Block, error) {
	if len(key) != 8 {
		return nil, des.KeySizeError(len(key))
	}
	return &block{"des", 8, append([]byte(nil), key...)}, nil
}

func NewTripleDES(key []byte) (cipher.Block, error) {
	if len(key) != 24 {
		return nil, des.KeySizeError(len(key))
	}
	return &block{"3des", 8, append([]byte(nil), key...)}, nil
}

// Now: gx uses the time of day only to seed generators.
func Now() time.Time { return time.Time{} }

// sort.Slice by the same algorithm (sort.Sort's and sort.Slice's are generated
// from one), without reflection.
type anySlice struct {
	s    interface{}
	less func(i, j int) bool
}

func (a anySlice) Len() int           { return sym.SliceLen(a.s) }
func (a anySlice) Less(i, j int) bool { return a.less(i, j) }
func (a anySlice) Swap(i, j int)      { sym.SliceSwap(a.s, i, j) }

func SortSlice(x interface{}, less func(i, j int) bool)       { sort.Sort(anySlice{x, less}) }
func SortSliceStable(x interface{}, less func(i, j int) bool) { sort.Stable(anySlice{x, less}) }
func SortSliceIsSorted(x interface{}, less func(i, j int) bool) bool {
	return sort.IsSorted(anySlice{x, less})
}

// errors.As without reflection.
func ErrorsAs(err error, target interface{}) bool {
	for err != nil {
		if sym.AsTarget(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(interface{}) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if e != nil && ErrorsAs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}
