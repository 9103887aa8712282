// Package vrsa holds keys and the models of crypto/rsa and crypto/x509 the
// executor uses in place of the real ones (native runs use the real ones): a
// ciphertext is an arbitrary text that only decrypts with its key, a
// signature one that only verifies with its key, hash method and digest.
package vrsa

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/md5"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/pem"
	"errors"
	"hash"
	"io"
	"math/big"

	"verif/sym"
)

type fixture struct {
	priv, pub []byte // DER
	bits      int
}

var fixtures []fixture

func der(s string) []byte {
	b, _ := pem.Decode([]byte(s))
	return b.Bytes
}

func all() []fixture {
	if fixtures == nil {
		fixtures = []fixture{{der(Priv0), der(Pub0), 1024}, {der(Priv1), der(Pub1), 1024}, {der(Priv2), der(Pub2), 2048}}
	}
	return fixtures
}

func same(a, b []byte) bool { return string(a) == string(b) }

// the modulus is a number of the right size that tells which key it is.
func public(i int) rsa.PublicKey {
	n := make([]byte, all()[i].bits/8)
	n[0], n[len(n)-1] = 0x80, byte(i)
	return rsa.PublicKey{N: new(big.Int).SetBytes(n), E: 65537}
}

func private(i int) *rsa.PrivateKey {
	return &rsa.PrivateKey{PublicKey: public(i), D: big.NewInt(3), Primes: []*big.Int{big.NewInt(3), big.NewInt(5)}}
}

func which(p *rsa.PublicKey) int {
	return int(p.N.Bits()[0])
}

var errModel = errors.New("crypto: refused")

func GenerateKey(random io.Reader, bits int) (*rsa.PrivateKey, error) {
	if bits < 1024 {
		return nil, errModel
	}
	for i, f := range all() {
		if f.bits == bits {
			return private(i), nil
		}
	}
	return nil, errModel
}

func ParsePKIXPublicKey(b []byte) (interface{}, error) {
	for i, f := range all() {
		if same(b, f.pub) {
			p := public(i)
			return &p, nil
		}
	}
	if same(b, der(EC)) {
		return &ecdsa.PublicKey{}, nil
	}
	if same(b, der(Ed)) {
		return ed25519.PublicKey(make([]byte, 32)), nil
	}
	return nil, errModel
}

func ParsePKCS1PrivateKey(b []byte) (*rsa.PrivateKey, error) {
	for i, f := range all() {
		if same(b, f.priv) {
			return private(i), nil
		}
	}
	return nil, errModel
}

func ParsePKCS1PublicKey(b []byte) (*rsa.PublicKey, error) { return nil, errModel }
func ParsePKCS8PrivateKey(b []byte) (interface{}, error)   { return nil, errModel }

func MarshalPKCS1PrivateKey(k *rsa.PrivateKey) []byte { return all()[which(&k.PublicKey)].priv }

func MarshalPKIXPublicKey(k interface{}) ([]byte, error) {
	if p, ok := k.(*rsa.PublicKey); ok {
		return all()[which(p)].pub, nil
	}
	return nil, errModel
}

type sent struct {
	key      int
	ct, text []byte
}

var (
	mails []sent
	nonce byte
)

func EncryptPKCS1v15(random io.Reader, pub *rsa.PublicKey, msg []byte) ([]byte, error) {
	k := all()[which(pub)].bits / 8
	if len(msg) > k-11 {
		return nil, rsa.ErrMessageTooLong
	}
	nonce++
	in := append([]byte{byte(which(pub)), nonce}, msg...)
	ct := sym.UF("rsaenc", in, k)
	for _, m := range mails {
		sym.Assume(len(ct) != len(m.ct) || !sym.EqBytes(ct, m.ct)) // no two alike
	}
	mails = append(mails, sent{which(pub), append([]byte(nil), ct...), append([]byte(nil), msg...)})
	return ct, nil
}

func DecryptPKCS1v15(random io.Reader, priv *rsa.PrivateKey, ct []byte) ([]byte, error) {
	for _, m := range mails {
		if m.key == which(&priv.PublicKey) && len(ct) == len(m.ct) && sym.EqBytes(ct, m.ct) {
			return append([]byte(nil), m.text...), nil
		}
	}
	return nil, rsa.ErrDecryption
}

// sign: the digest itself and 56 bytes that depend on everything.
func sign(key int, h crypto.Hash, digest []byte) []byte {
	k := all()[key].bits / 8
	r := append([]byte{byte(key), byte(h)}, digest...)
	return append(r, sym.UF("rsasig", r, k-len(r))...)
}

func size(h crypto.Hash) int {
	switch h {
	case crypto.MD5:
		return 16
	case crypto.SHA1:
		return 20
	case crypto.SHA224:
		return 28
	case crypto.SHA256:
		return 32
	case crypto.SHA384:
		return 48
	case crypto.SHA512:
		return 64
	}
	return -1
}

func SignPKCS1v15(random io.Reader, priv *rsa.PrivateKey, h crypto.Hash, digest []byte) ([]byte, error) {
	if h != 0 && len(digest) != size(h) {
		return nil, errModel
	}
	return sign(which(&priv.PublicKey), h, digest), nil
}

func VerifyPKCS1v15(pub *rsa.PublicKey, h crypto.Hash, digest, sig []byte) error {
	if h != 0 && len(digest) != size(h) {
		return errModel
	}
	w := sign(which(pub), h, digest)
	if len(sig) != len(w) || !sym.EqBytes(sig, w) {
		return rsa.ErrVerification
	}
	return nil
}

// HashNew is crypto.Hash.New.
func HashNew(h crypto.Hash) hash.Hash {
	switch h {
	case crypto.MD5:
		return md5.New()
	case crypto.SHA1:
		return sha1.New()
	case crypto.SHA224:
		return sha256.New224()
	case crypto.SHA256:
		return sha256.New()
	case crypto.SHA384:
		return sha512.New384()
	case crypto.SHA512:
		return sha512.New()
	}
	panic("crypto: requested hash function is unavailable")
}

// HashAvailable is crypto.Hash.Available.
func HashAvailable(h crypto.Hash) bool { return size(h) > 0 }
