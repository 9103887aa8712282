// Package c43: RSA.
//
// bound: keys: two of 1024 bits and one of 2048; CheckCrypt: two messages of 0..3, 100, 117 (the most a key of 1024 bits takes), 118, 245 and 246 bytes of which up to 3 are arbitrary; CheckSign: messages of 0..3, 64, 129 and 300 bytes, of which up to 3 are arbitrary, against any other message of such a length, key and hash method (sha1, sha256, sha384, sha512) and any signature with one byte changed; CheckKeys: 14 texts that are no key of the kind asked for, and every text of up to 2 bytes; CheckGen: keys of 0, 1, 2, 1024 and 2048 bits. crypto/rsa and crypto/x509 are modelled (verif/vrsa): a ciphertext is an arbitrary text that only its key decrypts, a signature verifies for its key, method and digest only; digests are uninterpreted functions; CheckTwo: every two of three key pairs used in turn
package c43

import (
	"crypto"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"hash"

	"github.com/vipally/gx/crypto/rsa"

	"verif/hx"
	"verif/sym"
	"verif/vrsa"
)

var (
	privs = []string{vrsa.Priv0, vrsa.Priv1, vrsa.Priv2}
	pubs  = []string{vrsa.Pub0, vrsa.Pub1, vrsa.Pub2}
	bits  = []int{1024, 1024, 2048}
)

func pair(i int) (*rsa.RsaClient, *rsa.RsaServer) {
	c, err := rsa.NewClient([]byte(pubs[i]))
	sym.Assert(err == nil && c != nil, "a public key is taken")
	s, err := rsa.NewServer([]byte(privs[i]))
	sym.Assert(err == nil && s != nil, "a private key is taken")
	return c, s
}

func message(who string, n int) []byte {
	m := make([]byte, n)
	for i := range m {
		m[i] = byte(i*11 + 3)
	}
	switch {
	case n > 3:
		m[0], m[n/2], m[n-1] = sym.Byte(who+" first"), sym.Byte(who+" middle"), sym.Byte(who+" last")
	case n > 0:
		m = sym.Bytes(who, n)
	}
	return m
}

func eq(a, b []byte) bool { return len(a) == len(b) && sym.EqBytes(a, b) }

// tries: ciphertexts are random, so a native run goes through many.
func tries(n int) int {
	if sym.Symbolic() {
		return 1
	}
	return n
}

// CheckCrypt: what the client encrypts the server decrypts.
func CheckCrypt() {
	i := sym.Choice("key", 3)
	c, s := pair(i)
	lens := []int{0, 1, 2, 3, 100, 117, 118, 245, 246}
	m := hx.Roomy(message("m", lens[sym.Choice("len", 9)]))
	n := message("n", lens[sym.Choice("other len", 6)])
	wasM, wasN := append([]byte(nil), m...), append([]byte(nil), n...)
	for t := tries(300); t > 0; t-- {
		x, err := c.Encrypt(m)
		if len(m) > bits[i]/8-11 {
			sym.Assert(err != nil, "a message too long for the key is refused")
			return
		}
		sym.Assert(err == nil, "a message that fits is encrypted")
		y, err := c.Encrypt(n)
		sym.Assert(err == nil, "a message that fits is encrypted")
		sym.Assert(hx.RoomKept(m), "encrypting leaves what follows the message alone")
		sym.Assert(eq(m, wasM) && eq(n, wasN), "encrypting leaves the message alone")
		a, err := s.Decrypt(x)
		sym.Assert(err == nil && eq(a, m), "decrypting gives the message back")
		b, err := s.Decrypt(y)
		sym.Assert(err == nil && eq(b, n) && eq(a, m), "decrypting gives the second message back and leaves the first one")
		if t > 3 {
			continue
		}
		_, other := pair((i + 1) % 2)
		a, err = other.Decrypt(x)
		sym.Assert(err != nil || !eq(a, m), "another key does not decrypt the message")
		x[len(x)/2] ^= 1
		sym.Assume(!sym.EqBytes(x, y))
		a, err = s.Decrypt(x)
		sym.Assert(err != nil || !eq(a, m), "a changed ciphertext does not give the message")
		_, err = s.Decrypt(y[:len(y)-1])
		sym.Assert(err != nil, "a cut ciphertext is refused")
	}
	sym.Cover("done")
}

var (
	hashes = []crypto.Hash{crypto.SHA512, crypto.SHA256, crypto.SHA1, crypto.SHA384}
	news   = []func() hash.Hash{sha512.New, sha256.New, sha1.New, sha512.New384}
)

func digest(h int, m []byte) []byte {
	d := news[h]()
	d.Write(m)
	return d.Sum(nil)
}

// CheckSign: what the server signs the client verifies, and nothing else.
func CheckSign() {
	i := sym.Choice("key", 3)
	c, s := pair(i)
	lens := []int{0, 1, 2, 3, 64, 129, 300}
	m := hx.Roomy(message("m", lens[sym.Choice("len", 7)]))
	was := append([]byte(nil), m...)
	h := sym.Choice("hash", 5) // 4: the default, which is sha512
	var sig []byte
	var err error
	ok := func(c *rsa.RsaClient, m, sig []byte) bool {
		if h == 4 {
			return c.VerifyDefault(m, sig) == nil
		}
		return c.Verify(m, sig, hashes[h]) == nil
	}
	k := h
	if h == 4 {
		k = 0
		sig, err = s.SignDefault(m)
	} else {
		sig, err = s.Sign(m, hashes[h])
	}
	sym.Assert(err == nil, "everything can be signed")
	sym.Assert(ok(c, m, sig), "what the server signed is verified")
	sym.Assert(hx.RoomKept(m), "signing and verifying leave what follows the message alone")
	sym.Assert(eq(m, was), "signing and verifying leave the message alone")
	if k == 0 {
		sym.Assert(c.Verify(m, sig, crypto.SHA512) == nil && c.VerifyDefault(m, sig) == nil, "the default is sha512")
	}
	switch sym.Choice("forge", 4) {
	case 0:
		n := message("n", lens[sym.Choice("other len", 7)])
		sym.Assume(!sym.EqBytes(digest(k, m), digest(k, n)))
		sym.Assert(!ok(c, n, sig), "no other message is verified")
	case 1:
		other, _ := pair((i + 1) % 2)
		sym.Assert(!ok(other, m, sig), "no other key verifies")
	case 2:
		j := sym.Choice("other hash", 4)
		if j == k {
			sym.Skip()
		}
		sym.Assert(c.Verify(m, sig, hashes[j]) != nil, "no other hash method verifies")
	case 3:
		b := append([]byte(nil), sig...)
		x := sym.Byte("x")
		sym.Assume(x != 0)
		b[[]int{0, 1, len(b) / 2, len(b) - 1}[sym.Choice("at", 4)]] ^= x
		sym.Assert(!ok(c, m, b), "no changed signature is verified")
		sym.Assert(!ok(c, m, sig[:len(sig)-1]) && !ok(c, m, nil), "no cut signature is verified")
	}
	sym.Cover("done")
}

func panics(f func()) (r bool) {
	defer func() { r = recover() != nil }()
	f()
	return
}

// CheckKeys: what is no key is refused.
func CheckKeys() {
	cut := func(s string, n int) string { return s[:n] }
	junk := []string{"", "junk", vrsa.EC, vrsa.Ed, "-----BEGIN public key-----\n-----END public key-----\n", "-----BEGIN public key-----\nAAAA\n-----END public key-----\n",
		cut(vrsa.Pub0, 60), cut(vrsa.Priv0, 60), "-----BEGIN private key-----\nAAAA\n-----END private key-----\n", "-----BEGIN public key-----\nA\n-----END public key-----\n"}
	k := sym.Choice("text", len(junk)+4)
	var t []byte
	client, server := true, true
	switch {
	case k < len(junk):
		t = []byte(junk[k])
	case k == len(junk): // a private key is no public one
		t, server = []byte(vrsa.Priv0), false
	case k == len(junk)+1: // and the other way round
		t, client = []byte(vrsa.Pub0), false
	default:
		t = sym.Bytes("t", k-len(junk)-1)
	}
	if client {
		c, err := rsa.NewClient(t)
		sym.Assert(err != nil && c == nil, "what is no public key is refused")
		sym.Assert(panics(func() { rsa.MustNewClient(t) }), "MustNewClient panics")
	}
	if server {
		s, err := rsa.NewServer(t)
		sym.Assert(err != nil && s == nil, "what is no private key is refused")
		sym.Assert(panics(func() { rsa.MustNewServer(t) }), "MustNewServer panics")
	}
	c, s := rsa.MustNewClient([]byte("some text\n"+vrsa.Pub1+"more")), rsa.MustNewServer([]byte(vrsa.Priv1))
	x, err := c.Encrypt([]byte("m"))
	sym.Assert(err == nil, "a message that fits is encrypted")
	m, err := s.Decrypt(x)
	sym.Assert(err == nil && string(m) == "m", "decrypting gives the message back")
	sym.Cover("done")
}

// CheckGen: generated keys are a pair of the size asked for.
func CheckGen() {
	n := []int{0, 1, 2, 1024, 2048}[sym.Choice("bits", 5)]
	priv, pub, err := rsa.GenRsaKeys(n)
	if n < 10 {
		sym.Assert(err != nil && priv == nil && pub == nil, "keys that are too short are refused")
		return
	}
	sym.Assert(err == nil, "keys are generated")
	c, err := rsa.NewClient(pub)
	sym.Assert(err == nil, "the public key is one")
	s, err := rsa.NewServer(priv)
	sym.Assert(err == nil, "the private key is one")
	m := message("m", 100)
	x, err := c.Encrypt(m)
	sym.Assert(err == nil && len(x)*8 == n, "the key has the size asked for")
	g, err := s.Decrypt(x)
	sym.Assert(err == nil && eq(g, m), "the two keys are a pair")
	sig, err := s.SignDefault(m)
	sym.Assert(err == nil && c.VerifyDefault(m, sig) == nil, "the two keys are a pair")
	sym.Cover("done")
}

// CheckTwo: two pairs of keys do not get in each other's way.
func CheckTwo() {
	i, j := sym.Choice("key", 3), sym.Choice("other key", 3)
	if i == j {
		sym.Skip()
	}
	var c, d *rsa.RsaClient
	var s, t *rsa.RsaServer
	pi, qi := []byte(pubs[i]), []byte(privs[i])
	c, err := rsa.NewClient(pi)
	sym.Assert(err == nil, "a public key is taken")
	s, err = rsa.NewServer(qi)
	sym.Assert(err == nil, "a private key is taken")
	for k := range pi {
		pi[k] = 'x'
	}
	for k := range qi {
		qi[k] = 'x'
	}
	d, t = pair(j)
	m, n := message("m", 3), message("n", 20)
	x, err := c.Encrypt(m)
	sym.Assert(err == nil && len(x)*8 == bits[i], "a message that fits is encrypted")
	y, err := d.Encrypt(n)
	sym.Assert(err == nil && len(y)*8 == bits[j], "a message that fits is encrypted")
	b, err := t.Decrypt(y)
	sym.Assert(err == nil && eq(b, n), "decrypting gives the message back")
	a, err := s.Decrypt(x)
	sym.Assert(err == nil && eq(a, m) && eq(b, n), "decrypting gives the message back")
	u, err := s.SignDefault(m)
	sym.Assert(err == nil && len(u)*8 == bits[i], "everything can be signed")
	v, err := t.Sign(m, crypto.SHA256)
	sym.Assert(err == nil && len(v)*8 == bits[j], "everything can be signed")
	sym.Assert(c.VerifyDefault(m, u) == nil && d.Verify(m, v, crypto.SHA256) == nil, "what the server signed is verified")
	sym.Assert(c.Verify(m, v, crypto.SHA256) != nil && d.VerifyDefault(m, u) != nil, "no other key verifies")
	sym.Cover("done")
}
