// Package c35: hashes of files and directories in package fs.
//
// replace: fs
//
// bound: CheckFile: every file of up to 3 (thorough 6) bytes, every salt of up to 2 bytes, all methods; CheckDir: every directory tree of up to 3 (thorough 4) entries below the root and depth up to 2 with files of up to 1 arbitrary byte, every salt of up to 1 byte; CheckOrder: every tree of up to 3 entries listed in any two orders, for the fingerprint and crc32 (thorough also crc64, md5, sha1); CheckFailures: the same trees with any one entry that cannot be opened, read, listed or examined. CheckNames: every name of up to 3 (thorough 5) bytes of an entry beside another one; CheckBig: files of 300, 4097, 32769 and 70000 bytes of which the first, the last and one in the middle are arbitrary; CheckMany: directories of 20, 71 and 300 files of different sizes one of which has an arbitrary byte; md5, sha1, sha256, sha512, crc32 and crc64 are uninterpreted functions; the files are those of a stand-in for the file system (verif/vos); CheckAgain: hashing twice with the contents, the method or the file changed in between
// bound: CheckKinds: an entry of any file mode that is no directory's, or a symbolic link to a file, a directory or nothing, in a directory or hashed itself; fingerprint and crc32
package c35

import (
	"github.com/vipally/gx/fs"
	"github.com/vipally/gx/hash"

	"verif/sym"
	"verif/vos"
)

var methods = []hash.HashMethod{fs.MD5, fs.SHA1, fs.SHA256, fs.SHA512, fs.CRC32, fs.CRC64, fs.FINGERPRINT}

const hexDigits = "0123456789abcdef"

func hexs(b []byte) string {
	r := make([]byte, 0, 2*len(b))
	for _, x := range b {
		r = append(r, hexDigits[x>>4], hexDigits[x&15])
	}
	return string(r)
}

func eq(a, b string) bool { return sym.EqBytes([]byte(a), []byte(b)) }

// one is a way to hash: with a method and salt, or the fingerprint.
type one struct {
	fp   bool
	m    hash.HashMethod
	salt string
}

func way(salt int) one {
	i := sym.Choice("method", len(methods)+1)
	if i == len(methods) {
		return one{fp: true}
	}
	return one{m: methods[i], salt: sym.String("salt", sym.Choice("saltlen", salt+1))}
}

func (o one) run(path string) (*fs.FileHashTreeNode, error) {
	if o.fp {
		return fs.FilePath(path).Fingerprint()
	}
	return fs.FilePath(path).Hash(o.m, o.salt)
}

// digest is the text a file or directory must get.
func (o one) digest(data string, size int) string {
	if o.fp {
		h := hash.NewFingerprint()
		h.Write([]byte(data))
		h.Resetsize(int64(size))
		return h.String()
	}
	h := o.m.New()
	h.Write([]byte(o.salt + data))
	return hexs(h.Sum(nil))
}

// CheckFile: the hash of a file is that of salt and contents.
func CheckFile() {
	data := sym.Bytes("data", sym.Choice("len", sym.Bound(3, 6)+1))
	vos.Mount(vos.D("v", vos.F("f", data)))
	o := way(2)
	path := []string{"/v/f", "f", "./x/../f"}[sym.Choice("path", 3)]
	n, err := o.run(path)
	sym.Assert(err == nil && n != nil, "no failure made up")
	l := n.All()
	sym.Assert(len(l) == 1, "a file is a single node")
	h := l[0]
	sym.Assert(h.Path == fs.FormatPath(path) && !h.IsDir, "the node names the file")
	sym.Assert(h.Size == fs.FileSize(len(data)), "the node has the size of the file")
	sym.Assert(eq(h.Hash, o.digest(string(data), len(data))), "the hash is the digest of salt and contents")
	sym.Assert(vos.Opened == 0, "no file stays open")
}

// grow gives d up to *left entries, of depth below.
func grow(d *vos.Node, left *int, depth int) {
	for i := 0; *left > 0; i++ {
		k := sym.Choice("kind", 4)
		if k == 0 {
			return
		}
		*left--
		name := string('a' + rune(i))
		if k < 3 {
			d.Kids = append(d.Kids, vos.F(name, sym.Bytes("data", k-1)))
			continue
		}
		s := vos.D(name)
		d.Kids = append(d.Kids, s)
		if depth > 1 {
			grow(s, left, depth-1)
		}
	}
}

func tree(most int) *vos.Node {
	d := vos.D("d")
	grow(d, &most, 2)
	vos.Mount(vos.D("v", d))
	return d
}

// verify checks the node of n, found at path.
func (o one) verify(t *fs.FileHashTreeNode, n *vos.Node, path string) {
	h := t.All()[0]
	sym.Assert(h.Path == path && h.IsDir == n.Dir, "the node names the entry")
	if !n.Dir {
		sym.Assert(t.NumChildren() == 0, "a file has no children")
		sym.Assert(h.Size == fs.FileSize(len(n.Data)), "the node has the size of the file")
		sym.Assert(eq(h.Hash, o.digest(string(n.Data), len(n.Data))), "the hash is the digest of salt and contents")
		return
	}
	sym.Assert(t.NumChildren() == len(n.Kids), "one child for each entry")
	used := make([]bool, len(n.Kids))
	all, size := "", fs.FileSize(0)
	last := fs.FileHash{}
	for i, c := range t.Children() {
		ch := c.All()[0]
		found := false
		for j, k := range n.Kids {
			if !used[j] && ch.Path == path+"/"+k.Name {
				used[j], found = true, true
				o.verify(c, k, ch.Path)
			}
		}
		sym.Assert(found, "every child is an entry of the directory")
		sym.Assert(i == 0 || last.Size < ch.Size || last.Size == ch.Size && last.Hash <= ch.Hash, "the children are in the order of size and hash")
		last = ch
		all += ch.Hash
		size += ch.Size
	}
	sym.Assert(h.Size == size, "the size of a directory is that of its files")
	sym.Assert(eq(h.Hash, o.digest(all, int(size))), "the hash of a directory is the digest of salt and the hashes of its entries")
}

// CheckDir: the tree of hashes mirrors the directory.
func CheckDir() {
	d := tree(sym.Bound(3, 4))
	o := way(1)
	t, err := o.run("/v/d")
	sym.Assert(err == nil && t != nil, "no failure made up")
	o.verify(t, d, "/v/d")
	sym.Assert(vos.Opened == 0, "no file stays open")
	sym.Assert(len(vos.Calls()) == 0, "hashing changes nothing")
	// every node is reached, parents before children
	all := t.All()
	v := t.Visitor()
	for _, h := range all {
		sym.Assert(v.Next(), "the visitor reaches every node")
		g := v.Get()
		sym.Assert(g.Path == h.Path && g.Hash == h.Hash && g.Size == h.Size, "All and the visitor agree")
	}
	sym.Assert(!v.Next(), "the visitor stops")
}

// CheckOrder: the hash of a directory does not depend on the order in which
// the system lists it.
func CheckOrder() {
	d := tree(3)
	o := one{fp: true}
	if i := sym.Choice("order", sym.Bound(2, 6)); i > 0 {
		o = one{m: []hash.HashMethod{fs.CRC32, fs.CRC64, fs.MD5, fs.SHA1, fs.FINGERPRINT}[i-1], salt: sym.String("salt", sym.Choice("saltlen", 2))}
	}
	a, err := o.run("/v/d")
	sym.Assert(err == nil, "no failure made up")
	var shuffle func(n *vos.Node)
	shuffle = func(n *vos.Node) {
		var l []*vos.Node
		for _, k := range n.Kids {
			shuffle(k)
			i := sym.Choice("place", len(l)+1)
			l = append(l, nil)
			copy(l[i+1:], l[i:])
			l[i] = k
		}
		n.Kids = l
	}
	shuffle(d)
	b, err := o.run("/v/d")
	sym.Assert(err == nil, "no failure made up")
	x, y := a.All()[0], b.All()[0]
	sym.Assert(x.Size == y.Size, "the size does not depend on the order of the listing")
	sym.Assert(eq(x.Hash, y.Hash), "the hash does not depend on the order of the listing")
}

func nodes(d *vos.Node) (r []*vos.Node) {
	r = append(r, d)
	for _, k := range d.Kids {
		r = append(r, nodes(k)...)
	}
	return
}

// CheckFailures: whatever cannot be read is an error.
func CheckFailures() {
	d := tree(sym.Bound(3, 4))
	o := way(0)
	all := nodes(d)
	n := all[sym.Choice("bad", len(all))]
	switch sym.Choice("how", 3) {
	case 0:
		n.NoOpen = true
	case 1:
		n.NoStat = true
	case 2:
		if n.Dir {
			n.NoList = true
		} else {
			n.ReadFail = sym.Choice("at", len(n.Data)+1)
		}
	}
	_, err := o.run("/v/d")
	sym.Assert(err != nil, "what cannot be read is reported")
	sym.Assert(vos.Opened == 0, "no file stays open")
	_, err = o.run("/v/x")
	sym.Assert(err != nil, "what does not exist is reported")
}

// CheckNone: without a method the entries get distinct marks.
func CheckNone() {
	d := tree(sym.Bound(3, 4))
	t, err := fs.FilePath("/v/d").Hash(fs.NONE, "")
	sym.Assert(err == nil, "no failure made up")
	all := t.All()
	sym.Assert(len(all) == len(nodes(d)), "every entry is there")
	size := 0
	for _, n := range nodes(d) {
		size += len(n.Data)
	}
	sym.Assert(all[0].Size == fs.FileSize(size), "the size of a directory is that of its files")
	for i, a := range all {
		for _, b := range all[:i] {
			sym.Assert(a.Hash != b.Hash, "no two marks are the same")
			sym.Assert(a.Path != b.Path, "no entry appears twice")
		}
	}
}

// aName is the name of a file: n bytes, none a slash or zero, and not the
// directory itself or its parent.
func aName(n int) string {
	b := sym.Bytes("name", n)
	for _, c := range b {
		sym.Assume(c != '/' && c != 0)
	}
	s := string(b)
	sym.Assume(s != "." && s != "..")
	return s
}

// CheckNames: the hash covers the entries whatever they are called.
func CheckNames() {
	k := vos.F(aName(1+sym.Choice("namelen", sym.Bound(3, 5))), sym.Bytes("data", 1))
	if sym.Bool("dir") {
		s := vos.D(k.Name, k)
		k.Name = "f"
		k = s
	}
	d := vos.D("d", vos.F("long name", nil), k)
	vos.Mount(vos.D("v", d))
	o := one{fp: true}
	if sym.Bool("crc") {
		o = one{m: fs.CRC32}
	}
	t, err := o.run("/v/d")
	sym.Assert(err == nil && t != nil, "no failure made up")
	o.verify(t, d, "/v/d")
	sym.Assert(vos.Opened == 0, "no file stays open")
}

// CheckBig: large files are hashed to their end.
func CheckBig() {
	n := []int{300, 4097, 32769, 70000}[sym.Choice("size", 4)]
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(i * 7)
	}
	data[0], data[n/2], data[n-1] = sym.Byte("a"), sym.Byte("b"), sym.Byte("c")
	vos.Mount(vos.D("v", vos.D("d", vos.F("f", data))))
	o := []one{{fp: true}, {m: fs.CRC32}, {m: fs.MD5, salt: "s"}}[sym.Choice("how", 3)]
	t, err := o.run("/v/d/f")
	sym.Assert(err == nil && t != nil, "no failure made up")
	h := t.All()[0]
	sym.Assert(h.Size == fs.FileSize(n), "the node has the size of the file")
	sym.Assert(eq(h.Hash, o.digest(string(data), n)), "the hash is the digest of salt and contents")
	sym.Assert(vos.Opened == 0, "no file stays open")
}

// CheckMany: every entry of a large directory is covered.
func CheckMany() {
	n := []int{20, 71, 300}[sym.Choice("size", 3)]
	d := vos.D("d")
	for i := 0; i < n; i++ {
		data := make([]byte, i*7%n) // no two are of one size
		if i == n-1 {
			data[0] = sym.Byte("data")
		}
		d.Kids = append(d.Kids, vos.F(string([]byte{'a' + byte(i/26), 'a' + byte(i%26)}), data))
	}
	vos.Mount(vos.D("v", d))
	o := []one{{fp: true}, {m: fs.CRC32}}[sym.Choice("how", 2)]
	t, err := o.run("/v/d")
	sym.Assert(err == nil && t != nil, "no failure made up")
	o.verify(t, d, "/v/d")
	sym.Assert(vos.Opened == 0, "no file stays open")
}

// CheckAgain: what was hashed before, with the same method or another, does
// not matter.
func CheckAgain() {
	f, g := vos.F("f", sym.Bytes("data", 2)), vos.F("g", sym.Bytes("other", 2))
	d := vos.D("d", f, g)
	vos.Mount(vos.D("v", d))
	o := way(1)
	path := []string{"/v/d/f", "/v/d"}[sym.Choice("path", 2)]
	a, err := o.run(path)
	sym.Assert(err == nil, "no failure made up")
	was := a.All()[0]
	p := o
	switch sym.Choice("then", 3) {
	case 0: // the contents are new
		f.Data = sym.Bytes("new", 2)
	case 1: // the way is another
		p = one{m: hash.MD5, salt: "s"}
	case 2: // the file is another
		d.Kids = []*vos.Node{vos.F("f", g.Data), vos.F("g", f.Data)}
		f = d.Kids[0]
	}
	b, err := p.run(path)
	sym.Assert(err == nil, "no failure made up")
	sym.Assert(a.All()[0] == was, "the first result stays")
	if path == "/v/d" {
		p.verify(b, d, path)
	} else {
		p.verify(b, f, path)
	}
	sym.Cover("done")
}

// CheckKinds: whatever a file's mode, and by symbolic links, what counts is
// the contents.
func CheckKinds() {
	data := sym.Bytes("data", sym.Choice("len", 3))
	var k, is *vos.Node // the entry, and what it stands for
	switch sym.Choice("kind", 4) {
	case 0:
		k = vos.F("k", data)
		k.Mode = vos.FileMode(sym.Uint32("mode")) &^ (vos.ModeDir | vos.ModeSymlink)
		is = k
	case 1:
		is = vos.F("k", data)
		k = vos.L("k", vos.F("far", data))
	case 2:
		is = vos.D("k", vos.F("x", data))
		k = vos.L("k", vos.D("far", vos.F("x", data)))
	case 3:
		k = vos.L("k", nil)
	}
	f := vos.F("f", []byte{9})
	d := vos.D("d", f, k)
	vos.Mount(vos.D("v", d))
	o := one{fp: true}
	if sym.Bool("crc") {
		o = one{m: fs.CRC32}
	}
	at, what := "/v/d", vos.D("d", f, is)
	if sym.Bool("itself") {
		at, what = "/v/d/k", is
	}
	t, err := o.run(at)
	if is == nil {
		sym.Assert(err != nil, "what cannot be opened is reported")
	} else {
		sym.Assert(err == nil && t != nil, "no failure made up")
		o.verify(t, what, at)
	}
	sym.Assert(vos.Opened == 0, "no file stays open")
}
