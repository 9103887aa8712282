// Package c34: listings of package fs.
//
// replace: fs
//
// bound: CheckCollect: every directory tree of up to 3 (thorough 4) entries below the root and depth up to 3, in every listing order, every option word, two spellings of the root; CheckFailures: the same trees with any one directory that cannot be opened or listed; CheckNamed: the five Get functions on the same trees; CheckStatistic: the same trees with every file of an arbitrary size up to 2 bytes; CheckNames: every name of up to 3 (thorough 5) bytes of an entry beside another one; CheckBig: directories of 7, 70, 150 and 1100 entries of which one is a file or directory that is not empty, every option word (1100: those that list one level); CheckDeep: 3, 20 and 40 directories one within the other with a file in any one of them. The files are those of a stand-in for the file system (verif/vos); CheckAgain: listing twice with the directory changed in between
// bound: CheckKinds: beside a file and a directory, an entry of any file mode that is no directory's, or a symbolic link to a file, to a directory beside it, to the directory it is in or to nothing
package c34

import (
	"github.com/vipally/gx/fs"

	"verif/sym"
	"verif/vos"
)

// names are distinct within a directory; their first byte is arbitrary.
func name(i int) string {
	b := sym.Byte("name")
	sym.Assume(b != '/' && b != 0)
	return string([]byte{b, 'a' + byte(i)})
}

// grow gives d up to *left entries, of depth below.
func grow(d *vos.Node, left *int, depth int) {
	for i := 0; *left > 0; i++ {
		k := sym.Choice("kind", 3)
		if k == 0 {
			return
		}
		*left--
		if k == 1 {
			d.Kids = append(d.Kids, vos.F(name(i), []byte{1}))
			continue
		}
		s := vos.D(name(i))
		d.Kids = append(d.Kids, s)
		if depth > 1 {
			grow(s, left, depth-1)
		}
	}
}

func tree() *vos.Node {
	d := vos.D("d")
	left := sym.Bound(3, 4)
	grow(d, &left, 3)
	vos.Mount(vos.D("v", d))
	return d
}

// want is what a listing of d must hold: full is the path of d as asked for.
func want(d *vos.Node, full string, dirs, files, fullPath, deep, leaf bool) (r []string) {
	say := func(full, name string) {
		if fullPath {
			r = append(r, full)
		} else {
			r = append(r, name)
		}
	}
	sub := false
	for _, k := range d.Kids {
		kf := full + "/" + k.Name
		switch {
		case !k.Dir:
			if files {
				say(kf, k.Name)
			}
		default:
			sub = true
			if dirs && !leaf {
				say(kf, k.Name)
			}
			if deep || leaf {
				r = append(r, want(k, kf, dirs, files, fullPath, deep, leaf)...)
			}
		}
	}
	if !sub && leaf && dirs {
		say(full, d.Name)
	}
	return
}

func sameSet(got, want []string) bool {
	if len(got) != len(want) {
		return false
	}
	used := make([]bool, len(want))
next:
	for _, g := range got {
		for i, w := range want {
			if !used[i] && g == w {
				used[i] = true
				continue next
			}
		}
		return false
	}
	return true
}

var roots = []string{"/v/d", "d"}

func spelled(i int) string { return roots[i] }

// CheckCollect: a listing holds exactly what was asked for.
func CheckCollect() {
	d := tree()
	opt := fs.FsOption(sym.Uint("opt"))
	dir := spelled(sym.Choice("root", 2))
	got, err := fs.CollectSubs(dir, opt)
	sym.Assert(err == nil, "no failure made up")
	w := want(d, dir, opt&fs.FsDir != 0, opt&fs.FsFile != 0, opt&fs.FsFullPath != 0, opt&fs.FsDeep != 0, opt&fs.FsLeaf != 0)
	sym.Assert(sameSet(got, w), "the listing holds exactly the entries asked for")
	sym.Assert(vos.Opened == 0, "no directory stays open")
	sym.Assert(len(vos.Calls()) == 0, "listing changes nothing")
}

func dirsOf(d *vos.Node) (r []*vos.Node) {
	r = append(r, d)
	for _, k := range d.Kids {
		if k.Dir {
			r = append(r, dirsOf(k)...)
		}
	}
	return
}

// CheckFailures: a directory that cannot be opened or listed is an error, and
// one that need not be opened is not.
func CheckFailures() {
	d := tree()
	all := dirsOf(d)
	i := sym.Choice("bad", len(all)+1)
	if i == len(all) {
		d.Dir = false // a file cannot be listed
		all = append(all, d)
	} else if sym.Bool("open") {
		all[i].NoOpen = true
	} else {
		all[i].NoList = true
	}
	opt := fs.FsOption(sym.Uint("opt"))
	got, err := fs.CollectSubs("/v/d", opt)
	deep := opt&(fs.FsDeep|fs.FsLeaf) != 0
	if i == 0 || i == len(all)-1 && !d.Dir || deep {
		sym.Assert(err != nil, "a directory that cannot be read is reported")
	} else {
		sym.Assert(err == nil, "a directory that is not read is no failure")
		w := want(d, "/v/d", opt&fs.FsDir != 0, opt&fs.FsFile != 0, opt&fs.FsFullPath != 0, false, false)
		sym.Assert(sameSet(got, w), "the listing is complete")
	}
	sym.Assert(vos.Opened == 0, "no directory stays open")
	_, err = fs.CollectSubs("/v/x", opt)
	sym.Assert(err != nil, "a directory that does not exist is reported")
}

// CheckNamed: the named listings.
func CheckNamed() {
	d := tree()
	var got, w []string
	var err error
	switch sym.Choice("fn", 5) {
	case 0:
		got, err = fs.GetLeafDirs("/v/d")
		w = want(d, "/v/d", true, false, true, false, true)
	case 1:
		got, err = fs.GetSubDirs("/v/d")
		w = want(d, "/v/d", true, false, false, false, false)
	case 2:
		got, err = fs.GetSubFiles("/v/d")
		w = want(d, "/v/d", false, true, false, false, false)
	case 3:
		got, err = fs.GetSubs("/v/d")
		w = want(d, "/v/d", true, true, false, false, false)
	case 4:
		got, err = fs.GetDeepFiles("/v/d")
		w = want(d, "/v/d", false, true, false, true, false)
	}
	sym.Assert(err == nil, "no failure made up")
	sym.Assert(sameSet(got, w), "the listing holds exactly the entries asked for")
}

// CheckStatistic: Statistic counts directories, files and bytes, and tells of
// what it could not read.
func CheckStatistic() {
	d := tree()
	nd, nf, size := 0, 0, 0
	var visit func(n *vos.Node)
	visit = func(n *vos.Node) {
		if !n.Dir {
			n.Data = sym.Bytes("data", sym.Choice("len", 3))
			nf++
			size += len(n.Data)
			return
		}
		nd++
		for _, k := range n.Kids {
			visit(k)
		}
	}
	visit(d)
	p := fs.FilePath("/v/d")
	gd, gf, gs, info := p.Statistic()
	sym.Assert(gd == nd && gf == nf, "Statistic counts directories and files")
	sym.Assert(gs == uint64(size), "Statistic adds up the sizes")
	sym.Assert(info == "", "no failure made up")
	all := dirsOf(d)
	all[sym.Choice("bad", len(all))].NoList = true
	_, _, _, info = p.Statistic()
	sym.Assert(info != "", "Statistic tells of the directory it cannot read")
	sym.Assert(vos.Opened == 0, "no directory stays open")
}

// aName is the name of a file: n bytes, none a slash or zero, and not the
// directory itself or its parent.
func aName(n int) string {
	b := sym.Bytes("name", n)
	for _, c := range b {
		sym.Assume(c != '/' && c != 0)
	}
	s := string(b)
	sym.Assume(s != "." && s != "..")
	return s
}

// CheckNames: entries are listed whatever they are called.
func CheckNames() {
	k := vos.F(aName(1+sym.Choice("namelen", sym.Bound(3, 5))), nil)
	if sym.Bool("dir") {
		s := vos.D(k.Name, k)
		k.Name = "f"
		k = s
	}
	d := vos.D("d", vos.F("long name", nil), k)
	vos.Mount(vos.D("v", d))
	opt := fs.FsOption(sym.Uint("opt"))
	got, err := fs.CollectSubs("/v/d", opt)
	sym.Assert(err == nil, "no failure made up")
	w := want(d, "/v/d", opt&fs.FsDir != 0, opt&fs.FsFile != 0, opt&fs.FsFullPath != 0, opt&fs.FsDeep != 0, opt&fs.FsLeaf != 0)
	sym.Assert(sameSet(got, w), "the listing holds exactly the entries asked for")
	sym.Assert(vos.Opened == 0, "no directory stays open")
}

// same is sameSet for many names, all different.
func same(got, want []string) bool {
	if len(got) != len(want) {
		return false
	}
	m := make(map[string]bool)
	for _, w := range want {
		m[w] = true
	}
	for _, g := range got {
		if !m[g] {
			return false
		}
		delete(m, g)
	}
	return true
}

func num(i int) string {
	return string([]byte{'0' + byte(i/1000), '0' + byte(i/100%10), '0' + byte(i/10%10), '0' + byte(i%10)})
}

// CheckBig: large directories are listed to their end.
func CheckBig() {
	d := vos.D("d")
	n := []int{7, 70, 150, 1100}[sym.Choice("size", 4)]
	at := []int{0, n / 2, n - 1}[sym.Choice("at", 3)]
	size := 0
	for i := 0; i < n; i++ {
		if i == at && sym.Bool("dir") {
			d.Kids = append(d.Kids, vos.D(num(i), vos.F("x", nil)))
			continue
		}
		if i%5 == 3 {
			d.Kids = append(d.Kids, vos.D(num(i)))
			continue
		}
		d.Kids = append(d.Kids, vos.F(num(i), make([]byte, i%3)))
		size += i % 3
	}
	vos.Mount(vos.D("v", d))
	opt := fs.FsOption(sym.Uint("opt"))
	if n > 1000 {
		opt &= fs.FsDir | fs.FsFile | fs.FsFullPath
	}
	got, err := fs.CollectSubs("/v/d", opt)
	sym.Assert(err == nil, "no failure made up")
	w := want(d, "/v/d", opt&fs.FsDir != 0, opt&fs.FsFile != 0, opt&fs.FsFullPath != 0, opt&fs.FsDeep != 0, opt&fs.FsLeaf != 0)
	sym.Assert(same(got, w), "the listing holds exactly the entries asked for")
	sym.Assert(vos.Opened == 0, "no directory stays open")
	if n > 1000 {
		return
	}
	gd, gf, gs, info := fs.FilePath("/v/d").Statistic()
	nd, nf := len(want(d, "", true, false, true, true, false))+1, len(want(d, "", false, true, true, true, false))
	sym.Assert(gd == nd && gf == nf, "Statistic counts directories and files")
	sym.Assert(gs == uint64(size), "Statistic adds up the sizes")
	sym.Assert(info == "", "no failure made up")
	sym.Assert(vos.Opened == 0, "no directory stays open")
}

// CheckDeep: deep trees are listed to the bottom.
func CheckDeep() {
	n := []int{3, 20, 40}[sym.Choice("depth", 3)]
	at := []int{0, 1, n / 2, n - 1}[sym.Choice("at", 4)]
	d := vos.D("d")
	for i, c := 0, d; i < n; i++ {
		if i == at {
			c.Kids = append(c.Kids, vos.F("f", []byte{1, 2}))
		}
		s := vos.D(num(i))
		c.Kids = append(c.Kids, s)
		c = s
	}
	vos.Mount(vos.D("v", d))
	opt := fs.FsOption(sym.Uint("opt"))
	got, err := fs.CollectSubs("/v/d", opt)
	sym.Assert(err == nil, "no failure made up")
	w := want(d, "/v/d", opt&fs.FsDir != 0, opt&fs.FsFile != 0, opt&fs.FsFullPath != 0, opt&fs.FsDeep != 0, opt&fs.FsLeaf != 0)
	sym.Assert(same(got, w), "the listing holds exactly the entries asked for")
	gd, gf, gs, info := fs.FilePath("/v/d").Statistic()
	sym.Assert(gd == n+1 && gf == 1 && gs == 2 && info == "", "Statistic counts directories, files and bytes")
	sym.Assert(vos.Opened == 0, "no directory stays open")
}

// CheckAgain: a listing is that of the directory as it is now.
func CheckAgain() {
	d := vos.D("d", vos.F("a", nil), vos.D("b", vos.F("c", nil)))
	vos.Mount(vos.D("v", d))
	opt := fs.FsOption(sym.Uint("opt"))
	a, err := fs.CollectSubs("/v/d", opt)
	sym.Assert(err == nil, "no failure made up")
	was := append([]string(nil), a...)
	switch sym.Choice("then", 3) {
	case 0:
		d.Kids = append(d.Kids, vos.F("new", nil))
	case 1:
		d.Kids = append(d.Kids, vos.D("new", vos.F("file", nil)))
	case 2:
		d.Kids = nil
	}
	if sym.Choice("other", 2) == 1 {
		opt = []fs.FsOption{fs.FsFile, fs.FsDir | fs.FsDeep, fs.FsFile | fs.FsDeep | fs.FsFullPath, fs.FsDir | fs.FsLeaf}[sym.Choice("other opt", 4)]
	}
	b, err := fs.CollectSubs("/v/d", opt)
	sym.Assert(err == nil, "no failure made up")
	w := want(d, "/v/d", opt&fs.FsDir != 0, opt&fs.FsFile != 0, opt&fs.FsFullPath != 0, opt&fs.FsDeep != 0, opt&fs.FsLeaf != 0)
	sym.Assert(sameSet(b, w), "the listing holds exactly the entries asked for")
	for i := range was {
		sym.Assert(len(a) == len(was) && a[i] == was[i], "the first listing stays")
	}
	sym.Cover("done")
}

// CheckKinds: what is no directory is listed like a file, whatever it is, and
// a symbolic link is not followed.
func CheckKinds() {
	f := vos.F("f", []byte{1, 2})
	sub := vos.D("s", vos.F("x", []byte{1}))
	d := vos.D("d", f, sub)
	var k *vos.Node
	size := uint64(3)
	switch sym.Choice("kind", 5) {
	case 0:
		k = vos.F("k", []byte{7, 8, 9})
		k.Mode = vos.FileMode(sym.Uint32("mode")) &^ (vos.ModeDir | vos.ModeSymlink)
		size += 3
	case 1:
		k = vos.L("k", f)
		size += 6
	case 2:
		k = vos.L("k", sub)
		size += 6
	case 3:
		k = vos.L("k", d)
		size += 6
	case 4:
		k = vos.L("k", nil)
		size += 6
	}
	if sym.Bool("below") {
		sub.Kids = append(sub.Kids, k)
	} else {
		d.Kids = append([]*vos.Node{k}, d.Kids...)
	}
	vos.Mount(vos.D("v", d))
	opt := fs.FsOption(sym.Uint("opt"))
	got, err := fs.CollectSubs("/v/d", opt)
	sym.Assert(err == nil, "no failure made up")
	w := want(d, "/v/d", opt&fs.FsDir != 0, opt&fs.FsFile != 0, opt&fs.FsFullPath != 0, opt&fs.FsDeep != 0, opt&fs.FsLeaf != 0)
	sym.Assert(sameSet(got, w), "the listing holds exactly the entries asked for")
	gd, gf, gs, info := fs.FilePath("/v/d").Statistic()
	sym.Assert(gd == 2 && gf == 3 && gs == size && info == "", "Statistic counts directories, files and bytes")
	sym.Assert(vos.Opened == 0, "no directory stays open")
}
