// Package c33: paths of package fs.
//
// replace: fs
//
// bound: CheckForm, CheckParts: every path of up to 7 (thorough 9) bytes; CheckJoin: every path of up to 4 (thorough 5) bytes with up to 2 elements of up to 2 (thorough 3) bytes; CheckRelate: every two paths of up to 5 (thorough 6) bytes; CheckBases: every path of up to 5 (thorough 7) bytes after each of 4 directories; CheckTargets: every path and every new name of up to 4 (thorough 5) bytes; CheckCalls: every path of up to 5 (thorough 7) bytes, every mode, owner, size and flag; CheckLong: paths of 20, 70 and 150 elements (up to 700 bytes) one of which, at the front, in the middle or at the end, is an arbitrary text of 2 (thorough 3) bytes. The file system is a recording stand-in (verif/vos); slash-separated paths of Unix only
package c33

import (
	"path/filepath"
	"strings"
	"time"

	"github.com/vipally/gx/fs"

	"verif/sym"
	"verif/vos"
)

// text is a path of up to n bytes.
func text(name string, n int) string {
	return sym.String(name, sym.Choice(name+"len", n+1))
}

// ---- what a path means -----------------------------------------------------------

type where struct {
	abs   bool
	parts []string // leading ".." only in a relative one
}

func (w where) add(s string) where {
	parts := append([]string(nil), w.parts...)
	for len(s) > 0 {
		e := s
		s = ""
		for i := 0; i < len(e); i++ {
			if e[i] == '/' {
				e, s = e[:i], e[i+1:]
				break
			}
		}
		switch {
		case e == "" || e == ".":
		case e != "..":
			parts = append(parts, e)
		case len(parts) > 0 && parts[len(parts)-1] != "..":
			parts = parts[:len(parts)-1]
		case !w.abs:
			parts = append(parts, e)
		}
	}
	return where{w.abs, parts}
}

func mean(s string) where {
	return where{abs: len(s) > 0 && s[0] == '/'}.add(s)
}

func (w where) up() where {
	if len(w.parts) == 0 {
		return w
	}
	return where{w.abs, w.parts[:len(w.parts)-1]}
}

func (w where) String() string {
	s := strings.Join(w.parts, "/")
	switch {
	case w.abs:
		return "/" + s
	case s == "":
		return "."
	}
	return s
}

func (w where) base() string {
	switch {
	case len(w.parts) > 0:
		return w.parts[len(w.parts)-1]
	case w.abs:
		return "/"
	}
	return "."
}

// ---- the checks ------------------------------------------------------------------

// CheckForm: a path object holds the shortest spelling of its path, however
// it was written, and always the same one.
func CheckForm() {
	s := text("s", sym.Bound(7, 9))
	want := mean(s).String()
	p := fs.FilePath(s)
	sym.Assert(p.String() == want, "FilePath gives the shortest spelling")
	sym.Assert(p.S() == want, "S is String")
	sym.Assert(p.StringSys() == want, "StringSys keeps the path")
	sym.Assert(fs.FormatPath(s) == want, "FormatPath gives the shortest spelling")
	sym.Assert(fs.FilePath(want).String() == want, "FilePath leaves the shortest spelling alone")
	q := fs.FilePath("x/y")
	q.Set(s)
	sym.Assert(q.String() == want, "Set replaces the path")
}

// CheckParts: the parts of a path are its parts, and joined again they are
// the path.
func CheckParts() {
	s := text("s", sym.Bound(7, 9))
	w := mean(s)
	p := fs.FilePath(s)
	str := p.String()
	sym.Assert(p.Base() == w.base(), "Base is the last element")
	d := w.up()
	if len(w.parts) == 0 {
		d = w
	}
	sym.Assert(p.Dir() == d.String(), "Dir is the path without its last element")
	dir, file := p.Split()
	sym.Assert(dir+file == str, "Split cuts the path in two")
	sym.Assert(strings.IndexByte(file, '/') < 0, "Split: no slash in the file")
	sym.Assert(dir == "" || dir[len(dir)-1] == '/', "Split: the directory ends in a slash")
	dir, file = fs.Split(str)
	sym.Assert(dir+file == str && strings.IndexByte(file, '/') < 0 && (dir == "" || dir[len(dir)-1] == '/'), "fs.Split cuts after the last slash")
	sym.Assert(fs.FileName(str) == file, "FileName is what follows the last slash")
	ext := ""
	for i := len(file) - 1; i >= 0; i-- {
		if file[i] == '.' {
			ext = file[i:]
			break
		}
	}
	sym.Assert(p.Ext() == ext, "Ext begins at the last dot of the last element")
	sym.Assert(p.VolumeName() == "", "no volume on this system")

	var want []string
	if w.abs {
		want = append(want, "/")
	}
	want = append(want, w.parts...)
	if len(want) == 0 {
		want = append(want, ".")
	}
	all := p.SplitAll()
	sym.Assert(len(all) == len(want), "SplitAll gives every element")
	for i := range want {
		sym.Assert(all[i] == want[i], "SplitAll gives the elements in order")
	}
	sym.Assert(fs.Joins(all...) == str, "Joins undoes SplitAll")
}

// CheckJoin: joining appends.
func CheckJoin() {
	n, m := sym.Bound(4, 5), sym.Bound(2, 3)
	s, a, b := text("s", n), text("a", m), text("b", m)
	p := fs.FilePath(s)
	w := mean(s)
	sym.Assert(p.Join(a) == w.add(a).String(), "Join appends a path")
	sym.Assert(p.Joins(a, b) == w.add(a).add(b).String(), "Joins appends the paths")
	sym.Assert(p.Joins() == w.String(), "Joins of nothing")
	sym.Assert(p.String() == w.String(), "joining leaves the path")
	// Joins of raw text skips what is empty
	t := mean(s)
	if s == "" {
		t = mean(a)
		if a == "" {
			t = mean(b)
		} else {
			t = t.add(b)
		}
	} else {
		t = t.add(a).add(b)
	}
	sym.Assert(fs.Joins(s, a, b) == t.String(), "Joins joins the elements")
}

// CheckRelate: the relative path leads from the root to the path.
func CheckRelate() {
	n := sym.Bound(5, 6)
	s, r := text("s", n), text("r", n)
	p, root := mean(s), mean(r)
	if p.abs != root.abs || len(root.parts) > 0 && root.parts[0] == ".." {
		sym.Skip()
	}
	k := 0
	for k < len(p.parts) && k < len(root.parts) && p.parts[k] == root.parts[k] {
		k++
	}
	var want where
	for range root.parts[k:] {
		want.parts = append(want.parts, "..")
	}
	want.parts = append(want.parts, p.parts[k:]...)
	rel := fs.FilePath(s).Relate(r).String()
	sym.Assert(rel == want.String(), "Relate is the way from the root to the path")
	sym.Assert(fs.RelatePath(s, r) == rel, "RelatePath is Relate")
	sym.Assert(fs.Joins(root.String(), rel) == p.String(), "joined to the root, the relative path is the path")
}

// CheckBases: paths relative to the working directory and to GOPATH.
func CheckBases() {
	vos.Mount(vos.D("v"))
	s := text("s", sym.Bound(5, 7))
	pre := []string{"/", "/v/", "/v/go/", "/v/go/src/"}[sym.Choice("pre", 4)]
	p := mean(pre + s)
	rel := fs.FilePath(pre + s).RelateWorkPath().String()
	sym.Assert(!mean(rel).abs && fs.Joins(fs.WorkPath(), rel) == p.String(), "RelateWorkPath leads from the working directory")
	sym.Assert(fs.RelateWorkPath(pre+s) == rel, "the function agrees")
	sym.Assert(fs.GoPath() == "/v/go/src", "GoPath is src of the first directory GOPATH lists")
	rel = fs.FilePath(pre + s).RelateGoPath().String()
	sym.Assert(!mean(rel).abs && fs.Joins(fs.GoPath(), rel) == p.String(), "RelateGoPath leads from GOPATH's src")
	sym.Assert(fs.RelateGoPath(pre+s) == rel, "the function agrees")
}

// CheckTargets: a new name is taken as it is when absolute and otherwise
// beside the file.
func CheckTargets() {
	vos.Mount(vos.D("v"))
	n := sym.Bound(4, 5)
	s, t := text("s", n), text("t", n)
	p := fs.FilePath(s)
	w := mean(s)
	want := mean(t)
	if !want.abs {
		want = w.up().add(t)
	}
	var got fs.FilePathObject
	var err error
	op := ""
	switch sym.Choice("op", 4) {
	case 0:
		op = "rename"
		got, err = p.Rename(t)
	case 1:
		op = "link"
		got, err = p.Link(t)
	case 2:
		op = "symlink"
		got, err = p.Symlink(t)
	case 3:
		op = "rename"
		got, err = p.Move(t)
	}
	sym.Assert(err == nil, "no failure made up")
	sym.Assert(got.String() == want.String(), "the new path is absolute or beside the file")
	c := vos.Calls()
	sym.Assert(len(c) == 1 && c[0].Op == op, "one operation")
	sym.Assert(c[0].A == w.String() && c[0].B == want.String(), "from the path to the new path")
}

// CheckCalls: the operations reach the path they name, with their arguments.
func CheckCalls() {
	vos.Mount(vos.D("v"))
	s := text("s", sym.Bound(5, 7))
	p := fs.FilePath(s)
	want := mean(s).String()
	mode := fs.FileMode(sym.Uint32("mode"))
	num, num2 := sym.Int32("n"), sym.Int32("n2")
	var err error
	var e vos.Call
	switch sym.Choice("op", 14) {
	case 0:
		err = p.Chmod(mode)
		e = vos.Call{Op: "chmod", M: vos.FileMode(mode)}
	case 1:
		err = p.Chown(int(num), int(num2))
		e = vos.Call{Op: "chown", N: int64(num)<<32 | int64(num2)}
	case 2:
		err = p.Lchown(int(num), int(num2))
		e = vos.Call{Op: "lchown", N: int64(num)<<32 | int64(num2)}
	case 3:
		err = p.Mkdir(mode)
		e = vos.Call{Op: "mkdir", M: vos.FileMode(mode)}
	case 4:
		err = p.MkdirAll(mode)
		e = vos.Call{Op: "mkdirall", M: vos.FileMode(mode)}
	case 5:
		err = p.Remove()
		e = vos.Call{Op: "remove"}
	case 6:
		err = p.RemoveAll()
		e = vos.Call{Op: "removeall"}
	case 7:
		size := sym.Int64("size")
		err = p.Truncate(size)
		e = vos.Call{Op: "truncate", N: size}
	case 8:
		_, err = p.Create()
		e = vos.Call{Op: "create"}
	case 9:
		num |= int32(vos.O_WRONLY)
		_, err = p.OpenFile(int(num), mode)
		e = vos.Call{Op: "openfile", N: int64(num), M: vos.FileMode(mode)}
	case 10:
		_, err = p.Readlink()
		e = vos.Call{Op: "readlink"}
	case 11:
		err = p.Chtimes(time.Unix(1, 0), time.Unix(2, 0))
		e = vos.Call{Op: "chtimes", N: 1<<32 | 2}
	case 12:
		p.NewFile(uintptr(uint32(num)))
		e = vos.Call{Op: "newfile", N: int64(uint32(num))}
	case 13:
		err = fs.Chdir(s)
		e = vos.Call{Op: "chdir"}
		abs := mean(s)
		if !abs.abs {
			abs = mean("/v").add(s)
		}
		sym.Assert(fs.WorkPath() == abs.String(), "WorkPath follows Chdir")
	}
	e.A = want
	sym.Assert(err == nil, "no failure made up")
	c := vos.Calls()
	sym.Assert(len(c) == 1, "one operation")
	sym.Assert(c[0].Op == e.Op && c[0].B == "", "the operation asked for")
	sym.Assert(c[0].A == e.A, "on the path")
	sym.Assert(c[0].N == e.N && c[0].M == e.M, "with its arguments")
}

// CheckLong: long paths.
func CheckLong() {
	vos.Mount(vos.D("v"))
	n := []int{20, 70, 150}[sym.Choice("elements", 3)]
	at := []int{0, n / 2, n - 1}[sym.Choice("at", 3)]
	var el []string
	if sym.Bool("abs") {
		el = append(el, "")
	}
	for i := 0; i < n; i++ {
		if i == at {
			el = append(el, sym.String("e", sym.Bound(2, 3)))
		}
		el = append(el, string([]byte{'a' + byte(i%26), 'a' + byte(i/26), '.', 'x'}))
	}
	s := strings.Join(el, "/")
	w := mean(s)
	want := w.String()
	p := fs.FilePath(s)
	sym.Assert(p.String() == want && fs.FormatPath(s) == want, "FilePath gives the shortest spelling")
	sym.Assert(p.Base() == w.base() && p.Dir() == w.up().String(), "Base and Dir are the two parts of the path")
	sym.Assert(p.Ext() == ".x", "Ext begins at the last dot of the last element")
	all := p.SplitAll()
	sym.Assert(fs.Joins(all...) == want, "Joins undoes SplitAll")
	k := len(w.parts)
	if w.abs {
		k++
	}
	sym.Assert(len(all) == k, "SplitAll gives every element")
	for i := 1; i <= len(w.parts); i++ {
		sym.Assert(all[len(all)-i] == w.parts[len(w.parts)-i], "SplitAll gives the elements in order")
	}
	sym.Assert(p.Join(s) == w.add(s).String(), "Join appends a path")
	sym.Assert(fs.Joins(el...) == mean(strings.Join(skip(el), "/")).String(), "Joins joins the elements")
	if len(w.parts) > 0 && w.parts[0] != ".." {
		r := where{w.abs, w.parts[:len(w.parts)/2]}
		rel := fs.RelatePath(s, r.String())
		sym.Assert(rel == strings.Join(w.parts[len(w.parts)/2:], "/"), "RelatePath is the way from the root to the path")
	}
	got, err := p.Move("y")
	c := vos.Calls()
	sym.Assert(err == nil && got.String() == w.up().add("y").String(), "the new path is beside the file")
	sym.Assert(len(c) == 1 && c[0].A == want && c[0].B == got.String(), "from the path to the new path")
}

func skip(l []string) (r []string) {
	for _, s := range l {
		if s != "" {
			r = append(r, s)
		}
	}
	return
}

// CheckLook: looking at a file looks at the path named.
//
// bound: CheckLook: every path of up to 4 (thorough 6) bytes after each of 3 directories, in a file system of 2 directories and 3 files
func CheckLook() {
	vos.Mount(vos.D("v", vos.F("a", []byte("1")), vos.D("b", vos.F("a", []byte("22")), vos.F("c", []byte("333")))))
	s := []string{"", "/v/", "b/"}[sym.Choice("pre", 3)] + text("s", sym.Bound(4, 6))
	p := fs.FilePath(s)
	w := mean(s)
	want, none := vos.Stat(w.String())
	same := func(i vos.FileInfo, err error) {
		sym.Assert((err == nil) == (none == nil), "what is there is found and nothing else")
		if err == nil {
			sym.Assert(vos.SameFile(i, want) && i.Size() == want.Size() && i.IsDir() == want.IsDir(), "the file is that of the path")
		}
	}
	switch sym.Choice("op", 6) {
	case 0:
		same(p.Stat())
	case 1:
		same(p.Lstat())
	case 2:
		f, err := p.Open()
		sym.Assert((err == nil) == (none == nil), "what is there is found and nothing else")
		if err == nil {
			same(f.Stat())
			f.Close()
		}
	case 3:
		abs := w
		if !w.abs {
			abs = mean("/v").add(s)
		}
		got, err := p.Abs()
		sym.Assert(err == nil && got == abs.String(), "Abs is the path from the root")
	case 4:
		got, err := p.EvalSymlinks()
		if none == nil && err == nil { // there are no links
			sym.Assert(got == w.String(), "EvalSymlinks keeps a path without links")
		}
	case 5:
		sym.Assert(fs.TempDir() == mean(vos.TempDir()).String(), "TempDir is the system's")
	}
	sym.Assert(len(vos.Calls()) == 0, "looking changes nothing")
	sym.Cover("done")
}

// CheckLinks: Stat and Open follow a symbolic link, Lstat looks at the link.
//
// bound: CheckLinks: 9 paths to and through symbolic links
func CheckLinks() {
	a, b := vos.F("a", []byte("1")), vos.D("b", vos.F("c", []byte("333")), vos.L("u", vos.F("z", []byte("4444"))))
	vos.Mount(vos.D("v", a, b, vos.L("l", a), vos.L("m", b), vos.L("n", nil)))
	s := []string{"l", "/v/l", "m", "./m", "n", "/v/n", "m/c", "b/u", "m/u"}[sym.Choice("path", 9)]
	p := fs.FilePath(s)
	same := func(i vos.FileInfo, err error, want vos.FileInfo, none error) {
		sym.Assert((err == nil) == (none == nil), "what is there is found and nothing else")
		if err == nil {
			sym.Assert(i.Name() == want.Name() && i.Size() == want.Size() && i.Mode() == want.Mode(), "the file is that of the path")
		}
	}
	st, noSt := vos.Stat(s)
	ls, noLs := vos.Lstat(s)
	switch sym.Choice("op", 3) {
	case 0:
		i, err := p.Stat()
		same(i, err, st, noSt)
	case 1:
		i, err := p.Lstat()
		same(i, err, ls, noLs)
	case 2:
		f, err := p.Open()
		sym.Assert((err == nil) == (noSt == nil), "what is there is found and nothing else")
		if err == nil {
			i, err := f.Stat()
			same(i, err, st, noSt)
			f.Close()
		}
	}
	sym.Cover("done")
}

// CheckMatch: patterns and prefixes are compared with the shortest spelling.
//
// bound: CheckMatch: every path of up to 4 (thorough 5) bytes with 9 patterns; every path of up to 4 (thorough 5) bytes and every prefix of up to 3 (thorough 4)
func CheckMatch() {
	s := text("s", sym.Bound(4, 5))
	p, w := fs.FilePath(s), mean(s).String()
	if sym.Choice("what", 2) == 0 {
		pat := []string{"*", "/*", "*/*", "?", "a*", "[a-c]", "[", "../*", "a/b"}[sym.Choice("pattern", 9)]
		ok, err := p.Match(pat)
		ok2, err2 := filepath.Match(pat, w)
		sym.Assert(ok == ok2 && (err == nil) == (err2 == nil), "Match compares the pattern with the path")
		return
	}
	t := text("t", sym.Bound(3, 4))
	x := mean(t).String()
	got := p.HasPrefix(t)
	if got {
		sym.Assert(len(w) >= len(x) && w[:len(x)] == x, "a path begins with its prefix")
	} else {
		sym.Assert(w != x && (len(w) <= len(x) || w[:len(x)] != x || x[len(x)-1] != '/' && w[len(x)] != '/'), "a path and the directories on the way are prefixes")
	}
	sym.Cover("done")
}
