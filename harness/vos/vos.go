// Package vos stands in for package os in the instrumented copy of package
// fs: a small tree of files in memory, in which a harness puts what it likes
// (symbolic contents, any order of the listings, failures), and a record of
// the calls that would change a file system. Nothing here touches the real
// one.
package vos

import (
	"errors"
	"io"
	"os"
	"path"
	"strings"
	"time"
)

type (
	FileMode  = os.FileMode
	FileInfo  = os.FileInfo
	DirEntry  = os.DirEntry
	PathError = os.PathError
	LinkError = os.LinkError
	Signal    = os.Signal
)

const (
	ModeDir        = os.ModeDir
	ModeAppend     = os.ModeAppend
	ModeExclusive  = os.ModeExclusive
	ModeTemporary  = os.ModeTemporary
	ModeSymlink    = os.ModeSymlink
	ModeDevice     = os.ModeDevice
	ModeNamedPipe  = os.ModeNamedPipe
	ModeSocket     = os.ModeSocket
	ModeSetuid     = os.ModeSetuid
	ModeSetgid     = os.ModeSetgid
	ModeCharDevice = os.ModeCharDevice
	ModeSticky     = os.ModeSticky
	ModeIrregular  = os.ModeIrregular
	ModeType       = os.ModeType
	ModePerm       = os.ModePerm

	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC

	PathSeparator     = os.PathSeparator
	PathListSeparator = os.PathListSeparator
	DevNull           = os.DevNull
)

var (
	ErrNotExist = os.ErrNotExist
	ErrExist    = os.ErrExist
	ErrInvalid  = os.ErrInvalid
	ErrClosed   = os.ErrClosed

	// ErrInjected is the failure harnesses ask for.
	ErrInjected = errors.New("injected failure")
)

func IsNotExist(err error) bool { return errors.Is(err, ErrNotExist) }
func IsExist(err error) bool    { return errors.Is(err, ErrExist) }

// ---- the tree ------------------------------------------------------------------

// Node is a file or directory. Kids are listed in their order here.
type Node struct {
	Name string
	Dir  bool
	Data []byte
	Kids []*Node
	Mode FileMode // the mode of what is no directory, if not 0644
	To   *Node    // what a symbolic link leads to
	// failures
	NoOpen, NoList, NoStat bool
	ReadFail               int // fail after so many bytes, if not negative
}

func D(name string, kids ...*Node) *Node {
	return &Node{Name: name, Dir: true, Kids: kids, ReadFail: -1}
}

func F(name string, data []byte) *Node { return &Node{Name: name, Data: data, ReadFail: -1} }

// L is a symbolic link; it leads nowhere if to is nil.
func L(name string, to *Node) *Node {
	return &Node{Name: name, Data: []byte("target"), Mode: ModeSymlink | 0777, To: to, ReadFail: -1}
}

var (
	root  *Node
	calls []Call
	cwd   = "/v"
	// Opened counts the files that are open.
	Opened int
	// Listed counts the listings made.
	Listed int
)

// Call is a recorded call.
type Call struct {
	Op, A, B string
	N        int64
	M        FileMode
}

// Mount makes n the tree at /v and forgets the recorded calls. The working
// directory is /v.
func Mount(n *Node) {
	root, calls, cwd = n, nil, "/v"
	Opened, Listed = 0, 0
}

// Calls are the recorded calls.
func Calls() []Call { return calls }

func record(op, a, b string, n int64, m FileMode) error {
	calls = append(calls, Call{op, a, b, n, m})
	return nil
}

// find follows symbolic links, the last one only if op is not lstat.
func find(op, name string) (*Node, error) {
	p := name
	if p == "" {
		return nil, &PathError{Op: op, Path: name, Err: ErrNotExist}
	}
	if p[0] != '/' && cwd != "/v" {
		p = Abs(p)
	}
	if p[0] == '/' {
		if p != "/v" && !strings.HasPrefix(p, "/v/") {
			return nil, &PathError{Op: op, Path: name, Err: ErrNotExist}
		}
		p = p[2:]
	}
	n := root
	var up []*Node
	pos := -1
	for _, e := range strings.Split(p, "/") {
		if n == nil {
			break
		}
		pos += len(e) + 1
		if e == "" || e == "." {
			continue
		}
		if e == ".." {
			if len(up) == 0 {
				n = nil
				break
			}
			n, up = up[len(up)-1], up[:len(up)-1]
			continue
		}
		var k *Node
		for _, c := range n.Kids {
			if c.Name == e {
				k = c
			}
		}
		up = append(up, n)
		if n = k; n != nil && n.Mode&ModeSymlink != 0 {
			if p[pos:] != "" || op != "lstat" {
				if n = n.To; n != nil { // known by the name of the link
					t := *n
					t.Name = e
					n = &t
				}
			}
		}
	}
	if n == nil {
		return nil, &PathError{Op: op, Path: name, Err: ErrNotExist}
	}
	return n, nil
}

type info struct{ n *Node }

func (i info) Name() string { return i.n.Name }
func (i info) Size() int64 {
	if i.n.Dir {
		return 4096
	}
	return int64(len(i.n.Data))
}
func (i info) Mode() FileMode {
	if i.n.Dir {
		return ModeDir | 0755
	}
	if i.n.Mode != 0 {
		return i.n.Mode
	}
	return 0644
}
func (i info) ModTime() time.Time      { return time.Time{} }
func (i info) IsDir() bool             { return i.n.Dir }
func (i info) Sys() interface{}        { return nil }
func (i info) Type() FileMode          { return i.Mode() & ModeType }
func (i info) Info() (FileInfo, error) { return i, nil }

// File is an open file.
type File struct {
	n      *Node
	name   string
	off    int
	lst    int
	closed bool
}

func Open(name string) (*File, error) {
	n, err := find("open", name)
	if err != nil {
		return nil, err
	}
	if n.NoOpen {
		return nil, &PathError{Op: "open", Path: name, Err: ErrInjected}
	}
	Opened++
	return &File{n: n, name: name}, nil
}

func (f *File) Name() string { return f.name }

func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return ErrClosed
	}
	f.closed = true
	Opened--
	return nil
}

func (f *File) Stat() (FileInfo, error) {
	if f == nil || f.closed {
		return nil, ErrInvalid
	}
	if f.n.NoStat {
		return nil, &PathError{Op: "stat", Path: f.name, Err: ErrInjected}
	}
	return info{f.n}, nil
}

func (f *File) Read(b []byte) (int, error) {
	if f == nil || f.closed {
		return 0, ErrInvalid
	}
	if f.n.Dir {
		return 0, &PathError{Op: "read", Path: f.name, Err: errors.New("is a directory")}
	}
	if len(b) == 0 {
		return 0, nil
	}
	end := len(f.n.Data)
	if f.n.ReadFail >= 0 && f.n.ReadFail < end {
		end = f.n.ReadFail
	}
	if f.off >= end {
		if f.n.ReadFail >= 0 {
			return 0, &PathError{Op: "read", Path: f.name, Err: ErrInjected}
		}
		return 0, io.EOF
	}
	n := copy(b, f.n.Data[f.off:end])
	f.off += n
	return n, nil
}

func (f *File) list(n int) ([]*Node, error) {
	if f == nil || f.closed {
		return nil, ErrInvalid
	}
	Listed++
	if !f.n.Dir {
		return nil, &PathError{Op: "readdirent", Path: f.name, Err: errors.New("not a directory")}
	}
	if f.n.NoList {
		return nil, &PathError{Op: "readdirent", Path: f.name, Err: ErrInjected}
	}
	l := f.n.Kids[f.lst:]
	if n > 0 {
		if len(l) == 0 {
			return nil, io.EOF
		}
		if len(l) > n {
			l = l[:n]
		}
	}
	f.lst += len(l)
	return l, nil
}

func (f *File) Readdir(n int) (r []FileInfo, err error) {
	l, err := f.list(n)
	for _, k := range l {
		r = append(r, info{k})
	}
	return
}

func (f *File) ReadDir(n int) (r []DirEntry, err error) {
	l, err := f.list(n)
	for _, k := range l {
		r = append(r, info{k})
	}
	return
}

func (f *File) Readdirnames(n int) (r []string, err error) {
	l, err := f.list(n)
	for _, k := range l {
		r = append(r, k.Name)
	}
	return
}

func (f *File) Write(b []byte) (int, error)       { return len(b), record("write", f.name, string(b), 0, 0) }
func (f *File) WriteString(s string) (int, error) { return len(s), record("write", f.name, s, 0, 0) }
func (f *File) Sync() error                       { return nil }

func Stat(name string) (FileInfo, error) {
	n, err := find("stat", name)
	if err != nil {
		return nil, err
	}
	if n.NoStat {
		return nil, &PathError{Op: "stat", Path: name, Err: ErrInjected}
	}
	return info{n}, nil
}

func Lstat(name string) (FileInfo, error) {
	n, err := find("lstat", name)
	if err != nil {
		return nil, err
	}
	if n.NoStat {
		return nil, &PathError{Op: "lstat", Path: name, Err: ErrInjected}
	}
	return info{n}, nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

// ReadDir lists by name.
func ReadDir(name string) ([]DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	l, err := f.ReadDir(-1)
	for i := range l {
		for j := i; j > 0 && l[j].Name() < l[j-1].Name(); j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
	return l, err
}

// ---- recorded ------------------------------------------------------------------

func Chmod(name string, m FileMode) error { return record("chmod", name, "", 0, m) }
func Chown(name string, u, g int) error   { return record("chown", name, "", int64(u)<<32|int64(g), 0) }
func Lchown(name string, u, g int) error  { return record("lchown", name, "", int64(u)<<32|int64(g), 0) }
func Chtimes(name string, a, m time.Time) error {
	return record("chtimes", name, "", a.Unix()<<32|m.Unix(), 0)
}
func Link(o, n string) error                 { return record("link", o, n, 0, 0) }
func Symlink(o, n string) error              { return record("symlink", o, n, 0, 0) }
func Rename(o, n string) error               { return record("rename", o, n, 0, 0) }
func Mkdir(name string, m FileMode) error    { return record("mkdir", name, "", 0, m) }
func MkdirAll(name string, m FileMode) error { return record("mkdirall", name, "", 0, m) }
func Remove(name string) error               { return record("remove", name, "", 0, 0) }
func RemoveAll(name string) error            { return record("removeall", name, "", 0, 0) }
func Truncate(name string, n int64) error    { return record("truncate", name, "", n, 0) }
func WriteFile(name string, b []byte, m FileMode) error {
	return record("writefile", name, string(b), 0, m)
}

func Readlink(name string) (string, error) { record("readlink", name, "", 0, 0); return "", nil }

func Create(name string) (*File, error) {
	record("create", name, "", 0, 0)
	return &File{n: F(name, nil), name: name}, nil
}

func OpenFile(name string, flag int, m FileMode) (*File, error) {
	if flag == O_RDONLY {
		return Open(name)
	}
	record("openfile", name, "", int64(flag), m)
	return &File{n: F(name, nil), name: name}, nil
}

func NewFile(fd uintptr, name string) *File {
	record("newfile", name, "", int64(fd), 0)
	return &File{n: F(name, nil), name: name}
}

// ---- the process ---------------------------------------------------------------

// Chdir is recorded, and Getwd follows it (any directory is there).
func Chdir(name string) error {
	cwd = Abs(name)
	return record("chdir", name, "", 0, 0)
}

func Getwd() (string, error) { return cwd, nil }

// Abs is name seen from the working directory.
func Abs(name string) string {
	if name != "" && name[0] == '/' {
		return path.Clean(name)
	}
	return path.Join(cwd, name)
}
func Getenv(name string) string {
	if name == "GOPATH" {
		return "/v/go:/v/other"
	}
	return ""
}
func LookupEnv(name string) (string, bool) { s := Getenv(name); return s, s != "" }
func TempDir() string                      { return "/v/tmp" }
func Getpid() int                          { return 1 }
func SameFile(a, b FileInfo) bool          { return a.(info).n == b.(info).n }
func Exit(code int)                        { panic("os.Exit") }

// ---- the rest of package os ----------------------------------------------------

var (
	Stdin  = &File{n: F("stdin", nil), name: "/dev/stdin"}
	Stdout = &File{n: F("stdout", nil), name: "/dev/stdout"}
	Stderr = &File{n: F("stderr", nil), name: "/dev/stderr"}
	Args   = []string{"prog"}

	ErrPermission = os.ErrPermission
)

const (
	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2
)

func IsPermission(err error) bool                   { return errors.Is(err, ErrPermission) }
func IsPathSeparator(c uint8) bool                  { return c == '/' }
func Environ() []string                             { return []string{"GOPATH=/v/go"} }
func Hostname() (string, error)                     { return "host", nil }
func UserHomeDir() (string, error)                  { return "/v", nil }
func Getuid() int                                   { return 0 }
func Getgid() int                                   { return 0 }
func Geteuid() int                                  { return 0 }
func Getegid() int                                  { return 0 }
func Getppid() int                                  { return 1 }
func Getpagesize() int                              { return 4096 }
func Executable() (string, error)                   { return "/v/prog", nil }
func Expand(s string, f func(string) string) string { return os.Expand(s, f) }
func ExpandEnv(s string) string                     { return os.Expand(s, Getenv) }

func (f *File) Seek(off int64, whence int) (int64, error) {
	if f == nil || f.closed {
		return 0, ErrInvalid
	}
	switch whence {
	case 1:
		off += int64(f.off)
	case 2:
		off += int64(len(f.n.Data))
	}
	if off < 0 {
		return 0, ErrInvalid
	}
	f.off = int(off)
	f.lst = 0
	return off, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	g := &File{n: f.n, name: f.name, off: int(off), closed: f.closed}
	n := 0
	for n < len(b) {
		m, err := g.Read(b[n:])
		n += m
		if err != nil {
			return n, err
		}
	}
	return n, nil
}

func (f *File) Chmod(m FileMode) error { return Chmod(f.name, m) }
func (f *File) Chown(u, g int) error   { return Chown(f.name, u, g) }
func (f *File) Truncate(n int64) error { return Truncate(f.name, n) }
func (f *File) Chdir() error           { return Chdir(f.name) }
func (f *File) Fd() uintptr            { return 3 }
