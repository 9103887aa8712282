// Package vfilepath is path/filepath on the tree of package vos.
package vfilepath

import (
	"io/fs"
	"path/filepath"
	"sort"

	"verif/vos"
)

const (
	Separator     = filepath.Separator
	ListSeparator = filepath.ListSeparator
)

var (
	SkipDir       = filepath.SkipDir
	SkipAll       = filepath.SkipAll
	ErrBadPattern = filepath.ErrBadPattern
)

type WalkFunc func(path string, info vos.FileInfo, err error) error

func Clean(s string) string                 { return filepath.Clean(s) }
func ToSlash(s string) string               { return filepath.ToSlash(s) }
func FromSlash(s string) string             { return filepath.FromSlash(s) }
func SplitList(s string) []string           { return filepath.SplitList(s) }
func Split(s string) (string, string)       { return filepath.Split(s) }
func Ext(s string) string                   { return filepath.Ext(s) }
func Base(s string) string                  { return filepath.Base(s) }
func Dir(s string) string                   { return filepath.Dir(s) }
func VolumeName(s string) string            { return filepath.VolumeName(s) }
func IsAbs(s string) bool                   { return filepath.IsAbs(s) }
func IsLocal(s string) bool                 { return filepath.IsLocal(s) }
func Join(e ...string) string               { return filepath.Join(e...) }
func Rel(b, t string) (string, error)       { return filepath.Rel(b, t) }
func Match(p, n string) (bool, error)       { return filepath.Match(p, n) }
func HasPrefix(p, prefix string) bool       { return filepath.HasPrefix(p, prefix) }
func EvalSymlinks(s string) (string, error) { return filepath.Clean(s), nil }

func Abs(s string) (string, error) {
	if filepath.IsAbs(s) {
		return filepath.Clean(s), nil
	}
	return vos.Abs(s), nil
}

// Walk visits in the order of the names.
func Walk(root string, fn WalkFunc) error {
	info, err := vos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walk(path string, info vos.FileInfo, fn WalkFunc) error {
	if !info.IsDir() {
		return fn(path, info, nil)
	}
	names, err := names(path)
	if err1 := fn(path, info, err); err != nil || err1 != nil {
		return err1
	}
	for _, n := range names {
		p := filepath.Join(path, n)
		i, err := vos.Lstat(p)
		if err != nil {
			if err := fn(p, i, err); err != nil && err != SkipDir {
				return err
			}
			continue
		}
		if err := walk(p, i, fn); err != nil && (!i.IsDir() || err != SkipDir) {
			return err
		}
	}
	return nil
}

func names(path string) ([]string, error) {
	f, err := vos.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	l, err := f.Readdirnames(-1)
	sort.Strings(l)
	return l, err
}

// WalkDir visits in the order of the names.
func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := vos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(info), fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walkDir(path string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(path, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	l, err := vos.ReadDir(path)
	if err != nil {
		if err = fn(path, d, err); err != nil {
			if err == SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, d1 := range l {
		if err := walkDir(filepath.Join(path, d1.Name()), d1, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Glob(pattern string) ([]string, error) { panic("Glob") }
