// Package vioutil is io/ioutil on the tree of package vos.
package vioutil

import (
	"io"

	"verif/vos"
)

var Discard = io.Discard

func ReadAll(r io.Reader) ([]byte, error)                   { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser                   { return io.NopCloser(r) }
func ReadFile(name string) ([]byte, error)                  { return vos.ReadFile(name) }
func WriteFile(name string, b []byte, m vos.FileMode) error { return vos.WriteFile(name, b, m) }

func ReadDir(name string) (r []vos.FileInfo, err error) {
	l, err := vos.ReadDir(name)
	if err != nil {
		return nil, err
	}
	for _, e := range l {
		i, err := e.Info()
		if err != nil {
			return nil, err
		}
		r = append(r, i)
	}
	return r, nil
}
