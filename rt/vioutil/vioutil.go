//go:build go1.21

// Package vioutil replaces io/ioutil in instrumented code.
package vioutil

import (
	"io"
	"io/fs"

	"github.com/go-air/dupi/zz_verif/vos"
)

var Discard = io.Discard

func ReadAll(r io.Reader) ([]byte, error)               { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser               { return io.NopCloser(r) }
func ReadFile(n string) ([]byte, error)                 { return vos.ReadFile(n) }
func WriteFile(n string, d []byte, m fs.FileMode) error { return vos.WriteFile(n, d, m) }
func TempFile(dir, pat string) (*vos.File, error)       { return vos.CreateTemp(dir, pat) }
func TempDir(dir, pat string) (string, error)           { return vos.MkdirTemp(dir, pat) }
func ReadDir(n string) ([]fs.FileInfo, error) {
	es, e := vos.ReadDir(n)
	if e != nil {
		return nil, e
	}
	r := make([]fs.FileInfo, 0, len(es))
	for _, x := range es {
		fi, e := x.Info()
		if e != nil {
			return nil, e
		}
		r = append(r, fi)
	}
	return r, nil
}
