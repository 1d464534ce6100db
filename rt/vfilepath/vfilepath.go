//go:build go1.21

// Package vfilepath replaces path/filepath in instrumented code: what is
// lexical is the real thing, what looks at the file system looks at the model.
package vfilepath

import (
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/go-air/dupi/zz_verif/vos"
)

const (
	Separator     = filepath.Separator
	ListSeparator = filepath.ListSeparator
)

type WalkFunc = filepath.WalkFunc

var (
	ErrBadPattern = filepath.ErrBadPattern
	SkipDir       = filepath.SkipDir
	SkipAll       = filepath.SkipAll
)

func Base(p string) string              { return filepath.Base(p) }
func Clean(p string) string             { return filepath.Clean(p) }
func Dir(p string) string               { return filepath.Dir(p) }
func Ext(p string) string               { return filepath.Ext(p) }
func FromSlash(p string) string         { return p }
func ToSlash(p string) string           { return p }
func IsAbs(p string) bool               { return filepath.IsAbs(p) }
func IsLocal(p string) bool             { return filepath.IsLocal(p) }
func Join(e ...string) string           { return filepath.Join(e...) }
func Match(pat, n string) (bool, error) { return filepath.Match(pat, n) }
func Split(p string) (string, string)   { return filepath.Split(p) }
func SplitList(p string) []string       { return filepath.SplitList(p) }
func VolumeName(p string) string        { return "" }
func HasPrefix(p, q string) bool        { return strings.HasPrefix(p, q) }
func Rel(a, b string) (string, error) {
	if filepath.IsAbs(a) != filepath.IsAbs(b) {
		a, _ = Abs(a)
		b, _ = Abs(b)
	}
	return filepath.Rel(a, b)
}

func Abs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	wd, e := vos.Getwd()
	if e != nil {
		return "", e
	}
	return filepath.Join(wd, p), nil
}

func Walk(root string, fn filepath.WalkFunc) error {
	info, err := vos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walk(path string, info fs.FileInfo, fn filepath.WalkFunc) error {
	if !info.IsDir() {
		return fn(path, info, nil)
	}
	ents, err := vos.ReadDir(path)
	err1 := fn(path, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, e := range ents {
		p := filepath.Join(path, e.Name())
		fi, err := vos.Lstat(p)
		if err != nil {
			if err := fn(p, fi, err); err != nil && err != SkipDir {
				return err
			}
			continue
		}
		if err = walk(p, fi, fn); err != nil && (!fi.IsDir() || err != SkipDir) {
			return err
		}
	}
	return nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := vos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(info), fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walkDir(path string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(path, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	ents, err := vos.ReadDir(path)
	if err != nil {
		if err = fn(path, d, err); err != nil {
			if err == SkipDir {
				err = nil
			}
			return err
		}
	}
	for _, e := range ents {
		if err := walkDir(filepath.Join(path, e.Name()), e, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func EvalSymlinks(p string) (string, error) {
	res := ""
	rest := p
	if filepath.IsAbs(p) {
		res = "/"
	}
	for n := 0; rest != ""; {
		c := rest
		if i := strings.IndexByte(rest, '/'); i >= 0 {
			c, rest = rest[:i], rest[i+1:]
		} else {
			rest = ""
		}
		if c == "" || c == "." {
			continue
		}
		next := filepath.Join(res, c)
		fi, e := vos.Lstat(next)
		if e != nil {
			return "", e
		}
		if fi.Mode()&os.ModeSymlink != 0 {
			if n++; n > 40 {
				return "", &fs.PathError{Op: "lstat", Path: p, Err: os.ErrInvalid}
			}
			l, e := vos.Readlink(next)
			if e != nil {
				return "", e
			}
			if filepath.IsAbs(l) {
				res = "/"
			}
			rest = l + "/" + rest
			continue
		}
		res = next
	}
	if res == "" {
		res = "."
	}
	return res, nil
}

func Glob(pat string) ([]string, error) {
	if _, e := filepath.Match(pat, ""); e != nil {
		return nil, e
	}
	if !strings.ContainsAny(pat, "*?[\\") {
		if _, e := vos.Lstat(pat); e != nil {
			return nil, nil
		}
		return []string{pat}, nil
	}
	dir, file := filepath.Split(pat)
	dir = filepath.Clean(dir)
	dirs := []string{dir}
	if strings.ContainsAny(dir, "*?[\\") {
		var e error
		if dirs, e = Glob(dir); e != nil {
			return nil, e
		}
	}
	var res []string
	for _, d := range dirs {
		ents, e := vos.ReadDir(d)
		if e != nil {
			continue
		}
		for _, x := range ents {
			if ok, _ := filepath.Match(file, x.Name()); ok {
				res = append(res, filepath.Join(d, x.Name()))
			}
		}
	}
	sort.Strings(res)
	return res, nil
}
