//go:build go1.21 && !zzinst

package env

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"time"
)

const Inst = false

var (
	work = ""
	n    int
	// Base is where scratch directories are made.
	Base = os.TempDir()
)

func must(e error) {
	if e != nil {
		panic(e)
	}
}

func Reset() {
	Cleanup()
	n++
	work = filepath.Join(Base, fmt.Sprintf("w%d", n), "w")
	must(os.MkdirAll(work, 0755))
	must(os.Chdir(work))
}

func Cleanup() {
	if work != "" {
		must(os.Chdir(Base))
		d := filepath.Dir(work)
		if strings.HasPrefix(d, Base+"/w") {
			os.RemoveAll(d)
		}
		work = ""
	}
}

// Run executes f; a panic of f or taking minutes is reported.
func Run(f func()) string {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Sprint("panic: ", r)
			}
		}()
		f()
		done <- ""
	}()
	select {
	case s := <-done:
		return s
	case <-time.After(240 * time.Second):
		return "does not end: no result after 240 s"
	}
}

func inside(p string) error {
	a, e := filepath.Abs(p)
	if e != nil {
		return e
	}
	if work == "" || a != work && !strings.HasPrefix(a, work+"/") {
		return fmt.Errorf("harness: %s is outside of the scratch directory", a)
	}
	return nil
}

func WriteFile(p string, d []byte) error {
	if e := inside(p); e != nil {
		return e
	}
	return os.WriteFile(p, d, 0644)
}
func ReadFile(p string) ([]byte, error) { return os.ReadFile(p) }
func Mkdir(p string) error {
	if e := inside(p); e != nil {
		return e
	}
	return os.Mkdir(p, 0755)
}
func MkdirAll(p string) error {
	if e := inside(p); e != nil {
		return e
	}
	return os.MkdirAll(p, 0755)
}
func Remove(p string) error {
	if e := inside(p); e != nil {
		return e
	}
	return os.Remove(p)
}
func RemoveAll(p string) error {
	if e := inside(p); e != nil {
		return e
	}
	return os.RemoveAll(p)
}
func Rename(a, b string) error {
	if e := inside(a); e != nil {
		return e
	}
	if e := inside(b); e != nil {
		return e
	}
	return os.Rename(a, b)
}
func Symlink(a, b string) error {
	if e := inside(b); e != nil {
		return e
	}
	return os.Symlink(a, b)
}
func Chdir(p string) error {
	if e := inside(p); e != nil {
		return e
	}
	return os.Chdir(p)
}
func Truncate(p string, n int64) error {
	if e := inside(p); e != nil {
		return e
	}
	return os.Truncate(p, n)
}
func Append(p string, d []byte) error {
	if e := inside(p); e != nil {
		return e
	}
	h, e := os.OpenFile(p, os.O_WRONLY|os.O_APPEND, 0)
	if e != nil {
		return e
	}
	_, e = h.Write(d)
	h.Close()
	return e
}
func Stat(p string) (fs.FileInfo, error)      { return os.Stat(p) }
func Lstat(p string) (fs.FileInfo, error)     { return os.Lstat(p) }
func ReadDir(p string) ([]os.DirEntry, error) { return os.ReadDir(p) }

func Snapshot(dir string) map[string]string {
	m := map[string]string{}
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, e error) error {
		if e != nil {
			return nil
		}
		switch {
		case d.IsDir():
			m[p+"/"] = "dir"
		case d.Type()&fs.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			m[p] = "link " + l
		case !d.Type().IsRegular():
			m[p] = d.Type().String()
		default:
			b, _ := os.ReadFile(p)
			m[p] = "file " + string(b)
		}
		return nil
	})
	return m
}

func LocksHeld() string { return "" } // asked per file: LockFree

func LockFree(p string) bool {
	f, e := os.Open(p)
	if e != nil {
		return true
	}
	defer f.Close()
	return syscall.Flock(int(f.Fd()), syscall.LOCK_EX|syscall.LOCK_NB) == nil
}

// World is a directory that contains the scratch directory of the case.
func World() string { return filepath.Dir(work) }

// OpenHandles counts open files in the scratch directories.
func OpenHandles() (n int) {
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		l, _ := os.Readlink("/proc/self/fd/" + e.Name())
		if strings.HasPrefix(l, filepath.Dir(work)+"/") {
			n++
		}
	}
	return
}

// Goroutines counts the goroutines besides those of the harness.
func Goroutines() int { return runtime.NumGoroutine() - 2 }

// Touched runs f; on real files the names are not known.
func Touched(f func()) []string { f(); return nil }
