//go:build go1.21 && zzinst

package env

import (
	"fmt"
	"io/fs"
	"os"

	"github.com/go-air/dupi/zz_verif/vos"
	"github.com/go-air/dupi/zz_verif/vrt"
)

const Inst = true

var work = "/w"

// Reset starts a case with an empty scratch directory.
func Reset() {
	vos.Reset()
	vrt.IOPoints, vrt.FSPoints = false, false
	must(vos.MkdirAll("/w", 0755))
	must(vos.MkdirAll("/tmp", 0755))
	must(vos.Chdir("/w"))
}

func Cleanup() { vos.Reset() }

func must(e error) {
	if e != nil {
		panic(e)
	}
}

// Describe is the verdict on an execution: "" if it ended regularly.
func Describe(o *vrt.Outcome) string {
	switch {
	case o.Panic != "":
		return "panic: " + o.Panic
	case o.Deadlock:
		return "deadlock: " + o.Blocked
	case o.Limit != "":
		return "does not end: " + o.Limit
	case o.Diverged != "":
		return "diverged: " + o.Diverged
	}
	return ""
}

// Run executes f under the default schedule; a deadlock, a panic or an endless
// loop is reported.
func Run(f func()) string {
	vrt.ResetLoops(LoopMax)
	return Describe(vrt.Run(vrt.FirstEnabled{}, false, f))
}

func WriteFile(p string, d []byte) error { return vos.WriteFile(p, d, 0644) }
func ReadFile(p string) ([]byte, error)  { return vos.ReadFile(p) }
func Mkdir(p string) error               { return vos.Mkdir(p, 0755) }
func MkdirAll(p string) error            { return vos.MkdirAll(p, 0755) }
func Remove(p string) error              { return vos.Remove(p) }
func RemoveAll(p string) error           { return vos.RemoveAll(p) }
func Rename(a, b string) error           { return vos.Rename(a, b) }
func Symlink(a, b string) error          { return vos.Symlink(a, b) }
func Chdir(p string) error               { return vos.Chdir(p) }
func Truncate(p string, n int64) error   { return vos.Truncate(p, n) }
func Append(p string, d []byte) error {
	h, e := vos.OpenFile(p, os.O_WRONLY|os.O_APPEND, 0)
	if e != nil {
		return e
	}
	_, e = h.Write(d)
	h.Close()
	return e
}
func Stat(p string) (fs.FileInfo, error)      { return vos.Stat(p) }
func Lstat(p string) (fs.FileInfo, error)     { return vos.Lstat(p) }
func ReadDir(p string) ([]os.DirEntry, error) { return vos.ReadDir(p) }
func Snapshot(dir string) map[string]string   { return vos.Snapshot(dir) }

// Touched runs f and gives the names that were made or taken away meanwhile.
func Touched(f func()) (l []string) {
	vos.FS.LogOn = true
	f()
	vos.FS.LogOn = false
	seen := map[string]bool{}
	for _, o := range vos.FS.Log {
		if o.Kind == 'c' || o.Kind == 'u' {
			if p := vos.PathOf(o.Parent) + "/" + o.Name; !seen[p] {
				seen[p] = true
				l = append(l, p)
			}
		}
	}
	vos.FS.Log = nil
	return
}

// LocksHeld lists lock holders, "" if there are none.
func LocksHeld() string {
	if n := vos.LocksHeld(); n != 0 {
		return fmt.Sprintf("%d locks held", n)
	}
	return ""
}

// LockFree reports whether an exclusive lock of the file could be taken.
func LockFree(p string) bool {
	sh, ex := vos.LockOf(p)
	return sh == 0 && ex == 0
}

// World is the directory that contains everything.
func World() string { return "/" }

func OpenHandles() int { return vos.FS.OpenHandles }

// Goroutines counts the goroutines besides the calling one.
func Goroutines() int { return vrt.Live() - 1 }
