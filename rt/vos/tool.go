//go:build go1.21

package vos

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
)

// Snapshot lists everything below dir: path -> description.
func Snapshot(dir string) map[string]string {
	m := map[string]string{}
	_, _, n, e := FS.walk(dir, true, 0)
	if e != nil || n == nil {
		return m
	}
	var rec func(n *Inode, p string)
	rec = func(n *Inode, p string) {
		switch {
		case n.Dir:
			m[p+"/"] = "dir"
			for i := 0; i < n.nk; i++ {
				rec(n.kids[i].n, p+"/"+n.kids[i].name)
			}
		case n.Link != "":
			m[p] = "link " + n.Link
		default:
			m[p] = "file " + string(n.Data)
		}
	}
	if dir == "/" {
		dir = ""
	}
	rec(n, dir)
	return m
}

// Diff describes the differences of two snapshots.
func Diff(a, b map[string]string) []string {
	var d []string
	for k, v := range a {
		w, ok := b[k]
		if !ok {
			d = append(d, "removed "+k)
		} else if w != v {
			d = append(d, fmt.Sprintf("changed %s (%d to %d bytes)", k, len(v)-5, len(w)-5))
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			d = append(d, "added "+k)
		}
	}
	sort.Strings(d)
	return d
}

// Clone copies the file system (no open files, locks or plans).
func (f *FSys) Clone() *FSys {
	g := New()
	g.cwd = f.cwd
	g.nextID = f.nextID
	seen := map[*Inode]*Inode{}
	var cp func(n *Inode) *Inode
	cp = func(n *Inode) *Inode {
		if c := seen[n]; c != nil {
			return c
		}
		c := &Inode{ID: n.ID, Dir: n.Dir, Link: n.Link, mode: n.mode}
		seen[n] = c
		c.Data = append([]byte(nil), n.Data...)
		c.base, c.far = n.base, append([]byte(nil), n.far...)
		for i := 0; i < n.nk; i++ {
			k := n.kids[i]
			g.link(c, k.name, cp(k.n))
		}
		return c
	}
	g.root = cp(f.root)
	return g
}

// Applier replays a modification log on a clone of the state it started from.
type Applier struct {
	F    *FSys
	Hash uint64 // of the contents, as far as they were changed
	ino  map[int]*Inode
}

func mix(a, b, c uint64) uint64 {
	h := a*0x9e3779b97f4a7c15 ^ b*0xbf58476d1ce4e5b9 ^ c*0x94d049bb133111eb
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 32
	return h
}

func hashName(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func hashData(name string, d []byte, off int64) (h uint64) {
	n := hashName(name)
	for i, b := range d {
		h ^= mix(n, uint64(off)+uint64(i)+1, uint64(b)+1)
	}
	return
}

// Key is the name by which the operation is counted.
func (op *Op) Key() string {
	if op.File != "" {
		return op.File
	}
	return op.Name
}

func NewApplier(start *FSys) *Applier {
	a := &Applier{F: start, ino: map[int]*Inode{}}
	var rec func(n *Inode)
	rec = func(n *Inode) {
		a.ino[n.ID] = n
		for i := 0; i < n.nk; i++ {
			rec(n.kids[i].n)
		}
	}
	rec(start.root)
	return a
}

func (a *Applier) get(n *Inode) *Inode {
	c := a.ino[n.ID]
	if c == nil {
		c = &Inode{ID: n.ID, Dir: n.Dir, Link: n.Link, mode: n.mode}
		a.ino[n.ID] = c
	}
	return c
}

// Apply performs op; of a write only the first cut bytes if cut >= 0.
func (a *Applier) Apply(op *Op, cut int) {
	switch op.Kind {
	case 'c':
		if a.get(op.Parent).find(op.Name) == nil {
			a.F.link(a.get(op.Parent), op.Name, a.get(op.Ino))
			a.Hash ^= mix(hashName(op.Name), 77, 77)
		}
	case 'u':
		a.F.unlink(a.get(op.Parent), op.Name)
		a.Hash ^= mix(hashName(op.Name), 77, 77)
	case 't':
		n := a.get(op.Ino)
		if int64(len(n.Data)) > op.Size {
			a.Hash ^= hashData(op.File, n.Data[op.Size:], op.Size)
		}
		a.F.truncate(n, op.Size, "")
	case 'w':
		d := op.Data
		if cut >= 0 {
			d = d[:cut]
		}
		n := a.get(op.Ino)
		h := &File{n: n, fs: a.F}
		if len(d) > 0 {
			if op.Off < int64(len(n.Data)) {
				e := op.Off + int64(len(d))
				if e > int64(len(n.Data)) {
					e = int64(len(n.Data))
				}
				a.Hash ^= hashData(op.File, n.Data[op.Off:e], op.Off)
			}
			h.put(d, op.Off)
			a.Hash ^= hashData(op.File, d, op.Off)
		}
	}
	if a.F.nextID < 1<<30 {
		a.F.nextID = 1 << 30 // ids of later files never clash with logged ones
	}
}

// Import copies a real directory into the file system at dir.
func Import(real, dir string) error {
	return filepath.Walk(real, func(p string, fi fs.FileInfo, e error) error {
		if e != nil {
			return e
		}
		rel, _ := filepath.Rel(real, p)
		t := filepath.Join(dir, rel)
		if fi.IsDir() {
			return MkdirAll(t, 0755)
		}
		d, e := os.ReadFile(p)
		if e != nil {
			return e
		}
		return WriteFile(t, d, 0644)
	})
}

// Export writes the directory dir of the file system to a real directory.
func Export(dir, real string) error {
	for p, d := range Snapshot(dir) {
		rel := p[len(dir):]
		t := real + rel
		switch {
		case d == "dir":
			if e := os.MkdirAll(t, 0755); e != nil {
				return e
			}
		case len(d) >= 5 && d[:5] == "file ":
			if e := os.MkdirAll(filepath.Dir(t), 0755); e != nil {
				return e
			}
			if e := os.WriteFile(t, []byte(d[5:]), 0644); e != nil {
				return e
			}
		}
	}
	return nil
}

// LocksHeld counts advisory locks held anywhere.
func LocksHeld() int {
	c := 0
	for i := 0; i < FS.nfds; i++ {
		if FS.fds[i] != nil && FS.fds[i].lock != 0 {
			c++
		}
	}
	return c
}

// LockOf returns how the file at path is locked: shared holders, exclusive.
func LockOf(path string) (sh, ex int) {
	_, _, n, e := FS.walk(path, true, 0)
	if e != nil || n == nil {
		return
	}
	for i := 0; i < n.nl; i++ {
		if n.locks[i].lock == 2 {
			ex++
		} else {
			sh++
		}
	}
	return
}

// DropProcess forgets all open files and locks, as the end of a process does.
func DropProcess() {
	f := FS
	for i := 0; i < f.nfds; i++ {
		if h := f.fds[i]; h != nil {
			h.dropLock()
			h.closed = true
			f.OpenHandles--
			f.fds[i] = nil
		}
	}
}
