//go:build go1.21

// Package vos replaces os in instrumented code: an in-memory file system with
// a virtual working directory, advisory locks, a fault plan and a log of
// modifications. In a controlled execution only one goroutine runs at a time;
// nothing here uses locks, and the core is go:norace without append, copy or
// maps so that a race-detecting build sees only the accesses of the code under
// test.
package vos

import (
	"io"
	"io/fs"
	"os"
	"syscall"
	"time"

	"github.com/go-air/dupi/zz_verif/vrt"
)

type dirent struct {
	name string
	n    *Inode
}

// Inode is a file, directory or symbolic link.
type Inode struct {
	ID    int
	Dir   bool
	Link  string
	Data  []byte
	base  int64  // if not 0, far is what the file has from there on, and
	far   []byte // what is between Data and it is zero
	kids  []dirent
	nk    int
	mode  fs.FileMode
	obj   vrt.ObjState
	lobj  vrt.ObjState
	locks []*File
	nl    int
}

// Op is a logged modification.
type Op struct {
	Kind   byte // 'c' create entry, 'w' write, 't' truncate, 'u' unlink entry
	Ino    *Inode
	Parent *Inode
	Name   string
	Off    int64
	Data   []byte
	Size   int64
	File   string
	More   bool // the next one happens with it
}

// Call is a recorded fallible operation.
type Call struct {
	Kind string
	File string
}

type FSys struct {
	root   *Inode
	cwd    string
	nextID int
	obj    vrt.ObjState

	// fault plan
	Calls   int // fallible operations so far
	plans   [4]faultPlan
	nplans  int
	short   bool // the failing write has half its effect
	Faulted int
	// CloseFaults: closing a file is an operation that can fail.
	CloseFaults bool
	Trace       []Call // recorded if Record
	Record      bool

	// modification log
	LogOn bool
	Log   []Op

	fds  []*File
	nfds int
	// OpenHandles counts open files.
	OpenHandles int
	fixedUp     bool
	Writes      int64
}

// FS is the current file system.
var FS = New()

func New() *FSys {
	f := &FSys{cwd: "/", nextID: 1}
	f.root = &Inode{Dir: true, mode: 0755 | fs.ModeDir, ID: f.nextID}
	return f
}

// Reset starts with an empty file system.
func Reset() { FS = New() }

//go:norace
func perr(op, path string, e error) error { return &fs.PathError{Op: op, Path: path, Err: e} }

//go:norace
func (n *Inode) find(name string) *Inode {
	for i := 0; i < n.nk; i++ {
		if n.kids[i].name == name {
			return n.kids[i].n
		}
	}
	return nil
}

//go:norace
func (f *FSys) link(p *Inode, name string, n *Inode) {
	if p.nk == len(p.kids) {
		nw := make([]dirent, 2*p.nk+4)
		for i := 0; i < p.nk; i++ {
			nw[i] = p.kids[i]
		}
		p.kids = nw
	}
	// sorted by name
	i := p.nk
	for i > 0 && p.kids[i-1].name > name {
		p.kids[i] = p.kids[i-1]
		i--
	}
	p.kids[i] = dirent{name, n}
	p.nk++
	if f.LogOn {
		f.log(Op{Kind: 'c', Ino: n, Parent: p, Name: name})
	}
}

//go:norace
func (f *FSys) unlink(p *Inode, name string) {
	for i := 0; i < p.nk; i++ {
		if p.kids[i].name == name {
			for j := i; j+1 < p.nk; j++ {
				p.kids[j] = p.kids[j+1]
			}
			p.nk--
			p.kids[p.nk] = dirent{}
			if f.LogOn {
				f.log(Op{Kind: 'u', Parent: p, Name: name})
			}
			return
		}
	}
}

func (f *FSys) log(o Op) { f.Log = append(f.Log, o) }

// Abs makes a path absolute with the virtual working directory (not cleaned).
//
//go:norace
func Abs(path string) string {
	if len(path) > 0 && path[0] == '/' {
		return path
	}
	return FS.cwd + "/" + path
}

// walk resolves path. It returns the parent, the last name and the inode (nil
// if it does not exist). With follow, a final symbolic link is followed.
//
//go:norace
func (f *FSys) walk(path string, follow bool, depth int) (parent *Inode, name string, n *Inode, e error) {
	if path == "" {
		return nil, "", nil, syscall.ENOENT
	}
	if depth > 20 {
		return nil, "", nil, syscall.ELOOP
	}
	for i := 0; i < len(path); i++ {
		if path[i] == 0 {
			return nil, "", nil, syscall.EINVAL
		}
	}
	if path[0] != '/' {
		path = f.cwd + "/" + path
	}
	var stack [128]*Inode
	sp := 0
	stack[0] = f.root
	prefix := ""
	var names [128]string
	i := 0
	n = f.root
	parent = f.root
	name = "/"
	trailing := path[len(path)-1] == '/'
	for i < len(path) {
		for i < len(path) && path[i] == '/' {
			i++
		}
		j := i
		for j < len(path) && path[j] != '/' {
			j++
		}
		if i == j {
			break
		}
		c := path[i:j]
		i = j
		last := true
		for k := j; k < len(path); k++ {
			if path[k] != '/' {
				last = false
			}
		}
		if n == nil {
			return nil, "", nil, syscall.ENOENT
		}
		if !n.Dir {
			return nil, "", nil, syscall.ENOTDIR
		}
		if len(c) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		if c == "." {
			if last {
				name = "."
			}
			continue
		}
		if c == ".." {
			if sp > 0 {
				sp--
			}
			n = stack[sp]
			parent = n
			name = ".."
			continue
		}
		parent, name = n, c
		n = parent.find(c)
		if n != nil && n.Link != "" && (!last || follow || trailing) {
			t := n.Link
			if t[0] != '/' {
				prefix = ""
				for k := 1; k <= sp; k++ {
					prefix = prefix + "/" + names[k]
				}
				t = prefix + "/" + t
			}
			if j < len(path) {
				t = t + path[j:]
			}
			return f.walk(t, follow, depth+1)
		}
		if n != nil && n.Dir {
			sp++
			if sp >= len(stack) {
				return nil, "", nil, syscall.ENAMETOOLONG
			}
			stack[sp] = n
			names[sp] = c
		}
	}
	if trailing && n != nil && !n.Dir {
		return nil, "", nil, syscall.ENOTDIR
	}
	return parent, name, n, nil
}

// call counts a fallible operation and says whether it fails.
//
//go:norace
func (f *FSys) call(kind, file string) bool {
	f.Calls++
	if f.Record {
		f.rec(kind, file)
	}
	fail := false
	for i := 0; i < f.nplans; i++ {
		p := &f.plans[i]
		if p.op.Kind == kind && p.op.File == file {
			p.seen++
			if p.seen == p.n || p.all && p.seen > p.n {
				p.on = true
				fail = true
				f.short = p.short
			}
		} else if p.all && p.on {
			fail = true
			f.short = p.short
		}
	}
	if fail {
		f.Faulted++
	}
	return fail
}

type faultPlan struct {
	op             Call
	n, seen        int
	on, all, short bool
}

// Plan makes the n-th operation from now of the kind on the file fail.
func (f *FSys) Plan(op Call, n int, all, short bool) {
	f.plans[f.nplans] = faultPlan{op: op, n: n, all: all, short: short}
	f.nplans++
}

// NoPlan ends that.
func (f *FSys) NoPlan() int {
	f.nplans = 0
	return f.Faulted
}

func (f *FSys) rec(kind, file string) { f.Trace = append(f.Trace, Call{kind, file}) }

//go:norace
func (f *FSys) point(write bool) {
	if vrt.FSPoints {
		f.obj.Access(write)
	}
}

// File is an open file.
type File struct {
	name   string
	path   string
	n      *Inode
	off    int64
	flag   int
	closed bool
	fd     int
	obj    vrt.ObjState
	real   *os.File
	dirpos int
	lock   int // 0 none, 1 shared, 2 exclusive
	nio    int
	fs     *FSys
}

//go:norace
func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	f := FS
	f.point(flag&(os.O_CREATE|os.O_TRUNC) != 0)
	if f.call("open", name) {
		return nil, perr("open", name, syscall.EIO)
	}
	follow := flag&os.O_EXCL == 0 || flag&os.O_CREATE == 0
	p, base, n, e := f.walk(name, follow, 0)
	if e != nil {
		return nil, perr("open", name, e)
	}
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		if name[len(name)-1] == '/' {
			return nil, perr("open", name, syscall.EISDIR)
		}
		f.nextID++
		n = &Inode{ID: f.nextID, mode: perm & fs.ModePerm}
		f.link(p, base, n)
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		w := flag & (os.O_WRONLY | os.O_RDWR)
		if n.Dir && (w != 0 || flag&os.O_CREATE != 0) {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if flag&os.O_TRUNC != 0 && !n.Dir && n.size() > 0 {
			n.base, n.far = 0, nil
			n.Data = nil
			if f.LogOn {
				f.log(Op{Kind: 't', Ino: n, Size: 0, File: base})
			}
		}
	}
	h := &File{name: name, n: n, flag: flag, fs: f, path: base}
	f.OpenHandles++
	if f.nfds == len(f.fds) {
		nw := make([]*File, 2*f.nfds+16)
		for i := 0; i < f.nfds; i++ {
			nw[i] = f.fds[i]
		}
		f.fds = nw
	}
	// lowest free descriptor
	h.fd = -1
	for i := 0; i < f.nfds; i++ {
		if f.fds[i] == nil {
			f.fds[i] = h
			h.fd = 100 + i
			break
		}
	}
	if h.fd < 0 {
		f.fds[f.nfds] = h
		h.fd = 100 + f.nfds
		f.nfds++
	}
	return h, nil
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

// io is the scheduling point of a data operation.
//
// Thin makes only every Thin-th write to a blot table a scheduling point.
var Thin int

//go:norace
func (h *File) point(write, off bool) {
	if vrt.IOPoints {
		if Thin > 1 && write && len(h.path) > 4 && h.path[len(h.path)-4:] == ".iix" {
			if h.nio++; h.nio%Thin != 1 {
				return
			}
		}
		if off {
			h.obj.Access(true)
		} else {
			h.n.obj.Access(write)
		}
	}
}

//go:norace
func (h *File) check(op string) error {
	if h == nil {
		return os.ErrInvalid
	}
	if h.real != nil {
		return nil
	}
	if h.closed {
		return perr(op, h.name, os.ErrClosed)
	}
	return nil
}

//go:norace
func (h *File) canRead() bool { return h.flag&(os.O_WRONLY|os.O_RDWR) != os.O_WRONLY }

//go:norace
func (h *File) canWrite() bool { return h.flag&(os.O_WRONLY|os.O_RDWR) != 0 }

//go:norace
func (h *File) Read(p []byte) (int, error) {
	if e := h.check("read"); e != nil {
		return 0, e
	}
	if h.real != nil {
		return h.real.Read(p)
	}
	h.point(false, true)
	if h.fs.call("read", h.path) {
		return 0, perr("read", h.name, syscall.EIO)
	}
	if h.n.Dir {
		return 0, perr("read", h.name, syscall.EISDIR)
	}
	if !h.canRead() {
		return 0, perr("read", h.name, syscall.EBADF)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if h.off >= h.n.size() {
		return 0, io.EOF
	}
	n := h.n.get(p, h.off)
	raceWrite(p[:n])
	h.off += int64(n)
	return n, nil
}

//go:norace
func (h *File) ReadAt(p []byte, off int64) (int, error) {
	if e := h.check("read"); e != nil {
		return 0, e
	}
	if h.real != nil {
		return h.real.ReadAt(p, off)
	}
	if off < 0 {
		return 0, perr("readat", h.name, errNeg)
	}
	h.point(false, false)
	if h.fs.call("readat", h.path) {
		return 0, perr("read", h.name, syscall.EIO)
	}
	if h.n.Dir {
		return 0, perr("read", h.name, syscall.EISDIR)
	}
	if !h.canRead() {
		return 0, perr("read", h.name, syscall.EBADF)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if off >= h.n.size() {
		return 0, io.EOF
	}
	n := h.n.get(p, off)
	raceWrite(p[:n])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

//go:norace
func (h *File) put(p []byte, off int64) {
	n := h.n
	if h.fs.LogOn {
		h.fs.logWrite(n, p, off, h.path)
	}
	h.fs.Writes++
	end := off + int64(len(p))
	if n.base > 0 && end > n.base {
		for int64(len(n.far)) < end-n.base {
			n.far = append(n.far, 0)
		}
		for i, b := range p {
			if o := off + int64(i); o >= n.base {
				n.far[o-n.base] = b
			} else if b != 0 {
				panic("harness: a write at the start of the far part")
			}
		}
		return
	}
	if end > int64(len(n.Data)) {
		if end > int64(cap(n.Data)) {
			nw := make([]byte, end, 2*end+64)
			mcopy(nw, n.Data)
			n.Data = nw
		} else {
			old := len(n.Data)
			n.Data = n.Data[:end]
			for i := int64(old); i < off; i++ {
				n.Data[i] = 0
			}
		}
	}
	mcopy(n.Data[off:end], p)
}

//go:norace
func (n *Inode) size() int64 {
	if n.base > 0 {
		return n.base + int64(len(n.far))
	}
	return int64(len(n.Data))
}

// get reads at an offset below the size.
//
//go:norace
func (n *Inode) get(p []byte, off int64) int {
	if n.base == 0 {
		return mcopy(p, n.Data[off:])
	}
	k := 0
	for ; k < len(p) && off+int64(k) < n.size(); k++ {
		o := off + int64(k)
		switch {
		case o < int64(len(n.Data)):
			p[k] = n.Data[o]
		case o < n.base:
			p[k] = 0
		default:
			p[k] = n.far[o-n.base]
		}
	}
	return k
}

func (f *FSys) logWrite(n *Inode, p []byte, off int64, file string) {
	f.Log = append(f.Log, Op{Kind: 'w', Ino: n, Off: off, Data: append([]byte(nil), p...), File: file})
}

//go:norace
func (h *File) Write(p []byte) (int, error) {
	if e := h.check("write"); e != nil {
		return 0, e
	}
	if h.real != nil {
		return h.real.Write(p)
	}
	h.point(true, true)
	raceRead(p)
	if h.fs.call("write", h.path) {
		if h.fs.short && len(p) > 1 && h.canWrite() && !h.n.Dir {
			if h.flag&os.O_APPEND != 0 {
				h.off = h.n.size()
			}
			k := len(p) / 2
			h.put(p[:k], h.off)
			h.off += int64(k)
			return k, perr("write", h.name, syscall.ENOSPC)
		}
		return 0, perr("write", h.name, syscall.EIO)
	}
	if !h.canWrite() || h.n.Dir {
		return 0, perr("write", h.name, syscall.EBADF)
	}
	if h.flag&os.O_APPEND != 0 {
		h.off = h.n.size()
	}
	if len(p) == 0 {
		return 0, nil
	}
	h.put(p, h.off)
	h.off += int64(len(p))
	return len(p), nil
}

//go:norace
func (h *File) WriteAt(p []byte, off int64) (int, error) {
	if e := h.check("write"); e != nil {
		return 0, e
	}
	if h.real != nil {
		return h.real.WriteAt(p, off)
	}
	if h.flag&os.O_APPEND != 0 {
		return 0, errAppend
	}
	if off < 0 {
		return 0, perr("writeat", h.name, errNeg)
	}
	h.point(true, false)
	raceRead(p)
	if h.fs.call("writeat", h.path) {
		if h.fs.short && len(p) > 1 && h.canWrite() && !h.n.Dir {
			k := len(p) / 2
			h.put(p[:k], off)
			return k, perr("write", h.name, syscall.ENOSPC)
		}
		return 0, perr("write", h.name, syscall.EIO)
	}
	if !h.canWrite() || h.n.Dir {
		return 0, perr("write", h.name, syscall.EBADF)
	}
	if len(p) == 0 {
		return 0, nil
	}
	h.put(p, off)
	return len(p), nil
}

func (h *File) WriteString(s string) (int, error) { return h.Write([]byte(s)) }

//go:norace
func (h *File) Seek(off int64, whence int) (int64, error) {
	if e := h.check("seek"); e != nil {
		return 0, e
	}
	if h.real != nil {
		return h.real.Seek(off, whence)
	}
	h.point(true, true)
	if h.fs.call("seek", h.path) {
		return 0, perr("seek", h.name, syscall.EIO)
	}
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		off += h.off
	case io.SeekEnd:
		off += h.n.size()
	default:
		return 0, perr("seek", h.name, syscall.EINVAL)
	}
	if off < 0 {
		return 0, perr("seek", h.name, syscall.EINVAL)
	}
	h.off = off
	return off, nil
}

//go:norace
func (h *File) Truncate(size int64) error {
	if e := h.check("truncate"); e != nil {
		return e
	}
	h.point(true, false)
	if h.fs.call("truncate", h.path) {
		return perr("truncate", h.name, syscall.EIO)
	}
	if !h.canWrite() || size < 0 {
		return perr("truncate", h.name, syscall.EINVAL)
	}
	h.fs.truncate(h.n, size, h.path)
	return nil
}

//go:norace
func (f *FSys) truncate(n *Inode, size int64, file string) {
	if f.LogOn {
		f.log(Op{Kind: 't', Ino: n, Size: size, File: file})
	}
	if n.base > 0 || size > 1<<30 {
		if size < n.base {
			panic("harness: cutting a large file")
		}
		if n.base == 0 {
			n.base = size
		}
		for int64(len(n.far)) < size-n.base {
			n.far = append(n.far, 0)
		}
		n.far = n.far[:size-n.base]
		return
	}
	if size <= int64(len(n.Data)) {
		n.Data = n.Data[:size]
		return
	}
	nw := make([]byte, size)
	mcopy(nw, n.Data)
	n.Data = nw
}

//go:norace
func (h *File) Sync() error {
	if e := h.check("sync"); e != nil {
		return e
	}
	if h.fs.call("sync", h.path) {
		return perr("sync", h.name, syscall.EIO)
	}
	return nil
}

//go:norace
func (h *File) Close() error {
	if h == nil {
		return os.ErrInvalid
	}
	if h.real != nil {
		return h.real.Close()
	}
	if h.closed {
		return perr("close", h.name, os.ErrClosed)
	}
	if h.lock != 0 {
		h.n.lobj.Release()
		h.dropLock()
	}
	h.closed = true
	h.fs.OpenHandles--
	h.fs.fds[h.fd-100] = nil
	if h.fs.CloseFaults && h.fs.call("close", base(h.path)) {
		return perr("close", h.name, syscall.EIO) // it is closed all the same
	}
	return nil
}

func (h *File) Name() string { return h.name }

//go:norace
func (h *File) Fd() uintptr {
	if h == nil {
		return ^uintptr(0)
	}
	if h.real != nil {
		return h.real.Fd()
	}
	if h.closed {
		return ^uintptr(0)
	}
	return uintptr(h.fd)
}

//go:norace
func (h *File) dropLock() {
	if h.lock == 0 {
		return
	}
	n := h.n
	for i := 0; i < n.nl; i++ {
		if n.locks[i] == h {
			for j := i; j+1 < n.nl; j++ {
				n.locks[j] = n.locks[j+1]
			}
			n.nl--
			n.locks[n.nl] = nil
			break
		}
	}
	h.lock = 0
}

//go:norace
func (h *File) takeLock(kind int) {
	n := h.n
	if n.nl == len(n.locks) {
		nw := make([]*File, 2*n.nl+4)
		for i := 0; i < n.nl; i++ {
			nw[i] = n.locks[i]
		}
		n.locks = nw
	}
	n.locks[n.nl] = h
	n.nl++
	h.lock = kind
}

//go:norace
func (h *File) lockFree(kind int) bool {
	for i := 0; i < h.n.nl; i++ {
		o := h.n.locks[i]
		if o != h && (kind == 2 || o.lock == 2) {
			return false
		}
	}
	return true
}

// Flock is flock(2).
//
//go:norace
func Flock(fd int, how int) error {
	f := FS
	var h *File
	if fd >= 100 && fd-100 < f.nfds {
		h = f.fds[fd-100]
	}
	if h == nil {
		return syscall.EBADF
	}
	nb := how&syscall.LOCK_NB != 0
	kind := 0
	switch how &^ syscall.LOCK_NB {
	case syscall.LOCK_SH:
		kind = 1
	case syscall.LOCK_EX:
		kind = 2
	case syscall.LOCK_UN:
		if f.call("flock", h.path) {
			return syscall.EIO
		}
		h.n.lobj.Release()
		h.dropLock()
		return nil
	default:
		return syscall.EINVAL
	}
	if f.call("flock", h.path) {
		return syscall.EIO
	}
	if nb {
		h.n.lobj.Access(true)
		if !h.lockFree(kind) {
			return syscall.EWOULDBLOCK
		}
		h.dropLock()
		h.takeLock(kind)
		return nil
	}
	// a conversion gives up the old lock first
	if h.lock != 0 {
		h.n.lobj.Release()
		h.dropLock()
	}
	h.n.lobj.WaitFor(func() bool { return h.lockFree(kind) }, "lock of "+h.name)
	h.takeLock(kind)
	return nil
}

type info struct {
	name string
	n    *Inode
	size int64
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.size }
func (i info) ModTime() time.Time { return time.Unix(0, 0) }
func (i info) IsDir() bool        { return i.n.Dir }
func (i info) Sys() any           { return i.n }
func (i info) Mode() fs.FileMode  { return i.n.fmode() }

//go:norace
func (n *Inode) fmode() fs.FileMode {
	m := n.mode & fs.ModePerm
	if n.Dir {
		return m | fs.ModeDir
	}
	if n.Link != "" {
		return m | fs.ModeSymlink
	}
	return m
}

type dent struct{ info }

func (d dent) Type() fs.FileMode          { return d.info.Mode().Type() }
func (d dent) Info() (fs.FileInfo, error) { return d.info, nil }

//go:norace
func base(name string) string {
	for len(name) > 1 && name[len(name)-1] == '/' {
		name = name[:len(name)-1]
	}
	for i := len(name) - 1; i >= 0; i-- {
		if name[i] == '/' && len(name) > 1 {
			return name[i+1:]
		}
	}
	return name
}

//go:norace
func (h *File) Stat() (fs.FileInfo, error) {
	if e := h.check("stat"); e != nil {
		return nil, e
	}
	if h.real != nil {
		return h.real.Stat()
	}
	h.point(false, false)
	if h.fs.call("fstat", h.path) {
		return nil, perr("stat", h.name, syscall.EIO)
	}
	return info{base(h.name), h.n, h.n.size()}, nil
}

//go:norace
func stat(op, name string, follow bool) (fs.FileInfo, error) {
	f := FS
	f.point(false)
	if f.call("stat", base(name)) {
		return nil, perr(op, name, syscall.EIO)
	}
	_, _, n, e := f.walk(name, follow, 0)
	if e == nil && n == nil {
		e = syscall.ENOENT
	}
	if e != nil {
		return nil, perr(op, name, e)
	}
	return info{base(name), n, n.size()}, nil
}

func Stat(name string) (fs.FileInfo, error)  { return stat("stat", name, true) }
func Lstat(name string) (fs.FileInfo, error) { return stat("lstat", name, false) }

//go:norace
func Mkdir(name string, perm fs.FileMode) error {
	f := FS
	f.point(true)
	if f.call("mkdir", base(name)) {
		return perr("mkdir", name, syscall.EIO)
	}
	p, b, n, e := f.walk(name, false, 0)
	if e != nil {
		return perr("mkdir", name, e)
	}
	if n != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	f.nextID++
	f.link(p, b, &Inode{ID: f.nextID, Dir: true, mode: perm & fs.ModePerm})
	return nil
}

func MkdirAll(name string, perm fs.FileMode) error {
	fi, e := Stat(name)
	if e == nil {
		if fi.IsDir() {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	for i := 1; i < len(name); i++ {
		if name[i] == '/' {
			if e := Mkdir(name[:i], perm); e != nil && !os.IsExist(e) {
				return e
			}
		}
	}
	if e := Mkdir(name, perm); e != nil {
		if fi, e2 := Stat(name); e2 == nil && fi.IsDir() {
			return nil
		}
		return e
	}
	return nil
}

//go:norace
func Remove(name string) error {
	f := FS
	f.point(true)
	if f.call("remove", base(name)) {
		return perr("remove", name, syscall.EIO)
	}
	p, b, n, e := f.walk(name, false, 0)
	if e == nil && n == nil {
		e = syscall.ENOENT
	}
	if e == nil && n.Dir && n.nk > 0 {
		e = syscall.ENOTEMPTY
	}
	if e == nil && (n == f.root || b == "." || b == "..") {
		e = syscall.EBUSY
	}
	if e != nil {
		return perr("remove", name, e)
	}
	f.unlink(p, b)
	return nil
}

func RemoveAll(name string) error {
	f := FS
	if name == "" {
		return nil
	}
	f.point(true)
	if f.call("removeall", base(name)) {
		return perr("unlinkat", name, syscall.EIO)
	}
	p, b, n, e := f.walk(name, false, 0)
	if e == syscall.ENOENT || e == nil && n == nil {
		return nil
	}
	if e != nil {
		return perr("RemoveAll", name, e)
	}
	if b == "." || b == ".." {
		return perr("RemoveAll", name, syscall.EINVAL)
	}
	f.removeTree(n)
	if n == f.root {
		return perr("unlinkat", name, syscall.EBUSY)
	}
	f.unlink(p, b)
	return nil
}

func (f *FSys) removeTree(n *Inode) {
	for n.nk > 0 {
		c := n.kids[n.nk-1]
		if c.n.Dir {
			f.removeTree(c.n)
		}
		f.unlink(n, c.name)
	}
}

func Rename(from, to string) error {
	f := FS
	f.point(true)
	if f.call("rename", base(from)) {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.EIO}
	}
	le := func(e error) error { return &os.LinkError{Op: "rename", Old: from, New: to, Err: e} }
	p, b, n, e := f.walk(from, false, 0)
	if e != nil {
		return le(e)
	}
	if n == nil {
		return le(syscall.ENOENT)
	}
	p2, b2, n2, e := f.walk(to, false, 0)
	if e != nil {
		return le(e)
	}
	if n2 == n {
		return nil
	}
	if n2 != nil {
		switch {
		case n2.Dir && !n.Dir:
			return le(syscall.EEXIST)
		case !n2.Dir && n.Dir:
			return le(syscall.ENOTDIR)
		case n2.Dir && n2.nk > 0:
			return le(syscall.ENOTEMPTY)
		}
		defer f.together(len(f.Log), b2)
		f.unlink(p2, b2)
	} else {
		defer f.together(len(f.Log), b2)
	}
	f.unlink(p, b)
	f.link(p2, b2, n)
	return nil
}

// together makes the logged operations from i on one.
func (f *FSys) together(i int, name string) {
	for ; i < len(f.Log); i++ {
		f.Log[i].File = "rename " + name
		f.Log[i].More = i+1 < len(f.Log)
	}
}

func Symlink(old, name string) error {
	f := FS
	f.point(true)
	if f.call("symlink", base(name)) {
		return &os.LinkError{Op: "symlink", Old: old, New: name, Err: syscall.EIO}
	}
	p, b, n, e := f.walk(name, false, 0)
	if e == nil && n != nil {
		e = syscall.EEXIST
	}
	if e != nil {
		return &os.LinkError{Op: "symlink", Old: old, New: name, Err: e}
	}
	f.nextID++
	f.link(p, b, &Inode{ID: f.nextID, Link: old, mode: 0777})
	return nil
}

func Link(old, name string) error {
	f := FS
	f.point(true)
	_, _, o, e := f.walk(old, false, 0)
	if e == nil && o == nil {
		e = syscall.ENOENT
	}
	p, b, n, e2 := f.walk(name, false, 0)
	if e == nil {
		e = e2
	}
	if e == nil && n != nil {
		e = syscall.EEXIST
	}
	if e == nil && o.Dir {
		e = syscall.EPERM
	}
	if e != nil {
		return &os.LinkError{Op: "link", Old: old, New: name, Err: e}
	}
	f.link(p, b, o)
	return nil
}

func Readlink(name string) (string, error) {
	_, _, n, e := FS.walk(name, false, 0)
	if e == nil && n == nil {
		e = syscall.ENOENT
	}
	if e == nil && n.Link == "" {
		e = syscall.EINVAL
	}
	if e != nil {
		return "", perr("readlink", name, e)
	}
	return n.Link, nil
}

func Truncate(name string, size int64) error {
	f := FS
	f.point(true)
	if f.call("truncate", base(name)) {
		return perr("truncate", name, syscall.EIO)
	}
	_, _, n, e := f.walk(name, true, 0)
	if e == nil && n == nil {
		e = syscall.ENOENT
	}
	if e == nil && n.Dir {
		e = syscall.EISDIR
	}
	if e != nil {
		return perr("truncate", name, e)
	}
	f.truncate(n, size, base(name))
	return nil
}

func Chmod(name string, mode fs.FileMode) error {
	_, _, n, e := FS.walk(name, true, 0)
	if e == nil && n == nil {
		e = syscall.ENOENT
	}
	if e != nil {
		return perr("chmod", name, e)
	}
	n.mode = mode & fs.ModePerm
	return nil
}

func (h *File) Chmod(mode fs.FileMode) error {
	if e := h.check("chmod"); e != nil {
		return e
	}
	h.n.mode = mode & fs.ModePerm
	return nil
}

func ReadDir(name string) ([]fs.DirEntry, error) {
	h, e := Open(name)
	if e != nil {
		return nil, e
	}
	defer h.Close()
	return h.ReadDir(-1)
}

func (h *File) ReadDir(n int) ([]fs.DirEntry, error) {
	if e := h.check("readdir"); e != nil {
		return nil, e
	}
	if h.fs.call("readdir", h.path) {
		return nil, perr("readdirent", h.name, syscall.EIO)
	}
	if !h.n.Dir {
		return nil, perr("readdirent", h.name, syscall.ENOTDIR)
	}
	var res []fs.DirEntry
	for h.dirpos < h.n.nk && (n <= 0 || len(res) < n) {
		k := h.n.kids[h.dirpos]
		res = append(res, dent{info{k.name, k.n, k.n.size()}})
		h.dirpos++
	}
	if n > 0 && len(res) == 0 {
		return nil, io.EOF
	}
	return res, nil
}

func (h *File) Readdir(n int) ([]fs.FileInfo, error) {
	l, e := h.ReadDir(n)
	var res []fs.FileInfo
	for _, d := range l {
		fi, _ := d.Info()
		res = append(res, fi)
	}
	return res, e
}

func (h *File) Readdirnames(n int) ([]string, error) {
	l, e := h.ReadDir(n)
	var res []string
	for _, d := range l {
		res = append(res, d.Name())
	}
	return res, e
}

func ReadFile(name string) ([]byte, error) {
	h, e := Open(name)
	if e != nil {
		return nil, e
	}
	defer h.Close()
	return io.ReadAll(h)
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	h, e := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if e != nil {
		return e
	}
	_, e = h.Write(data)
	if e2 := h.Close(); e == nil {
		e = e2
	}
	return e
}

func Getwd() (string, error) { return FS.cwd, nil }

func Chdir(dir string) error {
	f := FS
	_, _, n, e := f.walk(dir, true, 0)
	if e == nil && n == nil {
		e = syscall.ENOENT
	}
	if e == nil && !n.Dir {
		e = syscall.ENOTDIR
	}
	if e != nil {
		return perr("chdir", dir, e)
	}
	f.cwd = f.pathOf(n)
	return nil
}

// PathOf gives the path of a directory, "" for the root and what is gone.
func PathOf(n *Inode) string {
	if p := FS.pathOf(n); p != "/" {
		return p
	}
	return ""
}

func (f *FSys) pathOf(n *Inode) string {
	var rec func(d *Inode, p string) string
	rec = func(d *Inode, p string) string {
		if d == n {
			if p == "" {
				return "/"
			}
			return p
		}
		for i := 0; i < d.nk; i++ {
			if d.kids[i].n.Dir {
				if r := rec(d.kids[i].n, p+"/"+d.kids[i].name); r != "" {
					return r
				}
			}
		}
		return ""
	}
	return rec(f.root, "")
}

// CloseFd closes the file with descriptor fd.
func CloseFd(fd int) error {
	if fd >= 100 && fd-100 < FS.nfds && FS.fds[fd-100] != nil {
		return FS.fds[fd-100].Close()
	}
	return syscall.EBADF
}
