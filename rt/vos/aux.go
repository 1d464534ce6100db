//go:build go1.21

package vos

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"time"
)

var (
	errNeg    = errors.New("negative offset")
	errAppend = errors.New("os: invalid use of WriteAt on file opened with O_APPEND")
)

type (
	FileInfo     = os.FileInfo
	FileMode     = os.FileMode
	DirEntry     = os.DirEntry
	PathError    = os.PathError
	LinkError    = os.LinkError
	SyscallError = os.SyscallError
	Signal       = os.Signal
	Process      = os.Process
)

const (
	O_RDONLY          = os.O_RDONLY
	O_WRONLY          = os.O_WRONLY
	O_RDWR            = os.O_RDWR
	O_APPEND          = os.O_APPEND
	O_CREATE          = os.O_CREATE
	O_EXCL            = os.O_EXCL
	O_SYNC            = os.O_SYNC
	O_TRUNC           = os.O_TRUNC
	SEEK_SET          = 0
	SEEK_CUR          = 1
	SEEK_END          = 2
	PathSeparator     = os.PathSeparator
	PathListSeparator = os.PathListSeparator
	DevNull           = os.DevNull
	ModeDir           = os.ModeDir
	ModeAppend        = os.ModeAppend
	ModeExclusive     = os.ModeExclusive
	ModeTemporary     = os.ModeTemporary
	ModeSymlink       = os.ModeSymlink
	ModeDevice        = os.ModeDevice
	ModeNamedPipe     = os.ModeNamedPipe
	ModeSocket        = os.ModeSocket
	ModeIrregular     = os.ModeIrregular
	ModeType          = os.ModeType
	ModePerm          = os.ModePerm
)

var (
	ErrInvalid          = os.ErrInvalid
	ErrPermission       = os.ErrPermission
	ErrExist            = os.ErrExist
	ErrNotExist         = os.ErrNotExist
	ErrClosed           = os.ErrClosed
	ErrNoDeadline       = os.ErrNoDeadline
	ErrDeadlineExceeded = os.ErrDeadlineExceeded
	ErrProcessDone      = os.ErrProcessDone

	Args      = os.Args
	Stdin     = &File{real: os.Stdin, name: "/dev/stdin"}
	Stdout    = &File{real: os.Stdout, name: "/dev/stdout"}
	Stderr    = &File{real: os.Stderr, name: "/dev/stderr"}
	Interrupt = os.Interrupt
	Kill      = os.Kill
)

func IsExist(e error) bool              { return os.IsExist(e) }
func IsNotExist(e error) bool           { return os.IsNotExist(e) }
func IsPermission(e error) bool         { return os.IsPermission(e) }
func IsTimeout(e error) bool            { return os.IsTimeout(e) }
func IsPathSeparator(c uint8) bool      { return c == '/' }
func Exit(code int)                     { panic(fmt.Sprintf("os.Exit(%d)", code)) }
func Getenv(k string) string            { return os.Getenv(k) }
func LookupEnv(k string) (string, bool) { return os.LookupEnv(k) }
func Setenv(k, v string) error          { return os.Setenv(k, v) }
func Unsetenv(k string) error           { return os.Unsetenv(k) }
func Environ() []string                 { return os.Environ() }
func ExpandEnv(s string) string         { return os.ExpandEnv(s) }
func Hostname() (string, error)         { return "host", nil }
func Getpid() int                       { return 4242 }
func Getppid() int                      { return 4241 }
func Getuid() int                       { return 0 }
func Geteuid() int                      { return 0 }
func Getgid() int                       { return 0 }
func Getegid() int                      { return 0 }
func Getpagesize() int                  { return 4096 }
func UserHomeDir() (string, error)      { return "/home", nil }
func UserCacheDir() (string, error)     { return "/home/.cache", nil }
func UserConfigDir() (string, error)    { return "/home/.config", nil }
func Executable() (string, error)       { return "/bin/dupi", nil }
func TempDir() string                   { return "/tmp" }

func SameFile(a, b FileInfo) bool {
	x, ok := a.Sys().(*Inode)
	y, ok2 := b.Sys().(*Inode)
	return ok && ok2 && x == y
}

var tmpN int

func tmpName(dir, pat, op string) string {
	if dir == "" {
		dir = "/tmp"
	}
	pre, suf := pat, ""
	for i := len(pat) - 1; i >= 0; i-- {
		if pat[i] == '*' {
			pre, suf = pat[:i], pat[i+1:]
			break
		}
	}
	tmpN++
	return fmt.Sprintf("%s/%s%d%s", dir, pre, 1000000+tmpN, suf)
}

func CreateTemp(dir, pat string) (*File, error) {
	return OpenFile(tmpName(dir, pat, "createtemp"), O_RDWR|O_CREATE|O_EXCL, 0600)
}

func MkdirTemp(dir, pat string) (string, error) {
	n := tmpName(dir, pat, "mkdirtemp")
	return n, Mkdir(n, 0700)
}

func Chown(string, int, int) error               { return nil }
func Lchown(string, int, int) error              { return nil }
func Chtimes(string, time.Time, time.Time) error { return nil }
func (h *File) Chown(int, int) error             { return nil }
func (h *File) SetDeadline(time.Time) error      { return os.ErrNoDeadline }
func (h *File) SetReadDeadline(time.Time) error  { return os.ErrNoDeadline }
func (h *File) SetWriteDeadline(time.Time) error { return os.ErrNoDeadline }
func (h *File) Chdir() error                     { return Chdir(h.name) }
func (h *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{h}, r)
}
func (h *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{h})
}

type dirFS string

func DirFS(dir string) fs.FS { return dirFS(dir) }

func (d dirFS) Open(name string) (fs.File, error) { return Open(string(d) + "/" + name) }

func NewFile(fd uintptr, name string) *File { return &File{real: os.NewFile(fd, name), name: name} }

func Pipe() (r, w *File, err error) {
	a, b, e := os.Pipe()
	return &File{real: a}, &File{real: b}, e
}
