//go:build go1.21

// Package vunix replaces golang.org/x/sys/unix and syscall in instrumented
// code, as far as advisory locks go.
package vunix

import (
	"syscall"

	"github.com/go-air/dupi/zz_verif/vos"
)

const (
	LOCK_SH = syscall.LOCK_SH
	LOCK_EX = syscall.LOCK_EX
	LOCK_NB = syscall.LOCK_NB
	LOCK_UN = syscall.LOCK_UN

	EINTR       = syscall.EINTR
	EAGAIN      = syscall.EAGAIN
	EWOULDBLOCK = syscall.EWOULDBLOCK
	ENOENT      = syscall.ENOENT
	EEXIST      = syscall.EEXIST
	EINVAL      = syscall.EINVAL
	EBADF       = syscall.EBADF
	ENOSPC      = syscall.ENOSPC
	EIO         = syscall.EIO
)

type Errno = syscall.Errno

func Flock(fd int, how int) error { return vos.Flock(fd, how) }
func Getpid() int                 { return vos.Getpid() }
func Unlink(p string) error       { return vos.Remove(p) }
func Fsync(fd int) error          { return nil }
func Close(fd int) error          { return vos.CloseFd(fd) }
