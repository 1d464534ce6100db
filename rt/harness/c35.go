//go:build go1.21 && !zzinst

package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"golang.org/x/sys/unix"

	"github.com/go-air/dupi/zz_verif/env"
)

func init() { checks["C35"] = c35 }

// sink is a file that takes only so many bytes.
type sink struct {
	*os.File
	off int64
}

// newSink makes a file that takes n bytes. If torn, the write that goes beyond
// is made in part; else it is refused as a whole (and smaller ones that still
// fit are made).
func newSink(n int, torn bool) (*sink, error) {
	fd, e := unix.MemfdCreate("out", unix.MFD_ALLOW_SEALING|unix.MFD_CLOEXEC)
	if e != nil {
		return nil, e
	}
	s := &sink{File: os.NewFile(uintptr(fd), "out")}
	page := int64(os.Getpagesize())
	size := int64(n)
	if torn { // the end is between two pages
		size = (size/page + 1) * page
		s.off = size - int64(n)
	} else if size > page {
		panic("harness: too much")
	}
	if e := s.Truncate(size); e != nil {
		return nil, e
	}
	if _, e := unix.FcntlInt(uintptr(fd), unix.F_ADD_SEALS, unix.F_SEAL_GROW); e != nil {
		return nil, e
	}
	_, e = s.Seek(s.off, 0)
	return s, e
}

func (s *sink) got() int {
	at, _ := s.Seek(0, 1)
	return int(at - s.off)
}

// cliTo runs the command with its output going to o; it returns the exit status.
func (c *C) cliTo(o *os.File, args ...string) (int, string) {
	c.Call()
	ctx, stop := context.WithTimeout(context.Background(), 30*time.Second)
	defer stop()
	cmd := exec.CommandContext(ctx, os.Getenv("DUPI_BIN"), args...)
	cmd.Dir = env.W()
	home := filepath.Dir(env.W())
	cmd.Env = []string{"HOME=" + home, "GOPS_CONFIG_DIR=" + home, "GOTRACEBACK=single", "TMPDIR=" + home, "GOMAXPROCS=2", "DUPIROOT=" + env.P("idx")}
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = o, &b
	err := cmd.Run()
	msg := b.String()
	if ctx.Err() != nil {
		c.Fail("dupi %s: does not end: no result after 30 s", strings.Join(args, " "))
	}
	if strings.Contains(msg, "panic: ") || strings.Contains(msg, "fatal error: ") || strings.Contains(msg, "goroutine 1 [") {
		c.Fail("dupi %s: crashed: %s", strings.Join(args, " "), short(msg, 900))
	}
	if err == nil {
		return 0, msg
	}
	x, ok := err.(*exec.ExitError)
	if !ok {
		panic("harness: running the command: " + err.Error())
	}
	if x.ExitCode() < 0 {
		c.Fail("dupi %s: killed: %v %s", strings.Join(args, " "), err, short(msg, 600))
	}
	return x.ExitCode(), msg
}

// c35world makes files and their index.
func c35world(c *C, w int) {
	a, b, d := low(0), low(1), low(2)
	must(env.MkdirAll(env.P("t")))
	var files []string
	switch w {
	case 0:
		files = []string{a + " " + b + " " + a, a + ", " + b}
	case 1:
		files = []string{a + " " + b + " " + d + " " + a + " " + d, d + " " + b + ". " + a, b + "\n" + d + " " + b + " " + a + "."}
	case 2: // nothing in common
		files = []string{a + " " + b, d}
	case 3: // nothing
	case 4: // a text of some length
		files = []string{words(0, 1, 2, 3, 4, 5, 6), words(0, 1, 2, 3, 4, 5, 6), words(6, 5, 4, 3, 0, 1, 2)}
	}
	for i, s := range files {
		must(env.WriteFile(env.P(fmt.Sprintf("t/f%d", i)), []byte(s)))
	}
	must(env.WriteFile(env.P("q"), []byte(a+" "+b+" "+d)))
	r := c.cli(env.W(), []string{"DUPIROOT=" + env.P("idx")}, "index", "-n", "1", "-t", "1", "t")
	if r.code != 0 {
		c.Fail("dupi index: exit status %d: %s", r.code, short(r.stderr, 300))
	}
}

func c35(t *T) {
	type command struct {
		name  string
		args  []string
		blots bool // of the first file are added
		files bool // all files are added
	}
	cmds := []command{
		{"inspect", []string{"inspect"}, false, false},
		{"inspect -json", []string{"inspect", "-json"}, false, false},
		{"inspect -files", []string{"inspect", "-files"}, false, false},
		{"extract", []string{"extract", "-sigma", "0"}, false, false},
		{"extract -b", []string{"extract", "-b", "-sigma", "0"}, false, false},
		{"extract -json", []string{"extract", "-json", "-sigma", "0"}, false, false},
		{"blot", []string{"blot"}, false, true},
		{"blot -offsets", []string{"blot", "-offsets"}, false, true},
		{"unblot", []string{"unblot"}, true, false},
		{"unblot -all", []string{"unblot", "-all"}, true, false},
		{"like", []string{"like"}, false, true},
	}
	worlds := 3
	if t.Thorough {
		worlds = 5
	}
	for w := 0; w < worlds; w++ {
		for _, m := range cmds {
			for _, torn := range []bool{false, true} {
				w, m, torn := w, m, torn
				t.Case(fmt.Sprintf("world %d, %s, the last write in part: %v", w, m.name, torn), func(c *C) {
					c35world(c, w)
					args := append([]string(nil), m.args...)
					if m.blots {
						out := c.cli(env.W(), []string{"DUPIROOT=" + env.P("idx")}, "blot", "q", "t/f0", "t/f1")
						args = append(args, lines(out.out)...)
					}
					if m.files {
						args = append(args, "q")
						for i := 0; ; i++ {
							f := fmt.Sprintf("t/f%d", i)
							if _, e := env.Lstat(env.P(f)); e != nil {
								break
							}
							args = append(args, f)
						}
					}
					r := c.cli(env.W(), []string{"DUPIROOT=" + env.P("idx")}, args...)
					if r.code != 0 {
						if w > 1 { // (files that are not there)
							return
						}
						c.Fail("dupi %s: exit status %d: %s", strings.Join(args, " "), r.code, short(r.stderr, 300))
					}
					total := len(r.out)
					step := 1
					if !torn && total > os.Getpagesize() {
						return
					}
					if total > 600 && !t.Thorough {
						step = 7
					}
					for l := 0; l <= total; l += step {
						if l+step > total {
							l = total // the last one is always there
						} else if !torn && !t.Thorough && l%3 != 0 && l < total-3 {
							continue
						}
						s, e := newSink(l, torn)
						if e != nil {
							t.incomplete("no files of limited size: " + e.Error())
							return
						}
						code, msg := c.cliTo(s.File, args...)
						got := s.got()
						s.Close()
						c.Eval(1)
						if l < total && code == 0 {
							c.Fail("dupi %s: exit status 0, but only %d of %d bytes could be printed; %s", strings.Join(args, " "), got, total, short(msg, 200))
						}
						if l == total && (code != 0 || got != total) {
							c.Fail("dupi %s: exit status %d, %d of %d bytes printed; %s", strings.Join(args, " "), code, got, total, short(msg, 200))
						}
					}
					// an output that takes nothing
					for _, p := range []struct {
						name string
						flag int
					}{{"/dev/full", os.O_WRONLY}, {"/dev/null", os.O_RDONLY}} {
						f, e := os.OpenFile(p.name, p.flag, 0)
						if e != nil {
							continue
						}
						code, msg := c.cliTo(f, args...)
						f.Close()
						if (code == 0) != (total == 0) {
							c.Fail("dupi %s: exit status %d, but nothing of %d bytes could be printed (%s); %s", strings.Join(args, " "), code, total, p.name, short(msg, 200))
						}
					}
					if !env.LockFree(env.P("idx.lock")) {
						c.Fail("the index stays locked")
					}
					c.Note("%d lines", len(lines(r.out)))
				})
			}
		}
	}
	t.Space("%d indexes, %d commands, an output that can be written up to every byte (quick: every third if the write is refused as a whole; every seventh of long outputs), or not at all", worlds, len(cmds))
}
