//go:build go1.21 && !zzinst

package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/zz_verif/env"
)

// cliRun is one run of the built command.
type cliRun struct {
	code        int
	out, stderr string
}

// cli runs the command in the directory cwd.
func (c *C) cli(cwd string, extraEnv []string, args ...string) cliRun {
	bin := os.Getenv("DUPI_BIN")
	if bin == "" {
		panic("harness: no command")
	}
	c.Call()
	ctx, stop := context.WithTimeout(context.Background(), 30*time.Second)
	defer stop()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = cwd
	home := filepath.Dir(env.W())
	cmd.Env = append([]string{"HOME=" + home, "GOPS_CONFIG_DIR=" + home, "GOTRACEBACK=single", "TMPDIR=" + home, "GOMAXPROCS=2"}, extraEnv...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	r := cliRun{0, o.String(), e.String()}
	if ctx.Err() != nil {
		c.Fail("dupi %s: does not end: no result after 30 s", strings.Join(args, " "))
	}
	if err != nil {
		x, ok := err.(*exec.ExitError)
		if !ok {
			panic("harness: running the command: " + err.Error())
		}
		r.code = x.ExitCode()
		if r.code < 0 {
			c.Fail("dupi %s: killed: %v %s", strings.Join(args, " "), err, short(r.stderr, 600))
		}
	}
	if strings.Contains(r.stderr, "panic: ") || strings.Contains(r.stderr, "fatal error: ") || strings.Contains(r.stderr, "goroutine 1 [") {
		c.Fail("dupi %s: crashed: %s", strings.Join(args, " "), short(r.stderr, 900))
	}
	return r
}

// sameIndex compares the index with the reference, whatever the order of the documents.
func (c *C) sameIndex(root string, r *Ref) {
	x, e := dupi.OpenIndex(root)
	if e != nil {
		c.Fail("the index cannot be opened: %v", e)
	}
	defer x.Close()
	st, e := x.Stats()
	if e != nil {
		c.Fail("statistics: %v", e)
	}
	if st.NumDocs != uint64(len(r.docs)) {
		c.Fail("there are %d documents, want %d: %s", st.NumDocs, len(r.docs), c.docsOf(r))
	}
	q := x.StartQuery(dupi.QueryMaxBlot)
	for _, b := range r.blots() {
		bl := &dupi.Blot{Blot: b}
		if e := q.Get(bl); e != nil {
			c.Fail("looking up blot %#x: %v", b, e)
		}
		var got, want []string
		for i := range bl.Docs {
			d := &bl.Docs[i]
			got = append(got, fmt.Sprintf("%s[%d:%d]", d.Path, d.Start, d.End))
		}
		for _, i := range r.posts[b] {
			want = append(want, fmt.Sprintf("%s[%d:%d]", r.abs[i], r.docs[i].start, r.docs[i].end))
		}
		sort.Strings(got)
		sort.Strings(want)
		if g, w := strings.Join(got, " "), strings.Join(want, " "); g != w {
			c.Fail("blot %#x: got %s, want %s", b, short(g, 500), short(w, 500))
		}
		c.Eval(1)
	}
	if st.NumPosts != uint64(r.nposts()) {
		c.Fail("there are %d postings, want %d", st.NumPosts, r.nposts())
	}
	if st.NumBlots != uint64(r.f.Shards)<<16 {
		c.Fail("the index has %d blots, want %d shards", st.NumBlots, r.f.Shards)
	}
}

func (c *C) docsOf(r *Ref) string {
	var l []string
	for i, p := range r.abs {
		l = append(l, fmt.Sprintf("%s[%d:%d]", env.Norm(p), r.docs[i].start, r.docs[i].end))
	}
	return short(strings.Join(l, " "), 300)
}
