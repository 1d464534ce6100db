//go:build go1.21

package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/zz_verif/env"
)

func init() { checks["C31"] = c31 }

// holder watches what sessions hold.
type holder struct {
	c    *C
	f    Cf
	r    *Ref // nil: no index
	n    int
	base int // goroutines before anything
}

func (c *C) newHolder(f Cf) *holder { return &holder{c: c, f: f, base: env.Goroutines()} }

// held fails if anything is left of the sessions that have ended.
func (h *holder) held(what string) {
	freeze()
	for i := 0; !env.Inst && i < 100 && env.Goroutines() > h.base; i++ {
		time.Sleep(20 * time.Millisecond)
	}
	c := h.c
	if n := env.OpenHandles(); n != 0 {
		c.Fail("after %s: %d files are still open", what, n)
	}
	if l := env.LocksHeld(); l != "" || !env.LockFree(env.P("idx.lock")) {
		c.Fail("after %s: the index is still locked", what)
	}
	if n := env.Goroutines(); n > h.base {
		c.Fail("after %s: %d goroutines run on", what, n-h.base)
	}
	unfreeze()
	c.Eval(1)
}

func (h *holder) put(x *dupi.Indexer, n int) {
	for i := 0; i < n; i++ {
		h.c.add(x, h.r, doc(h.n, ioText(h.f, h.n, 4)))
		h.n++
	}
}

const holdOps = "cCanrpqlRAxyd"

// op runs one session; an operation that cannot be is left out: false.
func (h *holder) op(o byte) bool {
	c, f := h.c, h.f
	what := ""
	is := h.r != nil
	switch o {
	case 'c':
		what = "creating"
		if is {
			return false
		}
		h.r = newRef(f)
		x := c.create(f, "idx")
		h.put(x, 3)
		c.closeIndexer(x)
	case 'C':
		what = "a create that failed"
		if !is {
			return false
		}
		c.Call()
		if x, e := dupi.IndexerFromConfig(f.config("idx")); e == nil {
			x.Close()
			c.Fail("created over an index")
		}
	case 'a', 'n':
		what = "appending"
		if !is {
			return false
		}
		x := c.reopen("idx")
		if o == 'a' {
			h.put(x, 2)
		}
		c.closeIndexer(x)
	case 'r':
		what = "reading"
		if !is {
			return false
		}
		x := c.open("idx")
		c.checkAll(x, h.r, env.P("idx"))
		c.closeIndex(x)
	case 'p':
		what = "extractions that were not finished"
		if !is {
			return false
		}
		x, y := c.open("idx"), c.open("idx")
		for i := 0; i < 3; i++ {
			q := x.StartQuery(dupi.QueryMaxBlot)
			q.Next(make([]dupi.Blot, i))
			y.StartQuery(dupi.QueryMaxBlot).Next(make([]dupi.Blot, 1))
		}
		c.closeIndex(x)
		c.closeIndex(y)
	case 'q':
		what = "lookups with little room"
		if !is {
			return false
		}
		x := c.open("idx")
		for _, b := range append(h.r.blots(), h.r.absent()...) {
			for k := 0; k < 3; k++ {
				q := x.StartQuery(dupi.QueryMaxBlot)
				c.Call()
				q.Get(&dupi.Blot{Blot: b, Docs: make([]dupi.Doc, 0, k)})
			}
		}
		c.closeIndex(x)
	case 'l':
		what = "loading and locating"
		if !is {
			return false
		}
		must(env.WriteFile(env.P("f"), []byte(ioText(f, 1, 4))))
		x := c.open("idx")
		held := env.OpenHandles()
		for _, d := range []dupi.Doc{{Path: env.P("f")}, {Path: env.P("f"), End: 4}, {Path: env.P("f"), Start: 9, End: 4}, {Path: env.P("f"), Start: 1 << 20}, {Path: env.P("f"), End: 1 << 12},
			{Path: env.P("nosuch")}, {Path: env.P(".")}, {Path: env.P("f"), Start: 4, End: 4}, {}} {
			y := d
			c.Calls(4)
			y.Load()
			for _, b := range []uint32{0, 5, 9, 200} {
				y = d
				x.FindBlot(b, &y)
			}
			y = d
			x.FindBlots(map[uint32][]byte{5: nil, 9: nil}, &y)
			y = d
			x.BlotDoc(nil, &y)
			if n := env.OpenHandles(); n != held {
				c.Fail("loading and locating %+v left %d files open", d, n-held)
			}
		}
		c.closeIndex(x)
	case 'R', 'A':
		what = "an open that failed"
		var e error
		if is {
			// something of the index is missing
			for _, n := range []string{"cfg.json", "files.fnm", "dmd", "b0.pos", "b0.pos.iix", fmt.Sprintf("b%d.pos", f.Shards-1), fmt.Sprintf("b%d.pos.iix", f.Shards-1)} {
				p := env.P("idx/" + n)
				if _, e := env.Stat(p); e != nil {
					continue
				}
				must(env.Rename(p, env.P("away")))
				h.open(o, "an index without "+n)
				must(env.Rename(env.P("away"), p))
			}
			break
		}
		if e = h.open(o, "no index"); e == nil {
			c.Fail("opened without an index")
		}
	case 'x':
		what = "removing"
		if !is {
			return false
		}
		x := c.open("idx")
		c.Call()
		if e := dupi.RemoveIndex(x); e != nil {
			c.Fail("removing: %v", e)
		}
		h.r = nil
	case 'y':
		what = "removing after appending"
		if !is {
			return false
		}
		x := c.reopen("idx")
		h.put(x, 1)
		c.Call()
		if e := dupi.RemoveIndexer(x); e != nil {
			c.Fail("removing: %v", e)
		}
		h.r = nil
	case 'd':
		what = "closing without the directory"
		if !is {
			return false
		}
		x := c.reopen("idx")
		h.put(x, 1)
		must(env.RemoveAll(env.P("idx")))
		c.Call()
		x.Close()
		must(env.RemoveAll(env.P("idx")))
		h.r = nil
	}
	h.held(what)
	return true
}

// open opens an index that may be damaged.
func (h *holder) open(o byte, what string) error {
	h.c.Call()
	if o == 'R' {
		x, e := dupi.OpenIndex("idx")
		if e == nil {
			x.Close()
		}
		h.held("opening " + what)
		return e
	}
	x, e := dupi.OpenIndexer("idx")
	if e == nil {
		x.Close()
	}
	h.held("opening " + what + " for appending")
	return e
}

func c31(t *T) {
	// the unscaled build is for what failed on the scaled one
	if env.Inst && env.Scale == 0 && t.replay == "" && os.Getenv("VERIF_FALLBACK") == "" {
		return
	}
	c31seqs(t)
	if env.Inst {
		c31sched(t)
		c31faults(t)
	}
}

func c31seqs(t *T) {
	depth := 5
	if t.Thorough {
		depth = 6
	}
	if env.Scale == 0 && t.replay == "" && t.expect == nil {
		depth = 3
	}
	cfs := []Cf{cf(1, 1, 2, 1, 1), cf(2, 2, 1, 1, 1), cf(3, 1, 4, 1, 2), cf(4, 3, 16384, 1, 1)}
	for n := 1; n <= depth; n++ {
		combos(len(holdOps), n, func(s []int) {
			// only what can be, and nothing twice in a row but what writes
			is := false
			k := 0
			for i, o := range s {
				op := holdOps[o]
				if !is && !strings.ContainsRune("cRA", rune(op)) || is && op == 'c' || i > 0 && s[i-1] == o && op != 'a' {
					return
				}
				switch op {
				case 'c':
					is = true
				case 'x', 'y', 'd':
					is = false
				}
				k = k*5 + o
			}
			name := ""
			for _, o := range s {
				name += holdOps[o : o+1]
			}
			fs := cfs[k%len(cfs) : k%len(cfs)+1]
			if n < 3 {
				fs = cfs
			}
			for _, f := range fs {
				f := f
				t.Case(fmt.Sprintf("sessions %s (%s)", name, f), func(c *C) {
					h := c.newHolder(f)
					for _, o := range name {
						h.op(byte(o))
					}
					c.Note("%d", h.n)
				})
			}
		})
	}
	t.Space("all sequences of up to %d sessions of %d kinds (no kind twice in a row but appending)", depth, len(holdOps))
}

// c31sched: no goroutine is left under any schedule.
func c31sched(t *T) {
	for _, p := range []struct {
		f     Cf
		kinds []int
	}{
		{cf(1, 1, 2, 1, 1), []int{0}},
		{cf(1, 2, 2, 1, 1), []int{0}},
		{cf(2, 1, 2, 1, 1), []int{0}},
		{cf(2, 2, 2, 1, 1), []int{}},
		{cf(1, 2, 2, 1, 1), []int{0, 0}},
		{cf(2, 2, 2, 1, 1), []int{1}},
		{cf(3, 1, 2, 1, 1), []int{}},
		{cf(1, 3, 2, 1, 1), []int{2}},
	} {
		p := p
		t.Explore(fmt.Sprintf("schedules %s %v", p.f, p.kinds), Sched{DPOR: true, Share: 0.1}, func(c *C) {
			h := c.newHolder(p.f)
			x := c.create(p.f, "idx")
			for i, k := range p.kinds {
				c.add(x, nil, doc(i, pipeText(p.f, i, k)))
			}
			c.closeIndexer(x)
			h.held("creating")
		})
	}
}

// c31faults: whatever fails, nothing is left.
func c31faults(t *T) {
	for _, h := range ioHists(t.Thorough || t.replay != "") {
		h := h
		var calls [][2]string
		if t.Stop() {
			return
		}
		run := func(c *C, r *Ref) {
			if h.read {
				h.reader(c, r, true)
			} else {
				h.session(c, r, len(h.docs)-1)
			}
		}
		if m, _ := t.once("", func(c *C) {
			r := h.prep(c)
			closeFaults()
			recordCalls()
			run(c, r)
			calls = recordedCalls()
		}); m != "" {
			continue // not a matter of this property
		}
		faulty := func(c *C, x ioFault) {
			w := c.newHolder(h.f)
			r := h.prep(c)
			closeFaults()
			setFault(x, x.at(calls))
			c.quietly(func() { run(c, r) })
			hit := noFault()
			w.held(fmt.Sprintf("%s failed in %s", x, h))
			c.Note("%d", hit)
		}
		if p := h.String() + ": "; strings.HasPrefix(t.replay, p) {
			t.Case(t.replay, func(c *C) { faulty(c, parseFault(t.replay[len(p):])) })
			continue
		} else if t.replay != "" {
			continue
		}
		total := map[[2]string]int{}
		var order [][2]string
		for _, k := range calls {
			if total[k]++; total[k] == 1 {
				order = append(order, k)
			}
		}
		n := 0
		for _, k := range order {
			for i := 1; i <= total[k]; i++ {
				occ := i
				if i > total[k]/2 {
					occ = i - total[k] - 1
				}
				if (occ > 4 || occ < -4) && occ&(occ-1) != 0 && -occ&(-occ-1) != 0 && !t.Thorough {
					continue
				}
				for v := 0; v < 4; v++ {
					x := ioFault{k[0], k[1], occ, v&1 != 0, v&2 != 0, 0}
					if strings.HasSuffix(k[1], ".iix") && env.Scale > 0 {
						x.of = total[k]
					}
					if x.short && !strings.HasPrefix(x.kind, "write") {
						continue
					}
					n++
					t.Case(h.String()+": "+x.String(), func(c *C) { faulty(c, x) })
				}
			}
		}
		t.Space("%s: %d failures at %d operations", h, n, len(calls))
	}
}
