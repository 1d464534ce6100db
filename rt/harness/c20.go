//go:build go1.21

package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/zz_verif/env"
)

func init() { checks["C20"] = c20 }

// ioFault is a failing file operation: the occ-th (from the end, if negative)
// of its kind on the file.
type ioFault struct {
	kind, file string
	occ        int
	short, all bool
	of         int // number of them, where it depends on the size of the tables
}

func (x ioFault) String() string {
	s := fmt.Sprintf("%s|%s|%d", x.kind, x.file, x.occ)
	if x.short {
		s += "|short"
	}
	if x.all {
		s += "|on"
	}
	if x.of > 0 {
		s += fmt.Sprintf("|of %d", x.of)
	}
	return s
}

func parseFault(s string) (x ioFault) {
	p := strings.Split(s, "|")
	x.kind, x.file = p[0], p[1]
	fmt.Sscan(p[2], &x.occ)
	for _, o := range p[3:] {
		x.short = x.short || o == "short"
		x.all = x.all || o == "on"
		fmt.Sscanf(o, "of %d", &x.of)
	}
	return
}

// ioHist is a session that is run with a failure.
type ioHist struct {
	name string
	f    Cf
	docs [][]rDoc // of the sessions: the last one is the one with the failure
	read bool     // or it is a reader after all of them
	stop bool     // a failed Add ends the session
	few  bool     // leave out the operations in the middle of the blot tables

	mid     string // the last session but one was killed, with this state
	closing *int
	closed  *bool // whether closing succeeded
}

// texts with blots shared by documents
func ioText(f Cf, seed, words int) string {
	var b []uint32
	vals := []int{0, 5, 9, 100, 200, 254, 255}
	for i := 0; i < words; i++ {
		v := (seed*3 + i*(1+seed%3)) % len(vals)
		b = append(b, jb(f.Shards, (seed+i)%f.Shards, vals[v]))
	}
	return blotText(f.Shards, b...)
}

func ioDocs(f Cf, first, n, words int) (res []rDoc) {
	for i := first; i < first+n; i++ {
		res = append(res, doc(i, ioText(f, i, words+i%2)))
	}
	return
}

func ioHists(thorough bool) (hs []ioHist) {
	put := func(name string, f Cf, read, stop bool, docs ...[]rDoc) {
		hs = append(hs, ioHist{name: name, f: f, docs: docs, read: read, stop: stop})
	}
	a, b := cf(1, 1, 2, 1, 1), cf(2, 2, 1, 1, 1)
	w := cf(3, 1, 3, 1, 1)
	put("create", a, false, false, ioDocs(a, 0, 3, 4))
	put("create without documents", a, false, false, nil)
	put("create", b, false, false, ioDocs(b, 0, 2, 4))
	put("create, long lists", a, false, false, ioDocs(a, 0, 9, 6))
	put("append", a, false, false, ioDocs(a, 0, 3, 4), ioDocs(a, 3, 3, 4))
	put("append nothing", a, false, false, ioDocs(a, 0, 3, 4), nil)
	put("append", b, false, false, ioDocs(b, 0, 2, 4), ioDocs(b, 2, 2, 4))
	put("append, long lists", a, false, false, ioDocs(a, 0, 9, 6), ioDocs(a, 9, 5, 6))
	put("append and stop at an error", a, false, true, ioDocs(a, 0, 2, 4), ioDocs(a, 2, 5, 4))
	put("create and stop at an error", a, false, true, ioDocs(a, 0, 7, 4))
	put("append", w, false, false, ioDocs(w, 0, 4, 6), ioDocs(w, 4, 4, 6))
	put("read", a, true, false, ioDocs(a, 0, 5, 4))
	put("read", b, true, false, ioDocs(b, 0, 3, 4), ioDocs(b, 3, 3, 4))
	put("read, long lists", a, true, false, ioDocs(a, 0, 9, 6), ioDocs(a, 9, 5, 6))
	put("read an empty one", a, true, false, nil)
	// lists that are written before the session ends
	g := cf(1, 1, 300, 1, 1)
	big := func(first, n int) (res []rDoc) {
		for i := first; i < first+n; i++ {
			res = append(res, doc(i, blotText(1, 5)))
		}
		return
	}
	few := func() { hs[len(hs)-1].few = true }
	put("create, spilling lists", g, false, false, big(0, 530))
	few()
	put("append, spilling lists", g, false, false, big(0, 530), big(530, 530))
	few()
	put("create, spilling lists, and stop at an error", g, false, true, big(0, 530))
	few()
	put("read spilled lists", g, true, false, big(0, 530), big(530, 20))
	few()
	if thorough {
		c, d := cf(3, 2, 16384, 1, 1), cf(4, 3, 1, 1, 1)
		put("create", c, false, false, ioDocs(c, 0, 8, 7))
		put("append", c, false, false, ioDocs(c, 0, 8, 7), ioDocs(c, 8, 8, 7))
		put("append twice", c, false, false, ioDocs(c, 0, 4, 7), ioDocs(c, 4, 4, 7), ioDocs(c, 8, 4, 7))
		put("append", d, false, false, ioDocs(d, 0, 5, 8), ioDocs(d, 5, 5, 8))
		put("append and stop at an error", d, false, true, ioDocs(d, 0, 5, 8), ioDocs(d, 5, 5, 8))
		put("read", d, true, false, ioDocs(d, 0, 5, 8), ioDocs(d, 5, 5, 8))
		put("append, very long lists", a, false, false, ioDocs(a, 0, 40, 6), ioDocs(a, 40, 30, 6))
		put("read, very long lists", a, true, false, ioDocs(a, 0, 40, 6), ioDocs(a, 40, 30, 6))
	}
	return
}

func (h ioHist) String() string { return fmt.Sprintf("%s (%s)", h.name, h.f) }

// session runs one writing session; it returns the first error.
func (h ioHist) session(c *C, r *Ref, i int) (first error) {
	var x *dupi.Indexer
	var e error
	c.Call()
	if i == 0 {
		x, e = dupi.IndexerFromConfig(h.f.config("idx"))
	} else {
		x, e = dupi.OpenIndexer("idx")
	}
	if e != nil {
		return e
	}
	for _, d := range h.docs[i] {
		c.Call()
		if e := x.Add(toDoc(d)); e != nil {
			if first == nil {
				first = e
			}
			if h.stop {
				break
			}
			continue
		}
		r.add(d, env.W())
	}
	h.isClosing()
	c.Call()
	e = x.Close()
	if h.closed != nil {
		*h.closed = e == nil
	}
	if e != nil && first == nil {
		first = e
	}
	return first
}

// quietly runs f; a failed comparison is returned, a panic is not caught.
func (c *C) quietly(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(failT); !ok {
				panic(r)
			}
			msg, c.msg = c.msg, ""
		}
	}()
	f()
	return ""
}

// reader makes every kind of query; each must fail or be exact.
func (h ioHist) reader(c *C, r *Ref, docs bool) (errs int) {
	c.Call()
	x, e := dupi.OpenIndex("idx")
	if e != nil {
		return 1
	}
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(failT); ok {
				x.Close()
			}
			panic(p)
		}
	}()
	bad := func(e error) bool {
		if e != nil {
			errs++
		}
		return e != nil
	}
	blots := append(r.blots(), r.absent()...)
	for _, b := range blots {
		q := x.StartQuery(dupi.QueryMaxBlot)
		bl := &dupi.Blot{Blot: b}
		c.Call()
		if bad(q.Get(bl)) {
			continue
		}
		want := r.posts[b]
		ok := len(bl.Docs) == len(want)
		for i := 0; ok && i < len(want); i++ {
			ok = r.isDoc(want[i], &bl.Docs[i])
		}
		if !ok {
			c.Fail("lookup of blot %#x: got %s, want %s", b, recs(bl.Docs), r.want(want))
		}
		c.Eval(1)
	}
	for round := 0; round < 2; round++ {
		q := x.StartQuery(dupi.QueryMaxBlot)
		var res []dupi.Blot
		for i := 0; ; i++ {
			dst := make([]dupi.Blot, 2+round)
			c.Call()
			n, e := q.Next(dst)
			if e != nil && e.Error() != "EOF" {
				errs++
				// what came before or with the error is exact
				if n < 0 || n > len(dst) {
					c.Fail("extraction returned %d of %d", n, len(dst))
				}
				break
			}
			res = append(res, dst[:n]...)
			if e != nil {
				c.checkExtract(r, res)
				break
			}
			if n == 0 || i > 100000 {
				c.Fail("extraction does not end")
			}
		}
	}
	c.Call()
	st, e := x.Stats()
	if !bad(e) {
		w := r.stats(env.P("idx"))
		if env.Scale > 0 {
			st.BlotMean, st.BlotSigma = w.BlotMean, w.BlotSigma
		}
		if st.Root != w.Root || st.NumDocs != w.NumDocs || st.NumPaths != w.NumPaths || st.NumPosts != w.NumPosts || !near(st.BlotMean, w.BlotMean) || !near(st.BlotSigma, w.BlotSigma) {
			c.Fail("statistics: got %+v, want %+v", *st, w)
		}
	}
	if docs {
		// documents that are read from their files
		for i := range r.docs {
			if i == 12 {
				break
			}
			d := r.docs[i]
			p := env.P("docs" + d.path)
			want := d.text
			y := &dupi.Doc{Path: p, Start: 2, End: 2 + uint32(len(want))}
			c.Call()
			if !bad(y.Load()) {
				if string(y.Dat) != want {
					c.Fail("loading %s: got %q, want %q", p, y.Dat, want)
				}
			}
			for _, w := range r.f.windows(want) {
				y := &dupi.Doc{Path: p, Start: 2, End: 2 + uint32(len(want))}
				c.Call()
				s, t, e := x.FindBlot(w.blot, y)
				if !bad(e) {
					first := w
					for _, v := range r.f.windows(want) {
						if v.blot == w.blot {
							first = v
							break
						}
					}
					if int(s) != first.start+2 || int(t) != first.end+2 {
						c.Fail("locating blot %#x in %q: got [%d:%d], want [%d:%d]", w.blot, want, s, t, first.start+2, first.end+2)
					}
				}
				break
			}
		}
	}
	c.Call()
	bad(x.Close())
	return errs
}

// prep does what comes before the failure.
func (h ioHist) prep(c *C) *Ref {
	r := newRef(h.f)
	n := len(h.docs)
	if !h.read {
		n--
	}
	if h.mid != "" {
		h.midKill(c)
		return r
	}
	for i := 0; i < n; i++ {
		if e := h.session(c, r, i); e != nil {
			c.Fail("session %d without failures: %v", i+1, e)
		}
	}
	if h.read {
		for i, d := range r.docs {
			if i == 12 {
				break
			}
			must(env.MkdirAll(env.P("docs/d")))
			must(env.WriteFile(env.P("docs"+d.path), []byte("x "+d.text)))
		}
	}
	return r
}

// exact compares the index with the reference.
func (h ioHist) exact(c *C, r *Ref) {
	x := c.open("idx")
	c.checkAll(x, r, env.P("idx"))
	c.closeIndex(x)
}

func (h ioHist) faultless(c *C) {
	r := h.prep(c)
	if h.read {
		if n := h.reader(c, r, true); n > 0 {
			c.Fail("%d queries failed", n)
		}
	} else if e := h.session(c, r, len(h.docs)-1); e != nil {
		c.Fail("%v", e)
	}
	h.exact(c, r)
}

// occurrence of x among calls
func (x ioFault) at(calls [][2]string) int {
	n := 0
	for _, k := range calls {
		if k[0] == x.kind && k[1] == x.file {
			n++
		}
	}
	occ := x.occ
	if x.of > 0 && n != x.of && (occ > 4 || occ < -4) {
		// in tables of another size: at the same part of them
		occ = x.occ * n / x.of
		occ -= (occ - x.occ) % 6
	}
	if occ > 0 {
		return occ
	}
	return n + 1 + occ
}

func (h ioHist) faulty(c *C, xs []ioFault, calls [][2]string) {
	r := h.prep(c)
	for _, x := range xs {
		setFault(x, x.at(calls))
	}
	var e error
	errs := 0
	if h.read {
		errs = h.reader(c, r, true)
	} else {
		e = h.session(c, r, len(h.docs)-1)
	}
	hit := noFault()
	what := fmt.Sprintf("%s failed in %s", xs, h)
	if l := env.LocksHeld(); l != "" {
		c.Fail("%s: the lock is still held", what)
	}
	switch {
	case h.read:
		// the failure is over: exact again
		if n := h.reader(c, r, true); n > 0 {
			c.Fail("%s: %d queries failed afterwards", what, n)
		}
		h.exact(c, r)
	case e == nil:
		if m := c.quietly(func() { h.exact(c, r) }); m != "" {
			c.Fail("%s, no call returned an error, and: %s", what, m)
		}
	default:
		errs = 1
		// whatever is there: no panic, no hang
		c.mute = true
		c.quietly(func() { h.reader(c, r, false) })
		c.quietly(func() { // nor when it is opened for appending
			x := c.reopen("idx")
			c.quietly(func() { c.add(x, nil, doc(77, ioText(h.f, 5, 4))) })
			c.closeIndexer(x)
		})
		c.quietly(func() { h.reader(c, r, false) })
		c.mute = false
	}
	if hit == 0 {
		c.Note("not reached")
	} else {
		c.Note("%d failed, %v", hit, errs > 0)
	}
	c.Eval(1)
}

// edgeHists are indexes whose blot table has an entry across the boundary of
// reads, at every offset.
func edgeHists() (hs []ioHist) {
	f := cf(1, 1, 64, 1, 1)
	for j := 0; j < 9; j++ {
		var docs []rDoc
		for i := 0; i < 140; i++ {
			b := []uint32{0, 682}
			for k := 0; k < j; k++ {
				b = append(b, uint32(10+k))
			}
			if i > 0 {
				b = b[:2]
			}
			docs = append(docs, doc(i, blotText(1, b...)))
		}
		n := fmt.Sprintf("with %d short lists before the edge", j)
		hs = append(hs, ioHist{name: "append " + n, f: f, docs: [][]rDoc{docs, docs[:3]}, few: true},
			ioHist{name: "read " + n, f: f, docs: [][]rDoc{docs}, few: true, read: true})
	}
	// an entry that is misread so that the following ones are read right
	for last := 138; last <= 141; last++ {
		for j := 1; j <= 3; j++ {
			var docs []rDoc
			for i := 1; i <= last; i++ {
				var b []uint32
				if i <= 60 {
					b = append(b, 0)
				}
				for k := 0; i == 1 && k < j; k++ {
					b = append(b, uint32(10+k))
				}
				if i == last {
					b = append(b, 682)
				}
				docs = append(docs, doc(i, blotText(1, b...)))
			}
			hs = append(hs, ioHist{name: fmt.Sprintf("append to %d with %d short lists before the edge", last, j), f: f,
				docs: [][]rDoc{docs, {doc(0, blotText(1, 682, 683, 10))}}, few: true})
		}
	}
	return
}

func c20(t *T) {
	hs := ioHists(t.Thorough || t.replay != "")
	if env.Scale == 0 {
		if env.Inst && t.replay == "" && os.Getenv("VERIF_FALLBACK") == "" {
			hs = nil
		}
		hs = append(edgeHists(), hs...)
	}
	for _, h := range hs {
		h := h
		t.Case(h.String()+" without failures", h.faultless)
		if !env.Inst || t.Stop() {
			continue
		}
		var calls [][2]string
		if m, _ := t.once("", func(c *C) {
			r := h.prep(c)
			recordCalls()
			if h.read {
				h.reader(c, r, true)
			} else {
				h.session(c, r, len(h.docs)-1)
			}
			calls = recordedCalls()
		}); m != "" {
			continue // reported above
		}
		if p := h.String() + ": "; strings.HasPrefix(t.replay, p) {
			t.Case(t.replay, func(c *C) {
				var xs []ioFault
				for _, s := range strings.Split(t.replay[len(p):], " + ") {
					xs = append(xs, parseFault(s))
				}
				h.faulty(c, xs, calls)
			})
			continue
		} else if t.replay != "" {
			continue
		}
		// every operation, in order of first appearance
		total := map[[2]string]int{}
		var order [][2]string
		for _, k := range calls {
			if total[k]++; total[k] == 1 {
				order = append(order, k)
			}
		}
		n := 0
		var few []ioFault
		for _, k := range order {
			for i := 1; i <= total[k]; i++ {
				occ := i
				if i > total[k]/2 {
					occ = i - total[k] - 1
				}
				if h.few && (occ > 4 || occ < -4) && occ&(occ-1) != 0 && -occ&(-occ-1) != 0 && (h.read || !strings.HasSuffix(k[1], ".pos")) {
					continue
				}
				if edge := strings.Contains(h.name, "the edge"); edge && (k[0] != "read" || !strings.HasSuffix(k[1], ".iix") || i > 3) {
					continue
				}
				for v := 0; v < 4; v++ {
					x := ioFault{k[0], k[1], occ, v&1 != 0, v&2 != 0, 0}
					if strings.HasSuffix(k[1], ".iix") && env.Scale > 0 {
						x.of = total[k]
					}
					if x.short && !strings.HasPrefix(x.kind, "write") {
						continue
					}
					n++
					if !strings.HasSuffix(k[1], ".iix") || -3 <= occ && occ <= 3 {
						few = append(few, x)
					}
					t.Case(h.String()+": "+x.String(), func(c *C) { h.faulty(c, []ioFault{x}, calls) })
				}
			}
		}
		if few := few; strings.Contains(h.name, "the edge") {
		} else if len(few) < 180 || t.Thorough && len(few) < 800 {
			for i, x := range few {
				for _, y := range few[:i] {
					xs := []ioFault{y, x}
					t.Case(fmt.Sprintf("%s: %s + %s", h, y, x), func(c *C) { h.faulty(c, xs, calls) })
				}
			}
			t.Space("%s: all pairs of %d failures", h, len(few))
		}
		t.Space("%s: %d failures at %d operations (error without effect, half a write; once and from then on)", h, n, len(calls))
	}
}
