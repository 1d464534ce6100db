//go:build go1.21

package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/zz_verif/env"
)

func init() { checks["C33"] = c33 }

// group is what a session added; not all of it has to be there if it was
// killed or failed.
type group struct {
	docs []rDoc
	must bool
}

// holds compares an index with the documents of the sessions.
func (c *C) holds(f Cf, gs []group) {
	r := newRef(f)
	var of []int // group of each document
	for g, x := range gs {
		for _, d := range x.docs {
			r.add(d, env.W())
			of = append(of, g)
		}
	}
	c.Call()
	x, e := dupi.OpenIndex("idx")
	if e != nil {
		c.Fail("opening the index: %v", e)
	}
	c.holdsIn(x, r, gs, of)
	c.closeIndex(x)
}

func (c *C) holdsIn(x *dupi.Index, r *Ref, gs []group, of []int) {
	min := map[uint32]int{}
	check := func(what string, b uint32, ds []dupi.Doc) {
		i, n := 0, 0
		ok := true
		at := map[int][]int{}
		for _, k := range r.posts[b] {
			at[of[k]] = append(at[of[k]], k)
		}
		for g := range gs {
			if gs[g].must {
				for _, k := range at[g] {
					n++
					if ok = ok && i < len(ds) && r.isDoc(k, &ds[i]); ok {
						i++
					}
				}
				continue
			}
			left := append([]int(nil), at[g]...)
			for found := true; found && i < len(ds); {
				found = false
				for j, k := range left {
					if r.isDoc(k, &ds[i]) {
						left = append(left[:j], left[j+1:]...)
						i++
						found = true
						break
					}
				}
			}
		}
		min[b] = n
		if !ok || i != len(ds) {
			s := ""
			for g := range gs {
				if k := at[g]; len(k) > 0 {
					s += fmt.Sprintf("; session %d (complete: %v) %s", g+1, gs[g].must, r.want(k))
				}
			}
			c.Fail("%s of blot %#x: got %s, sessions: %s", what, b, recs(ds), strings.TrimPrefix(s, "; "))
		}
	}
	for _, b := range append(r.blots(), r.absent()...) {
		check("lookup", b, c.get(x, b))
	}
	seen := map[uint32]bool{}
	for _, bl := range c.extract(x, 3) {
		if seen[bl.Blot] {
			c.Fail("extraction returned blot %#x twice", bl.Blot)
		}
		seen[bl.Blot] = true
		check("extraction", bl.Blot, bl.Docs)
	}
	for _, b := range r.blots() {
		if !seen[b] && min[b] > 1 {
			c.Fail("extraction missed blot %#x that %d documents have", b, min[b])
		}
	}
	c.Eval(1)
}

func (h ioHist) groups() (gs []group) {
	for i, ds := range h.docs {
		gs = append(gs, group{ds, i < len(h.docs)-1 && (h.mid == "" || i < len(h.docs)-2)})
	}
	return
}

// more is what is added afterwards: to old and new lists, to old and new paths.
func (h ioHist) more(round int) (ds []rDoc) {
	ds = ioDocs(h.f, 2000+100*round, 2+round, 4)
	d := doc(2050+100*round, ioText(h.f, round, 5))
	d.path = doc(1, "").path
	ds = append(ds, d, doc(2060+100*round, blotText(h.f.Shards, jb(h.f.Shards, 0, 5), jb(h.f.Shards, 0, 31+round))))
	if len(h.docs) > 0 && len(h.docs[0]) > 300 {
		for i := 0; i < 500; i++ {
			ds = append(ds, doc(2100+1000*round+i, blotText(1, 5)))
		}
	}
	return
}

// recovers opens an index for appending after a session that was killed or
// failed, adds to it, and reads it; again and again. It says whether opening
// it worked.
func (h ioHist) recovers(c *C, mustOpen, read bool) bool {
	return h.recoversFrom(c, h.groups(), mustOpen, read)
}

func (h ioHist) recoversFrom(c *C, gs []group, mustOpen, read bool) bool {
	if len(h.docs) == 1 {
		// nothing is complete: whatever opens holds everything or is no index
		gs[0].must = true
	}
	if read || mustOpen {
		c.Call()
		x, e := dupi.OpenIndex("idx")
		if e == nil {
			c.closeIndex(x)
			c.holds(h.f, gs)
		} else if mustOpen {
			c.Fail("the session did not get as far as closing, and now the index does not open: %v", e)
		}
	}
	for round := 0; round < 2; round++ {
		c.Call()
		x, e := dupi.OpenIndexer("idx")
		if e != nil {
			if mustOpen || round > 0 {
				c.Fail("opening for appending, round %d: %v", round+1, e)
			}
			return false
		}
		ds := h.more(round)
		for _, d := range ds {
			c.add(x, nil, d)
		}
		c.closeIndexer(x)
		gs = append(gs, group{ds, true})
		c.holds(h.f, gs)
	}
	return true
}

func recoverHists(thorough bool) (hs []ioHist) {
	for _, h := range crashHists(thorough) {
		if h.name == "append, new blots between the old ones" {
			continue
		}
		hs = append(hs, h)
	}
	// records and lists that reach the files before the session ends
	g := cf(1, 1, 300, 1, 1)
	big := func(first, n int) (res []rDoc) {
		for i := first; i < first+n; i++ {
			res = append(res, doc(i, blotText(1, 5)))
		}
		return
	}
	hs = append(hs, ioHist{name: "append, spilling twice to spilled lists", f: g, docs: [][]rDoc{big(0, 530), big(530, 1050)}})
	for i := range hs {
		hs[i].stop = false
	}
	return
}

// copyKill replaces the index by what is in its directory now: as if the
// session that is going on were killed.
func (c *C) copyKill(x *dupi.Indexer) {
	copyTree("idx", "killed")
	c.closeIndexer(x)
	must(env.RemoveAll(env.P("idx")))
	must(env.Rename(env.P("killed"), env.P("idx")))
}

func c33(t *T) {
	hs := recoverHists(t.Thorough || t.replay != "")
	for _, h := range hs {
		h := h
		// on all builds: the files of a session that is going on, taken away
		if len(h.docs) > 1 {
			t.Case(h.String()+" with the last session cut off before it is closed", func(c *C) {
				n := len(h.docs) - 1
				for i := 0; i < n; i++ {
					if e := h.session(c, newRef(h.f), i); e != nil {
						c.Fail("session %d: %v", i+1, e)
					}
				}
				x := c.reopen("idx")
				for _, d := range h.docs[n] {
					c.add(x, nil, d)
				}
				linger()
				c.copyKill(x)
				h.recovers(c, true, true)
			})
		}
		// a piece of a record or of a list at the end of the files
		for cut := 1; cut < 12 && h.f.Shatters == 1 && len(h.docs) > 1; cut++ {
			cut := cut
			t.Case(fmt.Sprintf("%s with %d bytes of a session that was killed", h, cut), func(c *C) {
				n := len(h.docs) - 1
				for i := 0; i < n; i++ {
					if e := h.session(c, newRef(h.f), i); e != nil {
						c.Fail("session %d: %v", i+1, e)
					}
				}
				must(env.Append(env.P("idx/dmd"), []byte{0, 0, 0, 0, 0, 0, 0, 9, 0, 0, 0, 8}[:cut]))
				h.recovers(c, true, true)
			})
		}
	}
	slice := func(share float64, f func()) {
		d := t.deadline
		if !d.IsZero() {
			t.deadline = time.Now().Add(time.Duration(share * float64(time.Until(d))))
		}
		f()
		t.deadline, t.stop = d, len(t.R.Violations) >= 4
	}
	slice(0.4, t.failedSessions)
	slice(0.6, func() {
		for _, h := range hs {
			if !t.Stop() {
				t.recoveries(h)
			}
		}
	})
	for _, h := range hs {
		if !t.Stop() {
			t.recoveries2(h)
		}
	}
}

// failedSessions: every operation of a session fails, and then comes another.
func (t *T) failedSessions() {
	if !env.Inst {
		return
	}
	for _, h := range ioHists(t.Thorough || t.replay != "") {
		h := h
		if h.read || t.Stop() {
			continue
		}
		h.few = true
		var calls [][2]string
		if m, _ := t.once("", func(c *C) {
			r := h.prep(c)
			recordCalls()
			h.session(c, r, len(h.docs)-1)
			calls = recordedCalls()
		}); m != "" {
			t.incomplete("failures of " + h.String() + ": " + m)
			continue
		}
		failing := func(x ioFault) func(c *C) {
			return func(c *C) {
				r := h.prep(c)
				setFault(x, x.at(calls))
				n := len(r.docs)
				closed := false
				k := h
				k.closed = &closed
				e := k.session(c, r, len(h.docs)-1)
				noFault()
				c.Eval(1)
				if e == nil {
					return
				}
				gs := h.groups()
				if closed { // what was added without an error is in the index
					gs[len(gs)-1] = group{r.docs[n:], true}
				}
				c.Note("%v", h.recoversFrom(c, gs, closed, true))
			}
		}
		p := h.String() + " fails: "
		if t.replay != "" {
			if strings.HasPrefix(t.replay, p) {
				t.Case(t.replay, failing(parseFault(t.replay[len(p):])))
			}
			continue
		}
		total := map[[2]string]int{}
		var order [][2]string
		for _, k := range calls {
			if total[k]++; total[k] == 1 {
				order = append(order, k)
			}
		}
		n := 0
		for _, k := range order {
			for i := 1; i <= total[k]; i++ {
				occ := i
				if i > total[k]/2 {
					occ = i - total[k] - 1
				}
				if (strings.HasSuffix(k[1], ".iix") || total[k] > 64 && !t.Thorough) && (occ > 4 || occ < -4) && occ&(occ-1) != 0 && -occ&(-occ-1) != 0 {
					continue
				}
				for v := 0; v < 4; v++ {
					x := ioFault{k[0], k[1], occ, v&1 != 0, v&2 != 0, 0}
					if strings.HasSuffix(k[1], ".iix") && env.Scale > 0 {
						x.of = total[k]
					}
					if x.short && !strings.HasPrefix(x.kind, "write") {
						continue
					}
					n++
					t.Case(p+x.String(), failing(x))
				}
			}
		}
		t.Space("%s: %d failures at %d operations (error without effect, half a write; once and from then on; of many alike those near the ends and at powers of two), then two sessions that append", h, n, len(calls))
	}
}
