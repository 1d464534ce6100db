//go:build go1.21

package main

import (
	"strings"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/zz_verif/env"
)

func init() { checks["C21"] = c21 }

func crashHists(thorough bool) (hs []ioHist) {
	put := func(name string, f Cf, docs ...[]rDoc) {
		hs = append(hs, ioHist{name: name, f: f, docs: docs})
	}
	a, b, w := cf(1, 1, 2, 1, 1), cf(2, 2, 1, 1, 1), cf(3, 1, 3, 1, 1)
	put("create", a, ioDocs(a, 0, 3, 4))
	put("create without documents", a, nil)
	put("create", b, ioDocs(b, 0, 2, 4))
	put("append", a, ioDocs(a, 0, 3, 4), ioDocs(a, 3, 3, 4))
	put("append to an empty one", a, nil, ioDocs(a, 3, 3, 4))
	put("append nothing", a, ioDocs(a, 0, 3, 4), nil)
	put("append", b, ioDocs(b, 0, 2, 4), ioDocs(b, 2, 2, 4))
	put("append", w, ioDocs(w, 0, 4, 6), ioDocs(w, 4, 4, 6))
	v := cf(2, 1, 2, 1, 1)
	put("append", v, ioDocs(v, 0, 2, 2), ioDocs(v, 2, 2, 2))
	put("append twice", a, ioDocs(a, 0, 3, 4), ioDocs(a, 3, 3, 4), ioDocs(a, 6, 3, 4))
	put("append, long lists", a, ioDocs(a, 0, 9, 6), ioDocs(a, 9, 5, 6))
	// lists that are written before the session ends
	g := cf(1, 1, 300, 1, 1)
	big := func(first, n int) (res []rDoc) {
		for i := first; i < first+n; i++ {
			res = append(res, doc(i, blotText(1, 5)))
		}
		return
	}
	put("append, spilling lists", g, big(0, 10), big(10, 530))
	put("append to spilled lists", g, big(0, 530), big(530, 530))
	put("create, spilling lists", g, big(0, 530))
	// entries that become longer, before others
	var old, more []rDoc
	for i := 0; i < 80; i++ {
		old = append(old, doc(i, blotText(1, 10)))
	}
	old = append(old, doc(80, blotText(1, 60, 120)), doc(81, blotText(1, 200, 120)))
	more = append(more, doc(82, blotText(1, 40, 90)), doc(83, blotText(1, 5, 150)))
	put("append, new blots between the old ones", g, old, more)
	if thorough {
		c, d := cf(3, 2, 16384, 1, 1), cf(4, 3, 1, 1, 1)
		put("create", c, ioDocs(c, 0, 8, 7))
		put("append", c, ioDocs(c, 0, 8, 7), ioDocs(c, 8, 8, 7))
		put("append twice", c, ioDocs(c, 0, 4, 7), ioDocs(c, 4, 4, 7), ioDocs(c, 8, 4, 7))
		put("append", d, ioDocs(d, 0, 5, 8), ioDocs(d, 5, 5, 8))
		put("create", d, ioDocs(d, 0, 5, 8))
		put("append, very long lists", a, ioDocs(a, 0, 40, 6), ioDocs(a, 40, 30, 6))
		put("append, spilling lists twice", g, big(0, 530), big(530, 1100))
	}
	return
}

// refs are the references of the completed sessions and of all.
func (h ioHist) refs() (done, all *Ref) {
	done, all = newRef(h.f), newRef(h.f)
	for i, ds := range h.docs {
		for _, d := range ds {
			all.add(d, env.W())
			if i < len(h.docs)-1 {
				done.add(d, env.W())
			}
		}
	}
	return
}

// survivor checks what is left of an index after its last session was killed;
// it says whether it could be opened.
func (h ioHist) survivor(c *C) bool {
	c.Call()
	x, e := dupi.OpenIndex("idx")
	if e != nil {
		return false
	}
	defer x.Close()
	done, all := h.refs()
	first := len(h.docs) == 1
	list := func(what string, b uint32, ds []dupi.Doc) {
		want := done.posts[b]
		may := all.posts[b]
		ok := len(ds) >= len(want)
		for i := 0; ok && i < len(want); i++ {
			ok = done.isDoc(want[i], &ds[i])
		}
		used := map[int]bool{}
		for i := len(want); ok && i < len(ds); i++ {
			ok = false
			for _, d := range may[len(want):] {
				if !used[d] && all.isDoc(d, &ds[i]) {
					used[d], ok = true, true
					break
				}
			}
		}
		if ok && first {
			ok = len(ds) == len(may)
		}
		if !ok {
			c.Fail("%s of blot %#x: got %s, the completed sessions have %s, with the killed one %s", what, b, recs(ds), done.want(want), all.want(may))
		}
	}
	for _, b := range append(all.blots(), all.absent()...) {
		list("lookup", b, c.get(x, b))
	}
	seen := map[uint32]bool{}
	for _, bl := range c.extract(x, 3) {
		if seen[bl.Blot] {
			c.Fail("extraction returned blot %#x twice", bl.Blot)
		}
		seen[bl.Blot] = true
		list("extraction", bl.Blot, bl.Docs)
	}
	for _, b := range all.blots() {
		if !seen[b] && len(done.posts[b]) > 1 {
			c.Fail("extraction missed blot %#x with %s", b, done.want(done.posts[b]))
		}
	}
	c.Eval(1)
	return true
}

func c21(t *T) {
	for _, h := range crashHists(t.Thorough || t.replay != "") {
		h := h
		t.Case(h.String()+" without a kill", func(c *C) {
			r := newRef(h.f)
			for i := range h.docs {
				if e := h.session(c, r, i); e != nil {
					c.Fail("session %d: %v", i+1, e)
				}
			}
			h.exact(c, r)
			if !h.survivor(c) {
				c.Fail("opening failed")
			}
		})
		if env.Inst && !t.Stop() {
			t.crashes(h, 0)
		}
	}
	for pass := 1; pass < 3 && (pass == 1 || t.Thorough); pass++ {
		for _, h := range crashHists(t.Thorough || t.replay != "") {
			if !t.Thorough && (strings.Contains(h.name, "lists") || strings.Contains(h.name, "twice") || strings.Contains(h.name, "empty") || h.f.Shatters > 1) {
				continue
			}
			if env.Inst && !t.Stop() {
				t.crashes(h, pass)
			}
		}
	}
}
