//go:build go1.21

package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/zz_verif/env"
)

func init() { checks["C04"] = c04 }

// qIndex is an index to query, with all that the answers are compared with.
type qIndex struct {
	f     Cf
	r     *Ref
	wins  [][]rWin
	blots []uint32
}

// content of an index: texts of the documents
func qTexts(f Cf, kind int) []string {
	n := f.Shards
	b := func(i int) uint32 { return jb(n, i%n, 7+3*i) }
	switch kind {
	case 0: // few documents that share blots in all shards
		return []string{
			blotText(n, b(0), b(1), b(2)),
			blotText(n, b(1), b(0)),
			blotText(n, b(3), b(1), b(2), b(3)),
		}
	case 1: // lists of several chunks
		var t []string
		for i := 0; i < 530; i++ {
			t = append(t, blotText(n, b(0), b(1+i%2)))
		}
		return t
	}
	panic(kind)
}

func (c *C) qBuild(f Cf, root string, kind int) *qIndex {
	q := &qIndex{f: f, r: newRef(f)}
	x := c.create(f, root)
	for i, t := range qTexts(f, kind) {
		// the documents are parts of files, so that they can be loaded
		d := rDoc{fmt.Sprintf("%s-f%d", env.P(root), i%3), uint32(i), uint32(i + len(t)), t}
		if i < 3 {
			if e := env.WriteFile(d.path, []byte(strings.Repeat(".", i)+t)); e != nil {
				panic(e)
			}
		}
		c.add(x, q.r, d)
		q.wins = append(q.wins, f.windows(t))
	}
	c.closeIndexer(x)
	q.blots = append(q.r.blots(), q.r.absent()[:1]...)
	return q
}

// programs of the querying goroutines
const qKinds = "gcxXbfFlst"

func (c *C) qRun(x *dupi.Index, q *qIndex, kind byte, who int) {
	r := q.r
	one := func(i int) *dupi.Doc {
		d := toDoc(r.docs[i])
		d.Path = r.abs[i]
		return d
	}
	switch kind {
	case 'g': // lookups of all blots
		for i := range q.blots {
			c.checkGet(x, r, q.blots[(i+who)%len(q.blots)])
		}
	case 'c': // a lookup with room for one document, one query for all
		qu := x.StartQuery(dupi.QueryMaxBlot)
		for _, b := range q.blots {
			c.Call()
			bl := &dupi.Blot{Blot: b, Docs: make([]dupi.Doc, 0, 1)}
			if e := qu.Get(bl); e != nil {
				c.Fail("looking up blot %#x: %v", b, e)
			}
			want := r.posts[b]
			if len(want) > 1 {
				want = want[:1]
			}
			if len(bl.Docs) != len(want) || len(want) == 1 && !r.isDoc(want[0], &bl.Docs[0]) {
				c.Fail("lookup of blot %#x with room for one: got %s, want %s", b, recs(bl.Docs), r.want(want))
			}
		}
	case 'x':
		c.checkExtract(r, c.extract(x, 1))
	case 'X':
		c.checkExtract(r, c.extract(x, 3))
	case 'b':
		for i := 0; i < 3; i++ {
			c.Call()
			bs := x.BlotDoc(nil, one(i))
			ok := len(bs) == len(q.wins[i])
			for j := 0; ok && j < len(bs); j++ {
				ok = bs[j]%(uint32(q.f.Shards)<<16) == q.wins[i][j].blot
			}
			if !ok {
				c.Fail("blots of document %d: %x, want %v", i, bs, q.wins[i])
			}
		}
	case 'f', 'l': // located blots; loaded from the file for it
		for i := 0; i < 3; i++ {
			d := one(i)
			d.Dat = nil
			if kind == 'l' {
				c.Call()
				if e := d.Load(); e != nil || string(d.Dat) != r.docs[i].text {
					c.Fail("loading document %d: %q %v", i, d.Dat, e)
				}
			}
			for j, w := range q.wins[i] {
				first := true
				for _, v := range q.wins[i][:j] {
					first = first && v.blot != w.blot
				}
				if !first {
					continue
				}
				c.Call()
				s, e, er := x.FindBlot(w.blot, d)
				if er != nil || s != d.Start+uint32(w.start) || e != d.Start+uint32(w.end) {
					c.Fail("blot %#x in document %d: %d %d %v", w.blot, i, s, e, er)
				}
			}
		}
	case 'F':
		for i := 0; i < 3; i++ {
			d := one(i)
			m := map[uint32][]byte{}
			for _, w := range q.wins[i] {
				m[w.blot] = []byte(r.docs[i].text[w.start:w.end])
			}
			c.Call()
			got, e := x.FindBlots(m, d)
			if e != nil || len(got) != len(m) {
				c.Fail("blots in document %d: %v %v", i, got, e)
			}
			for b, t := range m {
				if !bytes.Equal(got[b], t) {
					c.Fail("blots in document %d: %v", i, got)
				}
			}
		}
	case 's':
		c.checkStatsQuiet(x, r)
	case 't': // two queries at the same time
		q1, q2 := x.StartQuery(dupi.QueryMaxBlot), x.StartQuery(dupi.QueryMaxBlot)
		var l1, l2 []dupi.Blot
		for i := 0; ; i++ {
			d := make([]dupi.Blot, 1)
			c.Calls(2)
			n, e := q1.Next(d)
			l1 = append(l1, d[:n]...)
			m := 0
			if i%2 == 0 || e != nil {
				d2 := make([]dupi.Blot, 2)
				m, _ = q2.Next(d2)
				l2 = append(l2, d2[:m]...)
			}
			if n == 0 && m == 0 {
				break
			}
		}
		c.checkExtract(r, l1)
		c.checkExtract(r, l2)
	}
}

func c04case(c *C, f Cf, content int, progs string, handles int) {
	freeze()
	q := c.qBuild(f, "idx", content)
	xs := []*dupi.Index{c.open("idx")}
	qs := []*qIndex{q}
	for i := 1; i < handles; i++ {
		// other indexes, open at the same time
		g := f
		g.Shards = 3 - f.Shards
		root := fmt.Sprintf("idx%d", i)
		qs = append(qs, c.qBuild(g, root, 0))
		xs = append(xs, c.open(root))
	}
	unfreeze()
	var g Group
	for i := range progs {
		i := i
		g.Go(c, func() { c.qRun(xs[i%handles], qs[i%handles], progs[i], i) })
	}
	g.Wait()
	freeze()
	for i, x := range xs {
		c.checkLookups(x, qs[i].r)
		c.closeIndex(x)
	}
}

func c04(t *T) {
	type cs struct {
		f       Cf
		content int
		progs   string
		handles int
		sc      Sched
	}
	var l []cs
	f2, f1 := cf(2, 1, 3, 1, 1), cf(1, 1, 3, 1, 1)
	pb := func(n int) Sched { return Sched{Bound: n, IO: true, FS: true, Share: 0.5} }
	for i := range qKinds {
		for j := i; j < len(qKinds); j++ {
			p := qKinds[i:i+1] + qKinds[j:j+1]
			l = append(l, cs{f2, 0, p, 1, pb(2)})
		}
	}
	for _, p := range []string{"cc", "cs", "cF"} {
		l = append(l, cs{f1, 1, p, 1, pb(1)})
	}
	for _, p := range []string{"gg", "gx", "xx", "bb", "bf", "FF", "fl", "ss", "gs", "xt", "gc", "cc"} {
		l = append(l, cs{f2, 0, p, 2, pb(1)})
	}
	for _, p := range []string{"ggg", "gxX", "xtc", "bfF", "lgs"} {
		l = append(l, cs{f2, 0, p, 1, pb(1)})
	}
	if t.Thorough {
		for _, p := range []string{"gg", "gx", "xX", "gl"} {
			l = append(l, cs{f1, 1, p, 1, pb(1)})
		}
		for i := range qKinds {
			for j := i; j < len(qKinds); j++ {
				p := qKinds[i:i+1] + qKinds[j:j+1]
				l = append(l, cs{f2, 0, p, 2, pb(2)}, cs{f1, 0, p, 1, pb(3)})
				for k := j; k < len(qKinds); k++ {
					l = append(l, cs{f2, 0, p + qKinds[k:k+1], 1, pb(1)})
				}
			}
		}
	}
	for _, s := range l {
		s := s
		key := fmt.Sprintf("%s content %d queries %s on %d indexes, %d preemptions", s.f, s.content, s.progs, s.handles, s.sc.Bound)
		t.Explore(key, s.sc, func(c *C) { c04case(c, s.f, s.content, s.progs, s.handles) })
	}
}
