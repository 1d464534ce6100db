//go:build go1.21

package main

import "fmt"

func init() {
	checks["C03"] = c03
}

// pipe is a pipeline scenario.
type pipe struct {
	f    Cf
	docs []int // kinds of documents
	cut  int   // a new session begins before this document
	sc   Sched
}

func (p pipe) String() string {
	return fmt.Sprintf("%d workers %d shards flush %d docs %v cut %d", p.f.Shatters, p.f.Shards, p.f.Flush, p.docs, p.cut)
}

// document kinds: what they post decides who talks to whom
func pipeText(f Cf, i, kind int) string {
	n := f.Shards
	own := jb(n, i%n, 100+i)
	switch kind {
	case 0: // one blot that all have, and its own
		return blotText(n, jb(n, 0, 5), own)
	case 1: // a blot on every shard
		var b []uint32
		for s := 0; s < n; s++ {
			b = append(b, jb(n, s, 5))
		}
		return blotText(n, append(b, own)...)
	case 2:
		return ""
	case 4: // the same blot again and again
		return blotText(n, own, own, jb(n, 0, 5), own, jb(n, 0, 5))
	case 5: // blots of one shard only, another one for each document
		return blotText(n, jb(n, i%n, 5), own)
	case 3:
		return "a\xff b c d"
	}
	panic(kind)
}

func c03run(c *C, p pipe) {
	freeze()
	r := newRef(p.f)
	x := c.create(p.f, "idx")
	unfreeze()
	for i, k := range p.docs {
		if i == p.cut && i > 0 {
			c.closeIndexer(x)
			freeze()
			x = c.reopen("idx")
			unfreeze()
		}
		c.add(x, r, doc(i, pipeText(p.f, i, k)))
	}
	c.closeIndexer(x)
	freeze()
	y := c.open("idx")
	c.checkLookups(y, r)
	c.checkStats(y, r, y.Root())
	c.closeIndex(y)
}

func c03(t *T) {
	d := Sched{DPOR: true, Share: 0.6}
	ps := []pipe{
		{cf(1, 2, 2, 1, 1), []int{0, 0, 0}, 0, d},
		{cf(2, 2, 2, 1, 1), []int{1, 1}, 0, d},
		{cf(1, 3, 2, 1, 1), []int{2, 0, 2}, 0, d},
		{cf(1, 2, 2, 1, 1), []int{0, 0}, 0, d},
		{cf(1, 1, 1, 1, 1), []int{0, 0}, 0, d},
		{cf(2, 1, 2, 1, 1), []int{1}, 0, d},
		{cf(1, 3, 2, 1, 1), []int{0, 0}, 0, d},
		{cf(1, 2, 2, 1, 1), []int{2, 0}, 0, d},
		{cf(1, 2, 2, 1, 1), []int{3, 0}, 0, d},
		{cf(1, 2, 2, 1, 1), []int{0, 0}, 1, d},
		{cf(1, 2, 2, 1, 1), []int{0, 2, 0}, 0, d},
		{cf(1, 1, 2, 1, 1), []int{0, 0, 0, 0}, 0, d},
		{cf(2, 2, 1, 1, 1), []int{1, 0}, 0, d},
		{cf(2, 1, 2, 1, 1), []int{1, 1}, 0, d},
		{cf(1, 2, 2, 1, 1), []int{4, 0}, 0, d},
		{cf(2, 2, 2, 1, 1), []int{4, 3}, 0, d},
		{cf(1, 2, 2, 1, 1), []int{2, 2, 2}, 0, d},
		{cf(2, 2, 2, 1, 1), []int{}, 0, d},
		{cf(1, 3, 2, 1, 1), []int{0}, 0, d},
		{cf(3, 1, 2, 1, 1), []int{1}, 0, d},
		{cf(2, 2, 3, 1, 1), []int{5, 5}, 0, d},
		{cf(2, 2, 2, 1, 1), []int{0, 1}, 1, d},
		{cf(3, 2, 2, 1, 1), []int{0, 0}, 0, d},
		{cf(1, 4, 2, 1, 1), []int{0, 2}, 0, d},
		{cf(2, 3, 3, 1, 1), []int{0, 5}, 0, d},
	}
	if t.Thorough {
		d.Share = 0.8
		ps = append(ps,
			pipe{cf(2, 2, 3, 1, 1), []int{1, 0, 1}, 0, d},
			pipe{cf(1, 4, 2, 1, 1), []int{2, 0, 2, 0}, 0, Sched{Bound: 0, Share: 0.6}},
			pipe{cf(1, 3, 2, 1, 1), []int{0, 5, 0, 5}, 0, Sched{Bound: 1, Share: 0.6}},
			pipe{cf(2, 3, 2, 1, 1), []int{0, 5, 1, 4}, 0, Sched{Bound: 0, Share: 0.6}},
			pipe{cf(1, 3, 2, 1, 1), []int{0, 0, 0}, 0, d},
			pipe{cf(1, 2, 2, 1, 1), []int{0, 0, 0, 0}, 0, d},
			pipe{cf(2, 3, 2, 1, 1), []int{1, 1}, 0, d},
			pipe{cf(3, 2, 2, 1, 1), []int{1, 1}, 0, d},
			pipe{cf(2, 2, 2, 1, 1), []int{1, 1, 2}, 2, d},
			pipe{cf(2, 3, 3, 1, 1), []int{1, 0, 2, 1}, 0, d},
			pipe{cf(1, 2, 2, 1, 1), []int{2, 0, 3, 0, 0}, 0, d},
		)
	}
	for _, p := range ps {
		p := p
		t.Explore(p.String(), p.sc, func(c *C) { c03run(c, p) })
	}
}
