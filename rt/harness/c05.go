//go:build go1.21

package main

import (
	"fmt"
	"io"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/zz_verif/env"
)

func init() {
	checks["C05"] = withMany(both(func(t *T) { extraction(t, c05check) }, func(t *T) { smallExtraction(t, c05check) }), c05check)
	checks["C06"] = withMany(both(func(t *T) { extraction(t, c06check) }, func(t *T) { smallExtraction(t, c06check) }), c06check)
	checks["C07"] = both(c07, smallC07)
	checks["C14"] = withMany(c14, func(c *C, x *dupi.Index, r *Ref) { c.checkStats(x, r, env.P("idx")) })
}

// layouts of blots on shards
type layout struct {
	shards int
	blots  []uint32
}

// joined blot of shard-local value v on shard s of n
func jb(n, s, v int) uint32 { return uint32(v*n + s) }

var layouts = []layout{
	{1, []uint32{jb(1, 0, 0), jb(1, 0, 1), jb(1, 0, 65535), jb(1, 0, 300)}},
	{2, []uint32{jb(2, 0, 5), jb(2, 1, 5), jb(2, 1, 65535), jb(2, 0, 0)}},
	{3, []uint32{jb(3, 0, 7), jb(3, 2, 7), jb(3, 2, 8), jb(3, 1, 65535)}},
	{2, []uint32{jb(2, 1, 0), jb(2, 1, 1), jb(2, 1, 2), jb(2, 1, 3)}},
	{4, []uint32{jb(4, 3, 0), jb(4, 1, 65535), jb(4, 0, 0), jb(4, 0, 9)}},
}

func incDocs(l layout, nd, nb int, bits int) []rDoc {
	var docs []rDoc
	for d := 0; d < nd; d++ {
		var bs []uint32
		for b := 0; b < nb; b++ {
			if bits>>(d*nb+b)&1 != 0 {
				bs = append(bs, l.blots[b])
			}
		}
		docs = append(docs, doc(d, blotText(l.shards, bs...)))
	}
	return docs
}

var batches = [][]int{{1}, {2}, {3}, {4}, {100}, {1, 2}, {2, 1}, {3, 1, 1}, {1, 1, 2}, {5, 1}}

// extraction enumerates indexes and runs check on each.
func extraction(t *T, check func(c *C, x *dupi.Index, r *Ref)) {
	one := func(key string, f Cf, docs func() []rDoc) {
		t.Case(key, func(c *C) {
			x, r := c.build(f, "idx", docs())
			check(c, x, r)
			c.Note("%d posts in %d blots", r.nposts(), len(r.posts))
			c.closeIndex(x)
		})
	}
	type space struct{ l, nd, nb int }
	sp := []space{{1, 3, 3}, {2, 3, 2}, {0, 2, 3}, {4, 2, 3}}
	if t.Thorough {
		sp = []space{{0, 3, 4}, {1, 3, 4}, {2, 3, 4}, {3, 3, 4}, {4, 3, 4}, {1, 4, 3}}
	}
	for _, s := range sp {
		s := s
		l := layouts[s.l]
		t.Space("all %d incidence relations of %d documents and blots %v on %d shards", 1<<(s.nd*s.nb), s.nd, l.blots[:s.nb], l.shards)
		for bits := 0; bits < 1<<(s.nd*s.nb); bits++ {
			bits := bits
			one(fmt.Sprintf("incidence %d docs=%d blots=%v bits=%x", l.shards, s.nd, l.blots[:s.nb], bits), cf(l.shards, 1+bits%2, 2, 1, 1), func() []rDoc { return incDocs(l, s.nd, s.nb, bits) })
		}
	}
	// counts with ties: blot i in the first n_i documents
	for li, l := range layouts {
		if (li > 2 || li == 1) && !t.Thorough {
			continue
		}
		l := l
		max := 4
		nb := 3
		if t.Thorough {
			nb = 4
		}
		t.Space("all document counts 0..%d of %d blots on %d shards", max-1, nb, l.shards)
		combos(max+1, nb, func(s []int) {
			// counts 0,1,2,3,6
			cs := make([]int, nb)
			for i, v := range s {
				cs[i] = []int{0, 1, 2, 3, 6}[v]
			}
			one(fmt.Sprintf("counts %d %v", li, cs), cf(l.shards, 1, 3, 1, 1), func() []rDoc { return countDocs(l, cs) })
		})
	}
	// a shard whose every blot is shared, or all but one
	for _, miss := range []int{0, 1, 2} {
		for _, n := range []int{1, 2} {
			miss, n := miss, n
			if n == 2 && !t.Thorough && miss > 0 {
				continue
			}
			t.Space("all 65536 blots of shard %d of %d shared except %d", n-1, n, miss)
			one(fmt.Sprintf("full shard of %d, %d missing", n, miss), cf(n, 1, 2, 1, 1), func() []rDoc {
				var a, b, both []uint32
				for v := 0; v < 65536; v++ {
					bl := jb(n, n-1, v)
					a = append(a, bl)
					if v >= miss {
						b = append(b, bl)
					}
					if v%1000 == 0 {
						both = append(both, bl)
					}
				}
				ds := []rDoc{doc(0, blotText(n, a...)), doc(1, blotText(n, b...)), doc(2, blotText(n, both...))}
				if n == 2 {
					ds = append(ds, doc(3, blotText(n, jb(2, 0, 3))), doc(4, blotText(n, jb(2, 0, 3), jb(2, 0, 4))))
				}
				return ds
			})
		}
	}
	// a full shard among others, which end before or after it
	ns := []int{0, 2, 3}
	if t.Thorough {
		ns = []int{0, 1, 2, 3, 4, 5}
	}
	t.Space("all 65536 blots of one of 3 shards in 4 documents, a blot of each other shard in any of %v documents", ns)
	for s := 0; s < 3; s++ {
		for _, n1 := range ns {
			for _, n2 := range ns {
				s, n1, n2 := s, n1, n2
				one(fmt.Sprintf("shard %d of 3 full, others %d and %d", s, n1, n2), cf(3, 1, 2, 1, 1), func() []rDoc {
					var a []uint32
					for v := 0; v < 65536; v++ {
						a = append(a, jb(3, s, v))
					}
					o1, o2 := jb(3, (s+1)%3, 9), jb(3, (s+2)%3, 9)
					all := blotText(3, a...)
					ds := []rDoc{doc(0, all), doc(1, all), doc(2, all), doc(3, all)}
					for i := 0; i < n1 || i < n2; i++ {
						var b []uint32
						if i < n1 {
							b = append(b, o1, o1+3)
						}
						if i < n2 {
							b = append(b, o2)
						}
						ds = append(ds, doc(4+i, blotText(3, b...)))
					}
					return ds
				})
			}
		}
	}
	// counts that need more than 16 bits
	t.Space("lists of 4, 65535, 65536, 65537 and 65538 documents on 1 and 2 shards")
	for n := 1; n <= 2; n++ {
		n := n
		one(fmt.Sprintf("lists around 65536 on %d shards", n), cf(n, 1, 16384, 1, 1), func() []rDoc {
			var ds []rDoc
			for d := 0; d < 65538; d++ {
				bs := []uint32{7}
				for i, k := range []int{4, 65535, 65536, 65537} {
					if d < k && (i != 1 || d != 60000) {
						bs = append(bs, uint32(8+i))
					}
				}
				ds = append(ds, rDoc{"/x", uint32(d), uint32(d + 1), blotText(n, bs...)})
			}
			return ds
		})
	}
	// long lists
	t.Space("lists of 511..1100 documents, on 3 shards")
	one("long lists", cf(3, 2, 100, 1, 1), func() []rDoc {
		var ds []rDoc
		for d := 0; d < 1100; d++ {
			bs := []uint32{4}
			if d < 511 {
				bs = append(bs, 5)
			}
			if d < 512 {
				bs = append(bs, 6)
			}
			if d%2 == 0 {
				bs = append(bs, 7, 8)
			}
			if d%500 == 3 {
				bs = append(bs, 100)
			}
			ds = append(ds, rDoc{"/x", uint32(d), uint32(d + 1), blotText(3, bs...)})
		}
		return ds
	})
}

func countDocs(l layout, cs []int) []rDoc {
	n := 0
	for _, k := range cs {
		if k > n {
			n = k
		}
	}
	var ds []rDoc
	for d := 0; d < n; d++ {
		var bs []uint32
		for i, k := range cs {
			if d < k {
				bs = append(bs, l.blots[i])
			}
		}
		ds = append(ds, doc(d, blotText(l.shards, bs...)))
	}
	return ds
}

// runExtract iterates with the batch sizes in turn and checks the protocol.
func (c *C) runExtract(x *dupi.Index, sizes []int, limit int) []dupi.Blot {
	q := x.StartQuery(dupi.QueryMaxBlot)
	var res []dupi.Blot
	for i := 0; ; i++ {
		b := sizes[i%len(sizes)]
		dst := make([]dupi.Blot, b)
		c.Call()
		n, e := q.Next(dst)
		if n < 0 || n > b {
			c.Fail("batches %v: Next returned %d of %d", sizes, n, b)
		}
		res = append(res, dst[:n]...)
		if e == nil && n > 0 {
			if len(res) > limit {
				c.Fail("batches %v: extraction does not end", sizes)
			}
			continue
		}
		if e != io.EOF || n != 0 {
			c.Fail("batches %v: Next returned %d, %v instead of results or the end", sizes, n, e)
		}
		// the end stays
		for k := 0; k < 3; k++ {
			c.Call()
			n, e := q.Next(make([]dupi.Blot, 1+k))
			if n != 0 || e != io.EOF {
				c.Fail("batches %v: after the end Next returned %d, %v", sizes, n, e)
			}
		}
		return res
	}
}

func c05check(c *C, x *dupi.Index, r *Ref) {
	bs := batches
	if len(r.posts) > 1000 {
		bs = [][]int{{1000}, {1, 70000}, {65536}, {65537}}
	} else if len(r.docs) > 60000 {
		bs = [][]int{{1}, {3}}
	}
	for _, b := range bs {
		res := c.runExtract(x, b, 300000)
		c.checkExtract(r, res)
	}
}

func c06check(c *C, x *dupi.Index, r *Ref) {
	bs := batches
	if len(r.posts) > 1000 {
		bs = [][]int{{1000}, {65536}}
	} else if len(r.docs) > 60000 {
		bs = [][]int{{2}}
	}
	for _, b := range bs {
		res := c.runExtract(x, b, 300000)
		for i := 1; i < len(res); i++ {
			if len(res[i].Docs) > len(res[i-1].Docs) {
				c.Fail("batches %v: blot %#x with %d documents came after %#x with %d", b, res[i].Blot, len(res[i].Docs), res[i-1].Blot, len(res[i-1].Docs))
			}
		}
		// stop at the first blot with fewer than n documents
		for n := 2; n <= 7; n++ {
			got := map[uint32]bool{}
			for i := range res {
				if len(res[i].Docs) < n {
					break
				}
				got[res[i].Blot] = true
			}
			for _, bl := range r.blots() {
				if len(r.posts[bl]) >= n && !got[bl] {
					c.Fail("batches %v: stopping below %d documents missed blot %#x with %d", b, n, bl, len(r.posts[bl]))
				}
			}
			c.Eval(1)
		}
	}
}

// ---- limits

func junk(n int) []dupi.Doc {
	d := make([]dupi.Doc, n)
	for i := range d {
		d[i] = dupi.Doc{Path: "/junk", Start: 77, End: 99, Dat: []byte("junk")}
	}
	return d
}

func c07(t *T) {
	var kinds [][]int
	if t.Thorough {
		combos(5, 3, func(s []int) { kinds = append(kinds, append([]int(nil), s...)) })
		kinds = append(kinds, []int{0, 1, 2, 3}, []int{4, 5, 6, 7}, []int{6, 6, 6, 6})
	} else {
		kinds = [][]int{{0, 1, 2}, {2, 2, 2}, {3, 2, 1}, {4, 3, 2}, {4, 4, 1}, {5, 5, 5}, {6, 0, 3}, {2, 6, 4}, {1, 1, 1}, {3, 3, 0}, {4, 2, 4, 2}, {0, 5, 6, 7}, {1, 6, 6, 6}}
	}
	for li, l := range layouts {
		for _, cs := range kinds {
			li, l, cs := li, l, cs
			t.Space("document counts %v on %d shards: lookups for every room 0..8 and prefill 0..3, extraction for rooms 0..4, mixed and unlimited, batches of 1..3", cs, l.shards)
			t.Case(fmt.Sprintf("limits layout %d counts %v", li, cs), func(c *C) {
				x, r := c.build(cf(l.shards, 1, 2, 1, 1), "idx", countDocs(l, cs))
				limits(c, x, r, l)
				c.closeIndex(x)
			})
		}
	}
}

func limits(c *C, x *dupi.Index, r *Ref, l layout) {
	// lookups
	for _, b := range append(append([]uint32(nil), l.blots...), 11) {
		want := r.posts[b]
		for pre := 0; pre <= 3; pre++ {
			for room := 0; room <= 8; room++ {
				docs := junk(pre + room)[:pre]
				q := x.StartQuery(dupi.QueryMaxBlot)
				bl := &dupi.Blot{Blot: b, Docs: docs}
				c.Call()
				if e := q.Get(bl); e != nil {
					c.Fail("lookup of %#x with room %d: %v", b, room, e)
				}
				n := min(room, len(want))
				if len(bl.Docs) != pre+n || cap(bl.Docs) != pre+room {
					c.Fail("lookup of %#x: prefill %d, room %d, %d documents: got %d", b, pre, room, len(want), len(bl.Docs))
				}
				for i := 0; i < pre; i++ {
					if bl.Docs[i].Path != "/junk" || bl.Docs[i].Start != 77 {
						c.Fail("lookup of %#x changed what was in the slice: %s", b, recs(bl.Docs))
					}
				}
				for i := 0; i < n; i++ {
					if !r.isDoc(want[i], &bl.Docs[pre+i]) {
						c.Fail("lookup of %#x, prefill %d, room %d: got %s, want %s (data %q)", b, pre, room, recs(bl.Docs[pre:]), r.want(want[:n]), bl.Docs[pre+i].Dat)
					}
				}
				c.Note("%d/%d/%d", pre, room, n)
			}
		}
	}
	// extraction; room -1: unlimited
	for _, rooms := range [][]int{{2}, {3}, {4}, {5}, {2, 3}, {4, 2}, {2, -1}, {-1, 3}, {-1}, {3, 2, 2}, {0}, {1}, {1, 2}} {
		for _, batch := range []int{1, 2, 3} {
			for reuse := 0; reuse < 2; reuse++ {
				limitedExtract(c, x, r, rooms, batch, reuse == 1)
			}
		}
	}
}

func limitedExtract(c *C, x *dupi.Index, r *Ref, rooms []int, batch int, reuse bool) {
	key := fmt.Sprintf("rooms %v, batch %d", rooms, batch)
	q := x.StartQuery(dupi.QueryMaxBlot)
	small := false
	for _, v := range rooms {
		if v >= 0 && v < 2 {
			small = true
		}
	}
	got := map[uint32]int{} // documents of a blot reported so far
	var dst []dupi.Blot
	var room []int
	k := 0
	for i := 0; ; i++ {
		if !reuse || dst == nil {
			dst = make([]dupi.Blot, batch)
			room = make([]int, batch)
			for j := range dst {
				room[j] = rooms[k%len(rooms)]
				k++
				if room[j] >= 0 {
					dst[j].Docs = junk(room[j])[:0]
				}
			}
		} else {
			for j := range dst {
				if room[j] >= 0 {
					dst[j].Docs = dst[j].Docs[:0]
				} else {
					dst[j].Docs = nil
				}
			}
		}
		c.Call()
		n, e := q.Next(dst)
		for j := 0; j < n; j++ {
			b := &dst[j]
			if room[j] >= 0 && (len(b.Docs) > room[j] || cap(b.Docs) != room[j]) {
				c.Fail("%s: %d documents for blot %#x in room for %d", key, len(b.Docs), b.Blot, room[j])
			}
			want := r.posts[b.Blot]
			at := got[b.Blot]
			if at+len(b.Docs) > len(want) {
				c.Fail("%s: blot %#x: %s after %d of %d documents", key, b.Blot, recs(b.Docs), at, len(want))
			}
			for m := range b.Docs {
				if !r.isDoc(want[at+m], &b.Docs[m]) {
					c.Fail("%s: blot %#x, from document %d: got %s (data %q), want %s", key, b.Blot, at, recs(b.Docs), b.Docs[m].Dat, r.want(want[at:]))
				}
			}
			if at == 0 && !small {
				w := len(want)
				if room[j] >= 0 {
					w = min(w, room[j])
				}
				if len(b.Docs) != w {
					c.Fail("%s: blot %#x first came with %d of its first %d documents", key, b.Blot, len(b.Docs), w)
				}
			}
			got[b.Blot] = at + len(b.Docs)
		}
		if e == io.EOF && n == 0 {
			break
		}
		if e != nil || n == 0 {
			c.Fail("%s: Next returned %d, %v", key, n, e)
		}
		if i > 500 {
			c.Fail("%s: extraction does not end", key)
		}
	}
	if !small {
		for _, b := range r.blots() {
			if len(r.posts[b]) >= 2 && got[b] == 0 {
				c.Fail("%s: blot %#x with %d documents was not reported", key, b, len(r.posts[b]))
			}
		}
	}
	c.Note("%s %d", key, len(got))
}

// ---- statistics

func c14(t *T) {
	nd, nb := 3, 3
	ls := []int{0, 1, 2}
	if t.Thorough {
		ls = []int{0, 1, 2, 3, 4}
	}
	for _, li := range ls {
		l := layouts[li]
		for split := 0; split <= nd; split++ {
			split := split
			t.Space("incidence relations of %d documents and %d blots on %d shards, session boundary after %d: %s", nd, nb, l.shards, split, map[bool]string{true: "all", false: "every sixth"}[t.Thorough || split == 1 && li == 1])
			for bits := 0; bits < 1<<(nd*nb); bits++ {
				if !t.Thorough && (bits+split)%6 != 0 && (split != 1 || li != 1) {
					continue
				}
				bits := bits
				t.Case(fmt.Sprintf("stats %d split %d bits %x", li, split, bits), func(c *C) {
					f := cf(l.shards, 1, 1+bits%3, 1, 1)
					docs := incDocs(l, nd, nb, bits)
					if bits%4 == 1 {
						for i := range docs {
							docs[i].path = []string{"/a", "/a/b", "/b/a/c"}[i]
						}
					} else if bits%4 == 2 {
						for i := range docs {
							docs[i].path = []string{"rel", "rel", "./rel/../x"}[i]
						}
					}
					statsCase(c, f, docs, split)
				})
			}
		}
	}
	sizes := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
	for _, n := range sizes {
		for fl := 1; fl <= 5; fl++ {
			n, fl := n, fl
			t.Space("%d documents, flush rate %d, every session split", n, fl)
			for split := 0; split <= n; split++ {
				if !t.Thorough && split > 2 && split < n-1 {
					continue
				}
				split := split
				t.Case(fmt.Sprintf("count %d flush %d split %d", n, fl, split), func(c *C) {
					var docs []rDoc
					for i := 0; i < n; i++ {
						docs = append(docs, rDoc{fmt.Sprintf("/p/%d", i/2), uint32(i), uint32(i), blotText(1, uint32(i%3), 100)})
					}
					statsCase(c, cf(1, 1, fl, 1, 1), docs, split)
				})
			}
		}
	}
	for _, n := range []int{600, 16384, 16400} {
		n := n
		t.Space("%d documents with up to 3 of 3 blots", n)
		t.Case(fmt.Sprintf("many %d", n), func(c *C) {
			var docs []rDoc
			for i := 0; i < n; i++ {
				docs = append(docs, rDoc{fmt.Sprintf("/p/%d", i%50), uint32(i), uint32(i), blotText(2, uint32(i%3), 100, uint32(i%200))})
			}
			statsCase(c, cf(2, 2, 16384, 1, 1), docs, n-5)
		})
	}
}

func statsCase(c *C, f Cf, docs []rDoc, split int) {
	r := newRef(f)
	x := c.create(f, "idx")
	for i, d := range docs {
		if i == split && split > 0 {
			c.closeIndexer(x)
			y := c.open("idx")
			c.checkStats(y, r, y.Root())
			c.closeIndex(y)
			x = c.reopen("idx")
		}
		c.add(x, r, d)
	}
	c.closeIndexer(x)
	y := c.open("idx")
	c.checkStats(y, r, y.Root())
	c.checkStats(y, r, y.Root())
	c.closeIndex(y)
}
