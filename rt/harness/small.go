//go:build go1.21

package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/zz_verif/env"
)

// Some checks explore two sets of spaces: those that need the real size of the
// shard tables, and larger ones of small contents, for which a build with
// tables of 256 entries is many times faster. All blots of the latter are
// below 256 in their shards, so that the same cases mean the same on the
// unscaled builds: what is found is confirmed there, and a part is replayed.

// big reports whether the spaces for the real tables are to be explored.
func (t *T) big() bool { return env.Scale == 0 }

// small reports whether the spaces for small tables are to be explored.
func (t *T) small() bool {
	return env.Scale > 0 || t.replay != "" || t.expect != nil || !env.Inst || os.Getenv("VERIF_FALLBACK") != ""
}

// both makes a check of the two sets of spaces.
func both(big, small func(t *T)) func(t *T) {
	return func(t *T) {
		if t.big() {
			big(t)
		}
		if t.small() {
			small(t)
		}
	}
}

// layouts of blots that are in small tables
var smallLayouts = []layout{
	{1, []uint32{0, 1, 250, 7, 9, 100}},
	{2, []uint32{jb(2, 0, 5), jb(2, 1, 5), jb(2, 1, 250), jb(2, 0, 0), jb(2, 1, 0), jb(2, 0, 6)}},
	{3, []uint32{jb(3, 0, 7), jb(3, 2, 7), jb(3, 1, 250), jb(3, 2, 8), jb(3, 1, 0), jb(3, 0, 8)}},
	{5, []uint32{jb(5, 4, 0), jb(5, 1, 250), jb(5, 0, 0), jb(5, 2, 9), jb(5, 3, 9), jb(5, 4, 1)}},
	{2, []uint32{jb(2, 1, 0), jb(2, 1, 1), jb(2, 1, 2), jb(2, 1, 3), jb(2, 1, 4), jb(2, 1, 5)}},
	{6, []uint32{jb(6, 5, 3), jb(6, 4, 3), jb(6, 3, 3), jb(6, 2, 3), jb(6, 1, 3), jb(6, 0, 3)}},
}

func lowText(s []int) string {
	seps := []string{" ", ", ", "\n", " - "}
	var b strings.Builder
	for i, k := range s {
		if i > 0 {
			b.WriteString(seps[(i+len(s))%len(seps)])
		}
		w := low(k)
		if (i+k)%3 == 2 {
			w = strings.ToUpper(w)
		}
		b.WriteString(w)
	}
	return b.String()
}

// repeats is a history around the boundaries of posting chunks: n documents
// that all have a blot, rep times each if the pattern says so, with reopenings.
func repeats(n, rep, pat int) (docs []rDoc) {
	a, b := low(0), low(1)
	for i := 1; i <= n; i++ {
		txt := low(2)
		switch pat {
		case 0: // the same blot rep times
			txt += strings.Repeat(" "+a, rep)
		case 1: // with another between
			txt += strings.Repeat(" "+a+" "+b, rep)
		case 2: // repeated by some documents only
			if i%7 == n%7 {
				txt += strings.Repeat(" "+a, rep)
			} else {
				txt += " " + a
			}
		case 3: // wide gaps: two bytes each
			if i%130 == n%130 {
				txt += strings.Repeat(" "+a, rep)
			}
			txt += " " + b
		}
		docs = append(docs, rDoc{"/d/x", uint32(i), uint32(i) + 1, txt})
	}
	return
}

func smallC01(t *T) {
	type sp struct {
		f            Cf
		words, extra int // words and length above the window
		docs         int
	}
	sps := []sp{
		{cf(1, 1, 3, 1, 1), 3, 2, 2}, {cf(2, 2, 2, 2, 1), 2, 2, 2}, {cf(4, 2, 1, 1, 2), 2, 2, 2}, {cf(2, 1, 3, 2, 2), 2, 1, 2},
		{cf(1, 3, 16384, 3, 1), 2, 2, 2}, {cf(8, 2, 5, 1, 1), 2, 1, 3}, {cf(2, 1, 2, 1, 3), 2, 1, 2}, {cf(4, 4, 2, 1, 1), 2, 1, 4},
	}
	if t.Thorough {
		sps = append(sps, sp{cf(1, 2, 2, 1, 1), 3, 2, 3}, sp{cf(2, 3, 1, 2, 1), 2, 2, 3}, sp{cf(4, 1, 4, 3, 2), 2, 1, 2}, sp{cf(16, 2, 3, 4, 1), 2, 2, 2}, sp{cf(2, 2, 3, 1, 1), 2, 1, 5})
	}
	for _, s := range sps {
		var texts []string
		upto(s.words, s.f.seq()+s.extra, func(w []int) { texts = append(texts, lowText(w)) })
		texts = append(texts, lowText([]int{0, 1, 0, 1, 0, 1, 0, 1})+"\xff")
		t.Space("small tables: all sequences of 1..%d documents out of the %d texts of up to %d words (of %d) and one that is not UTF-8; %s", s.docs, len(texts), s.f.seq()+s.extra, s.words, s.f)
		n := 0
		for k := 1; k <= s.docs; k++ {
			combos(len(texts), k, func(q []int) {
				n++
				f := s.f
				q = append([]int(nil), q...)
				t.Case(fmt.Sprintf("small texts %v of %d words %s", q, s.words, f), func(c *C) {
					var docs []rDoc
					for i, j := range q {
						docs = append(docs, doc(i, texts[j]))
					}
					c01case(c, f, docs)
				})
			})
		}
	}
	t.Space("small tables: n documents with a blot 1..3 times each, in 4 patterns, for n around the ends of posting chunks")
	each(t, func(n, rep, pat int) {
		for _, f := range []Cf{cf(1, 1, 100, 1, 1), cf(2, 2, 512, 1, 1)} {
			f := f
			if f.Shards > 1 && !t.Thorough && (n+rep+pat)%5 != 0 {
				continue
			}
			t.Case(fmt.Sprintf("repeats %d of %d, pattern %d, %s", rep, n, pat, f), func(c *C) { c01case(c, f, repeats(n, rep, pat)) })
		}
	})
}

// each calls f with numbers of documents around chunk boundaries.
func each(t *T, f func(n, rep, pat int)) {
	var ns []int
	for n := 505; n <= 520; n++ {
		ns = append(ns, n)
	}
	for n := 1018; n <= 1030; n++ {
		ns = append(ns, n)
	}
	if t.Thorough {
		for n := 1; n < 40; n++ {
			ns = append(ns, n)
		}
		for n := 1531; n <= 1541; n++ {
			ns = append(ns, n)
		}
	}
	for _, n := range ns {
		for rep := 1; rep <= 3; rep++ {
			for pat := 0; pat < 4; pat++ {
				if !t.Thorough && n > 600 && (n+rep+pat)%3 != 0 {
					continue
				}
				f(n, rep, pat)
			}
		}
	}
}

func smallC02(t *T) {
	// 0: a document, 1: reopen, 2: an empty document, 3: another
	depth := 6
	cfs := []Cf{cf(1, 1, 1, 1, 1), cf(2, 2, 2, 2, 1), cf(4, 1, 3, 1, 2), cf(2, 3, 2, 2, 2), cf(1, 2, 4, 3, 1)}
	if t.Thorough {
		depth = 7
		cfs = append(cfs, cf(8, 2, 3, 1, 3), cf(1, 4, 16384, 1, 1))
	}
	for ci, f := range cfs {
		f := f
		var texts []string
		for i := 0; i < 7; i++ {
			var w []int
			for k := 0; k < f.seq()+1+i%3; k++ {
				w = append(w, (k*(i+1)+i)%3)
			}
			texts = append(texts, lowText(w))
		}
		d := depth
		if ci > 0 && !t.Thorough {
			d--
		}
		t.Space("small tables: all sequences of up to %d of: add one of two kinds of documents, add one without blots, reopen; %s", d, f)
		upto(4, d, func(s []int) {
			ops := append([]int(nil), s...)
			t.Case(fmt.Sprintf("small ops %v %s", ops, f), func(c *C) {
				sessions(c, f, ops, func(i int) []rDoc {
					switch ops[i] {
					case 2:
						return []rDoc{doc(i, low(1))}
					case 3:
						return []rDoc{doc(i, texts[5])}
					}
					return []rDoc{doc(i%3, texts[i%7])}
				})
			})
		})
	}
	t.Space("small tables: n documents with a blot 1..3 times each, in 4 patterns, n around the ends of posting chunks, in 2 or 3 sessions with cuts around those ends")
	each(t, func(n, rep, pat int) {
		for _, cut := range []int{1, 2, 3, 4, 5} {
			if !t.Thorough && (n+rep+pat+cut)%3 != 0 {
				continue
			}
			cut := cut
			f := cf(1+pat%2, 1+rep%2, 400, 1, 1)
			t.Case(fmt.Sprintf("small repeats %d of %d, pattern %d, cut %d", rep, n, pat, cut), func(c *C) {
				docs := repeats(n, rep, pat)
				at := map[int]bool{}
				switch cut {
				case 1:
					at[1] = true
				case 2:
					at[n-1] = true
				case 3:
					at[511] = true
				case 4:
					at[512], at[513] = true, true
				case 5:
					at[n/2], at[n-5] = true, true
				}
				r := newRef(f)
				x := c.create(f, "idx")
				for i, d := range docs {
					if at[i] {
						c.closeIndexer(x)
						x = c.reopen("idx")
					}
					c.add(x, r, d)
				}
				c.closeIndexer(x)
				y := c.open("idx")
				c.checkAll(y, r, y.Root())
				c.closeIndex(y)
			})
		}
	})
}

// smallExtraction enumerates contents of small tables.
func smallExtraction(t *T, check func(c *C, x *dupi.Index, r *Ref)) {
	one := func(key string, f Cf, docs []rDoc, split int) {
		t.Case(key, func(c *C) {
			r := newRef(f)
			x := c.create(f, "idx")
			for i, d := range docs {
				if i == split {
					c.closeIndexer(x)
					x = c.reopen("idx")
				}
				c.add(x, r, d)
			}
			c.closeIndexer(x)
			y := c.open("idx")
			check(c, y, r)
			c.Note("%d posts in %d blots", r.nposts(), len(r.posts))
			c.closeIndex(y)
		})
	}
	type space struct{ l, nd, nb int }
	sp := []space{{0, 3, 3}, {1, 3, 3}, {2, 3, 3}, {3, 3, 3}, {5, 2, 4}, {1, 2, 5}}
	if t.Thorough {
		sp = []space{{0, 3, 4}, {1, 3, 4}, {2, 3, 4}, {3, 3, 4}, {4, 3, 4}, {5, 3, 4}, {2, 4, 3}, {1, 4, 3}, {5, 2, 6}, {3, 2, 6}}
	}
	for _, s := range sp {
		l := smallLayouts[s.l]
		t.Space("small tables: all %d incidence relations of %d documents and blots %v on %d shards", 1<<(s.nd*s.nb), s.nd, l.blots[:s.nb], l.shards)
		for bits := 0; bits < 1<<(s.nd*s.nb); bits++ {
			one(fmt.Sprintf("small incidence %d docs=%d blots=%v bits=%x", l.shards, s.nd, l.blots[:s.nb], bits), cf(l.shards, 1+bits%2, 2, 1, 1), incDocs(l, s.nd, s.nb, bits), bits%(s.nd+1))
		}
	}
	for li, l := range smallLayouts {
		nb, max := 4, 5
		if t.Thorough {
			nb = 5
		}
		t.Space("small tables: all document counts 0..%d of %d blots on %d shards", max-1, nb, l.shards)
		combos(max, nb, func(s []int) {
			sum := 0
			for _, v := range s {
				sum += v
			}
			if !t.Thorough && (sum+li)%2 != 0 {
				return
			}
			cs := append([]int(nil), s...)
			one(fmt.Sprintf("small counts %d %v", li, cs), cf(l.shards, 1, 3, 1, 1), countDocs(l, cs), -1)
		})
	}
}

func smallC07(t *T) {
	n := 4
	if t.Thorough {
		n = 5
	}
	for li, l := range smallLayouts {
		t.Space("small tables: all document counts 0..%d of 3 blots on %d shards: lookups for every room 0..8 and prefill 0..3, extraction for rooms 0..4, mixed and unlimited, batches of 1..3", n-1, l.shards)
		combos(n, 3, func(s []int) {
			li, l, cs := li, l, append([]int(nil), s...)
			t.Case(fmt.Sprintf("small limits layout %d counts %v", li, cs), func(c *C) {
				x, r := c.build(cf(l.shards, 1, 2, 1, 1), "idx", countDocs(l, cs))
				limits(c, x, r, l)
				c.closeIndex(x)
			})
		})
	}
}

func smallC11(t *T) {
	ext := []uint32{0, 1, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1}
	paths := []string{"/a", "/a/b", "r", "/a", "/b/a", "r/../q"}
	d := 8
	if t.Thorough {
		d = 11
	}
	t.Space("small tables: all sequences of up to %d adds and reopenings, flush rates 1..5, extents and paths of an alphabet", d)
	for fl := 1; fl <= 5; fl++ {
		fl := fl
		upto(2, d, func(s []int) {
			s = append([]int(nil), s...)
			t.Case(fmt.Sprintf("small index flush=%d %v", fl, s), func(c *C) {
				f := cf(1+len(s)%3, 1+len(s)%2, fl, 1, 1)
				r := newRef(f)
				x := c.create(f, "idx")
				k := 0
				for _, o := range s {
					if o == 1 {
						c.closeIndexer(x)
						x = c.reopen("idx")
						continue
					}
					c.add(x, r, rDoc{paths[k%len(paths)], ext[k*3%len(ext)], ext[(k*7+len(s))%len(ext)], blotText(f.Shards, 9, uint32(20+k))})
					k++
				}
				c.closeIndexer(x)
				y := c.open("idx")
				c.checkAll(y, r, y.Root())
				c.closeIndex(y)
			})
		})
	}
}
