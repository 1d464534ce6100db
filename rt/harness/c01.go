//go:build go1.21

package main

import (
	"fmt"
	"strings"

	"github.com/go-air/dupi"
)

func init() {
	checks["C01"] = withMany(both(c01, smallC01), func(c *C, x *dupi.Index, r *Ref) { c.checkLookups(x, r) })
	checks["C02"] = both(c02, smallC02)
}

// word sequences as texts, with separators that vary by position
func text(words []string, s []int) string {
	seps := []string{" ", ", ", "\n", " - "}
	var b strings.Builder
	for i, k := range s {
		if i > 0 {
			b.WriteString(seps[(i+len(s))%len(seps)])
		}
		b.WriteString(words[k])
	}
	return b.String()
}

func c01(t *T) {
	vocab := []string{"ab", "CD", "é9"}
	special := []string{"", " ", "ab\xff CD ab CD", "-,-", "ab", "a1 b2 a1 b2 a1 b2 a1 b2 a1 b2 a1 b2", "ab CD\x00ab CD ab", "AB ab Ab aB cd CD"}
	cfs := []Cf{cf(1, 1, 4, 1, 1), cf(2, 2, 2, 2, 1), cf(3, 2, 1, 1, 2), cf(2, 1, 3, 2, 2), cf(1, 3, 16384, 3, 1)}
	lens, pairs := 2, 2
	if t.Thorough {
		cfs = append(cfs, cf(4, 2, 5, 2, 3), cf(5, 1, 2, 3, 2), cf(3, 3, 1, 1, 1), cf(2, 2, 16384, 10, 1))
		lens, pairs = 3, 3
	}
	// one index holding every text up to window+lens words over the vocabulary
	// (all of them as documents of one index)
	for _, f := range cfs {
		f := f
		t.Space("all texts of up to %d words over %q and %d special texts, one document each, in one index; %s", min(f.seq()+lens, 7), vocab, len(special), f)
		for rev := 0; rev < 2; rev++ {
			rev := rev
			t.Case(fmt.Sprintf("all texts rev=%d %s", rev, f), func(c *C) {
				var docs []rDoc
				for _, s := range special {
					docs = append(docs, doc(len(docs), s))
				}
				upto(3, min(f.seq()+lens, 7), func(s []int) {
					if len(docs) > 1200 {
						return
					}
					docs = append(docs, doc(len(docs), text(vocab, s)))
				})
				if rev == 1 {
					for i, j := 0, len(docs)-1; i < j; i, j = i+1, j-1 {
						docs[i], docs[j] = docs[j], docs[i]
					}
				}
				c01case(c, f, docs)
			})
		}
	}
	// every sequence of a few documents over small texts: what a document
	// leaves behind must not reach the next
	texts := []string{"", "ab", "ab CD ab", "CD ab CD ab ab", "x\xff ab CD ab CD", "ab ab ab ab ab ab"}
	for _, f := range cfs[:3] {
		f := f
		t.Space("all sequences of up to %d documents over %q; %s", pairs, texts, f)
		upto(len(texts), pairs, func(s []int) {
			var docs []rDoc
			for i, k := range s {
				docs = append(docs, doc(i, texts[k]))
			}
			t.Case(fmt.Sprintf("texts %v %s", s, f), func(c *C) { c01case(c, f, docs) })
		})
	}
	// long lists: blot m is in every m-th document; chunks of 512 bytes with
	// deltas of one and two bytes, document flushes
	sizes := []int{510, 511, 512, 513, 514, 1023, 1024, 1025, 1537, 16383, 16384, 16385, 20000}
	if t.Thorough {
		for n := 500; n < 530; n++ {
			sizes = append(sizes, n)
		}
		for n := 1016; n < 1060; n++ {
			sizes = append(sizes, n)
		}
		for n := 16370; n < 16390; n++ {
			sizes = append(sizes, n)
		}
		sizes = append(sizes, 32767, 32768, 32769, 40000, 70000)
	}
	for _, n := range sizes {
		for _, f := range []Cf{cf(1, 2, 16384, 1, 1), cf(3, 1, 512, 1, 1)} {
			n, f := n, f
			t.Space("%d documents, blot m in every m-th of them for 12 periods m; %s", n, f)
			t.Case(fmt.Sprintf("long %d %s", n, f), func(c *C) {
				ms := []int{1, 2, 3, 5, 16, 100, 127, 128, 129, 255, 256, 257}
				var docs []rDoc
				for d := 1; d <= n; d++ {
					var bs []uint32
					for i, m := range ms {
						if d%m == i%m {
							bs = append(bs, uint32(i*7919+i)%(uint32(f.Shards)<<16))
						}
					}
					docs = append(docs, rDoc{"/d/x", uint32(d), uint32(d) + 1, blotText(f.Shards, bs...)})
				}
				c01case(c, f, docs)
			})
		}
	}
	// many blots of one document
	for _, f := range []Cf{cf(1, 1, 1, 1, 1), cf(2, 1, 1, 2, 1), cf(7, 2, 1, 3, 1)} {
		n := 3000
		if t.Thorough {
			n = 100000
		}
		f := f
		t.Space("one document of %d distinct words, and one of every third; %s", n, f)
		t.Case(fmt.Sprintf("wide %d %s", n, f), func(c *C) {
			var a, b []string
			for i := 0; i < n; i++ {
				a = append(a, nthWord(i))
				if i%3 == 0 {
					b = append(b, nthWord(i))
				}
			}
			c01case(c, f, []rDoc{doc(0, strings.Join(a, " ")), doc(1, strings.Join(b, "\t")), doc(2, strings.Join(a, "..."))})
		})
	}
	// long documents, with blots of their own at the end
	ls := []int{255, 256, 257, 4095, 4096, 4097, 32767, 32768, 32769, 65533, 65534, 65535, 65536, 65537}
	if t.Thorough {
		ls = append(ls, 131070, 131071, 131072, 131073, 262144, 1<<20-1, 1<<20, 1<<20+1)
	}
	t.Space("documents of n words of 3 and then others, n around powers of two up to %d", ls[len(ls)-1])
	for i, n := range ls {
		n, f := n, []Cf{cf(1, 1, 1, 1, 1), cf(2, 2, 1, 1, 2), cf(3, 1, 1, 2, 1)}[i%3]
		t.Case(fmt.Sprintf("long %d %s", n, f), func(c *C) {
			var b strings.Builder
			for i := 0; i < n; i++ {
				b.WriteString(vocab[(i*i+i/5)%3])
				b.WriteString([]string{" ", ", ", "\n"}[i%3])
			}
			for i := 0; i < 9; i++ {
				fmt.Fprintf(&b, "%s ", nthWord(i+n%7))
			}
			c01case(c, f, []rDoc{doc(0, b.String()), doc(1, "ab CD é9 ab "+nthWord(8)), doc(2, "x y "+b.String())})
		})
	}
	// every number of shards and workers
	max := 8
	if t.Thorough {
		max = 24
	}
	t.Space("1..%d shards, 1..4 workers, 6 documents", max)
	for n := 1; n <= max; n++ {
		for w := 1; w <= 4; w++ {
			if !t.Thorough && n > 4 && w != 1+n%4 {
				continue
			}
			f := cf(n, w, 3, 1, 1)
			t.Case("layout "+f.String(), func(c *C) {
				var docs []rDoc
				for i := 0; i < 6; i++ {
					var bs []uint32
					for b := 0; b <= 2*n; b++ {
						if (b+i)%3 != 0 {
							bs = append(bs, uint32(b*(65536/2)-b*b)%(uint32(n)<<16))
						}
					}
					docs = append(docs, doc(i, blotText(n, bs...)))
				}
				c01case(c, f, docs)
			})
		}
	}
}

func c01case(c *C, f Cf, docs []rDoc) {
	x, r := c.build(f, "idx", docs)
	c.checkLookups(x, r)
	c.closeIndex(x)
}

// ---- sessions

func c02(t *T) {
	pool := [][]uint32{{1, 70000}, {1, 2}, {70000}, {}, {1, 65535, 2}}
	depth := 6
	cfs := []Cf{cf(1, 1, 1, 1, 1), cf(2, 2, 2, 1, 1), cf(2, 1, 3, 1, 1)}
	if t.Thorough {
		depth = 8
		cfs = append(cfs, cf(1, 2, 4, 1, 1), cf(3, 1, 2, 1, 1))
	}
	for _, f := range cfs {
		t.Space("all sequences of up to %d adds and reopenings (first add fixed); %s", depth, f)
	}
	for n := 0; n <= depth; n++ {
		combos(2, n, func(s []int) {
			if n > 0 && s[0] == 1 && n == 1 {
				// only a reopening: kept
			}
			ops := append([]int(nil), s...)
			for ci, f := range cfs {
				if n == depth && ci > 0 && !t.Thorough {
					break
				}
				f := f
				t.Case(fmt.Sprintf("ops %v %s", ops, f), func(c *C) {
					sessions(c, f, ops, func(i int) []rDoc {
						return []rDoc{doc(i, blotText(f.Shards, mod(pool[i%len(pool)], f)...))}
					})
				})
			}
		})
	}
	// chunk boundaries: 0: one document, 1: reopen, 2: 511 documents, 3: 512
	dd := 4
	if t.Thorough {
		dd = 5
	}
	t.Space("all sequences of up to %d of: add 1, 511 or 512 documents, reopen; posting chunks hold 512", dd)
	f := cf(1, 2, 300, 1, 1)
	upto(4, dd, func(s []int) {
		ops := append([]int(nil), s...)
		t.Case(fmt.Sprintf("chunks %v", ops), func(c *C) {
			sessions(c, f, ops, func(i int) []rDoc {
				var ds []rDoc
				n := 1
				k := ops[i%len(ops)]
				if k >= 2 {
					n = 509 + k
				}
				for j := 0; j < n; j++ {
					ds = append(ds, rDoc{fmt.Sprintf("/s%d", i), uint32(j), uint32(j + 1), blotText(1, 5, uint32(j%2))})
				}
				return ds
			})
		})
	})
	// document record flushes (rate 16384) and sessions
	for _, n := range []int{16383, 16384, 16385} {
		n := n
		t.Space("%d documents, reopen, 3 documents, reopen, 1 document (flush rate 16384)", n)
		t.Case(fmt.Sprintf("flush %d", n), func(c *C) {
			f := cf(1, 1, 16384, 1, 1)
			sessions(c, f, []int{2, 1, 3, 1, 0}, func(i int) []rDoc {
				k := []int{n - 1, 0, 3, 0, 1}[i]
				var ds []rDoc
				for j := 0; j < k; j++ {
					ds = append(ds, rDoc{fmt.Sprintf("/s%d", i), uint32(j), uint32(j + 1), blotText(1, uint32(j%3))})
				}
				return ds
			})
		})
	}
}

func mod(bs []uint32, f Cf) []uint32 {
	r := append([]uint32(nil), bs...)
	for i := range r {
		r[i] %= uint32(f.Shards) << 16
	}
	return r
}

// sessions performs ops: 1 reopens, anything else adds docs(i); then compares.
func sessions(c *C, f Cf, ops []int, docs func(i int) []rDoc) {
	r := newRef(f)
	x := c.create(f, "idx")
	for i, o := range ops {
		if o == 1 {
			c.closeIndexer(x)
			x = c.reopen("idx")
			continue
		}
		for _, d := range docs(i) {
			c.add(x, r, d)
		}
	}
	c.closeIndexer(x)
	y := c.open("idx")
	c.checkAll(y, r, y.Root())
	c.closeIndex(y)
}
