//go:build go1.21

package main

import (
	"fmt"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/zz_verif/env"
)

// Files beyond the limits of 32 bit numbers are made by extending small ones
// with zeros, which nothing refers to.

// c11far appends to indexes with very many documents.
func c11far(t *T) {
	ns := []int64{1<<32/12 - 1, 1<<32/12 + 1, 1<<31 - 2, 1<<32 - 9}
	t.Space("appending to indexes with record files extended to %d records, flush rates 1..3, one or two sessions", ns)
	for _, n := range ns {
		for fl := 1; fl <= 3; fl++ {
			for ss := 1; ss <= 2; ss++ {
				n, fl, ss := n, fl, ss
				t.Case(fmt.Sprintf("records %d flush %d sessions %d", n, fl, ss), func(c *C) {
					f := cf(2, 2, fl, 1, 1)
					r := newRef(f)
					text := func(i int) string { return blotText(2, jb(2, 0, 5), jb(2, i%2, 100+i)) }
					x := c.create(f, "idx")
					c.add(x, r, rDoc{"/a/b", 3, 9, text(0)})
					c.add(x, r, rDoc{"/a/c", 5, 1<<32 - 1, text(1)})
					c.closeIndexer(x)
					if env.Truncate(env.P("idx/dmd"), n*12) != nil {
						c.Note("%s", c.key) // files of this size are impossible here
						return
					}
					for s := 0; s < ss; s++ {
						x = c.reopen("idx")
						for i := 0; i < 3; i++ {
							k := 2 + s*3 + i
							if n+int64(k) >= 1<<32 {
								break
							}
							c.add(x, r, rDoc{fmt.Sprintf("/a/d%d", k), uint32(k), uint32(k + 10), text(k)})
						}
						c.closeIndexer(x)
					}
					y := c.open("idx")
					for _, b := range r.blots() {
						c.checkGet(y, r, b)
					}
					c.checkExtract(r, c.extract(y, 3))
					st, e := y.Stats()
					if e != nil || st.NumDocs != uint64(n)-1+uint64(len(r.docs)-2) {
						c.Fail("%d records extended to %d and %d appended: %+v, %v", 2, n, len(r.docs)-2, st, e)
					}
					c.closeIndex(y)
					c.Note("%s", c.key)
				})
			}
		}
	}
}

// c19far appends to shards with very large posting files.
func c19far(t *T) {
	sizes := []int64{1<<31 - 7, 1<<32 - 7, 1<<32 + 1, 1<<33 + 5}
	t.Space("appending to shards with posting files extended to %d bytes, in 1..3 sessions, lists of 0..%d ids that begin before or after", sizes, 699)
	for _, size := range sizes {
		for ss := 1; ss <= 3; ss++ {
			size, ss := size, ss
			t.Case(fmt.Sprintf("posting file of %d bytes, %d sessions", size, ss), func(c *C) {
				p := env.P("b.pos")
				const n = 700
				l := gaps(1, 1, 130)
				for s := 0; s <= ss; s++ {
					x := c.shardOpen(p, s == 0)
					for b := 0; b < n; b += 7 {
						from, to := b*s/(ss+1), b*(s+1)/(ss+1)
						if b%2 == 1 { // a list that begins far in the file
							from, to = max(0, b*(s-1)/ss), b*s/ss
						}
						for i := from; i < to; i++ {
							x.put(c, l.id(i), uint32(b*53), 4096)
						}
					}
					x.close(c)
					if s == 0 && env.Truncate(p, size) != nil {
						c.Note("%s", c.key)
						return
					}
				}
				c.shardCheck(p, func(b int) (int, func(int) uint32) {
					if b%53 != 0 || b/53%7 != 0 || b/53 >= n {
						return 0, nil
					}
					return b / 53, l.id
				})
			})
		}
	}
}

// c25far loads ranges of a file beyond the limits of 32 bit numbers.
func c25far(t *T) {
	bases := []int64{1<<31 - 20, 1<<32 - 20, 1<<32 - 300}
	t.Space("files extended to %d bytes, with 300 bytes after that, and all ranges of up to 2000 bytes over positions around their start and 2^31 and 2^32", bases)
	for _, base := range bases {
		base := base
		t.Case(fmt.Sprintf("far %d", base), func(c *C) {
			p := env.P("f")
			must(env.WriteFile(p, []byte("start")))
			if env.Truncate(p, base) != nil {
				c.Note("%s", c.key)
				return
			}
			tail := make([]byte, 300)
			for i := range tail {
				tail[i] = byte(i*7 + 1)
			}
			must(env.Append(p, tail))
			at := func(i int64) byte {
				switch {
				case i < 5:
					return "start"[i]
				case i < base:
					return 0
				}
				return tail[i-base]
			}
			var ps []int64
			for _, x := range []int64{base, 1 << 31, 1<<32 - 1, base + 300, base + 150} {
				for d := int64(-3); d <= 3; d++ {
					if x+d >= base-3 && x+d < 1<<32 {
						ps = append(ps, x+d)
					}
				}
			}
			for _, s := range ps {
				for _, e := range ps {
					if e <= s || e-s > 2000 {
						continue
					}
					d := &dupi.Doc{Path: p, Start: uint32(s), End: uint32(e)}
					c.Call()
					c.Eval(1)
					err := d.Load()
					if e > base+300 {
						if err == nil {
							c.Fail("loading [%d:%d] of a file of %d bytes succeeded", s, e, base+300)
						}
						continue
					}
					if err != nil || int64(len(d.Dat)) != e-s || d.Start != uint32(s) || d.End != uint32(e) {
						c.Fail("loading [%d:%d] of a file of %d bytes: %v, %d bytes, [%d:%d]", s, e, base+300, err, len(d.Dat), d.Start, d.End)
					}
					for i, b := range d.Dat {
						if b != at(s+int64(i)) {
							c.Fail("loading [%d:%d] of a file of %d bytes: byte %d is wrong", s, e, base+300, i)
						}
					}
				}
			}
			c.Note("%s", c.key)
		})
	}
	// the whole of a file: its end is no 32 bit number
	for _, n := range []int64{1 << 32, 1<<32 + 5} {
		n := n
		t.Case(fmt.Sprintf("whole file of %d bytes", n), func(c *C) {
			p := env.P("f")
			must(env.WriteFile(p, []byte("start")))
			if env.Truncate(p, n) == nil {
				d := &dupi.Doc{Path: p}
				c.Call()
				if e := d.Load(); e == nil {
					c.Fail("loading the whole of a file of %d bytes succeeded with end %d", n, d.End)
				}
			}
			c.Note("%s", c.key)
		})
	}
}
