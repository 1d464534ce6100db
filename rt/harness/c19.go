//go:build go1.21

package main

import (
	"fmt"
	"io"

	"github.com/go-air/dupi/internal/shard"
	"github.com/go-air/dupi/post"
	"github.com/go-air/dupi/zz_verif/env"
)

func init() { checks["C19"] = c19 }

// a shard session: open, feed, close
type shardSess struct {
	x  *shard.Indexer
	ch chan []post.T
	b  []post.T
}

func (c *C) shardOpen(path string, create bool) *shardSess {
	s := &shardSess{x: &shard.Indexer{}}
	var e error
	c.Call()
	if create {
		e = s.x.InitCreate(0, path, 100)
	} else {
		e = s.x.InitAppend(0, path, 100)
	}
	if e != nil {
		c.Fail("opening the shard (create %v): %v", create, e)
	}
	s.ch = s.x.PostChan()
	serve(s.x)
	return s
}

func (s *shardSess) put(c *C, id, blot uint32, batch int) {
	s.b = append(s.b, post.Make(id, blot))
	if len(s.b) >= batch {
		s.flush(c)
	}
}

func (s *shardSess) flush(c *C) {
	c.Call()
	feed(s.ch, s.b)
	s.b = nil
}

func (s *shardSess) close(c *C) {
	s.flush(c)
	endFeed(s.ch)
	c.Call()
	if e := s.x.Close(); e != nil {
		c.Fail("closing the shard: %v", e)
	}
}

func (c *C) shardCheck(path string, want func(b int) (n int, id func(i int) uint32)) {
	var x shard.Index
	c.Call()
	if e := x.Init(path); e != nil {
		c.Fail("opening the shard for reading: %v", e)
	}
	total := uint64(0)
	for b := 0; b < 1<<16; b++ {
		n, id := want(b)
		total += uint64(n)
		if got := x.Count(uint32(b)); int(got) != n {
			c.Fail("blot %#x: count %d, want %d", b, got, n)
		}
		rs := x.ReadStateFor(uint16(b))
		for i := 0; ; i++ {
			v, e := rs.Next()
			if e == io.EOF {
				if i != n {
					c.Fail("blot %#x: %d ids, want %d", b, i, n)
				}
				break
			}
			if e != nil {
				c.Fail("blot %#x, id %d of %d: %v", b, i, n, e)
			}
			if i >= n {
				c.Fail("blot %#x: more than %d ids: %d", b, n, v)
			}
			if v != id(i) {
				c.Fail("blot %#x, id %d of %d: %d, want %d", b, i, n, v, id(i))
			}
		}
	}
	if x.NumPosts() != total {
		c.Fail("%d posts in all, want %d", x.NumPosts(), total)
	}
	// by number of ids
	seen := make([]bool, 1<<16)
	prev := uint32(1<<32 - 1)
	for i := 0; i < 1<<16; i++ {
		rs := x.ReadStateAt(uint16(i))
		n, _ := want(int(rs.Blot))
		if seen[rs.Blot] || int(rs.Total) != n || rs.Total > prev || x.BlotAt(uint16(i)) != rs.Blot {
			c.Fail("place %d in the order of counts: blot %#x with %d (has %d) after %d", i, rs.Blot, rs.Total, n, prev)
		}
		seen[rs.Blot] = true
		prev = rs.Total
	}
	c.Eval(int(total) + 1<<16)
	c.Note("%s: %d posts", c.key, total)
	if e := x.Close(); e != nil {
		c.Fail("closing: %v", e)
	}
}

// lists are id sequences: the i-th id of the list of length n.
type lists struct {
	name string
	id   func(i int) uint32
}

func gaps(first uint32, g ...uint32) lists {
	sum := uint32(0)
	for _, v := range g {
		sum += v
	}
	return lists{fmt.Sprintf("first %d gaps %d", first, g), func(i int) uint32 {
		v := first + uint32(i/len(g))*sum
		for j := 0; j < i%len(g); j++ {
			v += g[j]
		}
		return v
	}}
}

func c19(t *T) {
	var ls []lists
	for _, first := range []uint32{1, 128, 1 << 20} {
		for _, g := range [][]uint32{{1}, {127}, {128}, {16383}, {16384}, {1, 128}, {127, 16384, 1}, {1, 1, 1, 1, 1, 1, 1, 20000}, {2097151, 1}} {
			ls = append(ls, gaps(first, g...))
		}
	}
	ls = append(ls, gaps(0, 1), gaps(2, 2097151), gaps(2, 2097152), gaps(1, 1, 1<<21))
	lens := 1150
	cuts := []int{-1, 0, 1, 255, 510, 511, 512, 513, 514, 700}
	if t.Thorough {
		lens = 2700
		cuts = append(cuts, 2, 127, 128, 129, 170, 171, 172, 256, 257, 341, 342, 343, 1022, 1023, 1024, 1025, 1026)
	}
	for li, l := range ls {
		l := l
		t.Space("ids %s: all list lengths 0..%d, one blot each; blot by blot or id by id; sessions cut at each list's id %v, and at two places", l.name, lens, cuts)
		for ci, cut := range cuts {
			for order := 0; order < 2; order++ {
				cut, order := cut, order
				if !t.Thorough && (li+ci+order)%3 != 0 && cut != -1 {
					continue
				}
				t.Case(fmt.Sprintf("%s cut %d order %d", l.name, cut, order), func(c *C) {
					n := lens
					for n > 1 && uint64(l.id(n-1)) < uint64(l.id(n-2)) {
						n--
					}
					// ids must not wrap around
					for i := 1; i < n; i++ {
						if l.id(i) <= l.id(i-1) {
							n = i
							break
						}
					}
					listsCase(c, l, n, cut, order)
				})
			}
		}
	}
	// huge gaps: up to the largest id
	big := []uint32{0, 1, 127, 128, 16383, 16384, 1<<21 - 1, 1 << 21, 1<<28 - 1, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1}
	t.Space("every subset of the ids %v as a list, in one session, in two sessions cut at every id, with every id posted twice", big)
	for _, cut := range big {
		for dup := 0; dup < 2; dup++ {
			cut, dup := cut, dup
			t.Case(fmt.Sprintf("subsets cut %d dup %d", cut, dup), func(c *C) {
				var sub [1 << 14][]uint32
				for m := range sub {
					for i, v := range big {
						if m>>i&1 != 0 {
							sub[m] = append(sub[m], v)
						}
					}
				}
				p := env.P("b.pos")
				for sess := 0; sess < 2; sess++ {
					s := c.shardOpen(p, sess == 0)
					for m := range sub {
						for _, v := range sub[m] {
							if (v < cut) == (sess == 0) {
								for d := 0; d <= dup; d++ {
									s.put(c, v, uint32(m)<<2, 1000)
								}
							}
							// again in the next session
							if dup == 1 && sess == 1 && v < cut {
								last := true
								for _, w := range sub[m] {
									if w > v && w < cut {
										last = false
									}
								}
								if last {
									s.put(c, v, uint32(m)<<2, 1000)
								}
							}
						}
					}
					s.close(c)
				}
				c.shardCheck(p, func(b int) (int, func(int) uint32) {
					if b&3 != 0 {
						return 0, nil
					}
					return len(sub[b>>2]), func(i int) uint32 { return sub[b>>2][i] }
				})
			})
		}
	}
	// all blots at once, several sessions
	t.Space("all 65536 blots with b%%7 ids each, a session per id, and a session without posts")
	t.Case("all blots", func(c *C) {
		p := env.P("b.pos")
		for k := 0; k < 7; k++ {
			s := c.shardOpen(p, k == 0)
			for b := 0; b < 1<<16; b++ {
				if b%7 > k && k != 3 {
					s.put(c, uint32(k*1000+b%13+1), uint32(b), 5000)
				}
			}
			s.close(c)
		}
		c.shardCheck(p, func(b int) (int, func(int) uint32) {
			var ids []uint32
			for k := 0; k < 7; k++ {
				if b%7 > k && k != 3 {
					ids = append(ids, uint32(k*1000+b%13+1))
				}
			}
			return len(ids), func(i int) uint32 { return ids[i] }
		})
	})
	n := 100000
	if t.Thorough {
		n = 3000000
	}
	t.Space("lists of %d ids, in 1, 2, 3, 10 sessions", n)
	for _, ss := range []int{1, 2, 3, 10} {
		ss := ss
		t.Case(fmt.Sprintf("long %d sessions", ss), func(c *C) {
			p := env.P("b.pos")
			g := []uint32{1, 100, 130, 300}
			for k := 0; k < ss; k++ {
				s := c.shardOpen(p, k == 0)
				for i := k * n / ss; i < (k+1)*n/ss; i++ {
					for b, d := range g {
						s.put(c, uint32(i)*d+1, uint32(b*65535/3), 3000)
					}
				}
				s.close(c)
			}
			c.shardCheck(p, func(b int) (int, func(int) uint32) {
				if b%(65535/3) != 0 {
					return 0, nil
				}
				return n, func(i int) uint32 { return uint32(i)*g[b/(65535/3)] + 1 }
			})
		})
	}
	c19far(t)
	// packing
	t.Space("packing of ids and blots: all pairs of %d ids and blots", len(big))
	t.Case("packing", func(c *C) {
		for _, a := range big {
			for _, b := range big {
				p := post.Make(a, b)
				x, y := p.Split()
				if p.Docid() != a || p.Blot() != b || x != a || y != b {
					c.Fail("packing %d and %#x gives %d and %#x (%d, %#x)", a, b, p.Docid(), p.Blot(), x, y)
				}
				c.Eval(1)
			}
		}
	})
}

// listsCase posts lists of all lengths below n; list b has blot (b*53) mod 2^16.
func listsCase(c *C, l lists, n, cut, order int) {
	p := env.P("b.pos")
	sess := func(s *shardSess, from, to int) {
		put := func(b, i int) { s.put(c, l.id(i), uint32(b*53), 4096) }
		if order == 0 {
			for b := 0; b < n; b++ {
				for i := from; i < to && i < b; i++ {
					put(b, i)
				}
			}
		} else {
			for i := from; i < to; i++ {
				for b := i + 1; b < n; b++ {
					put(b, i)
				}
			}
		}
	}
	s := c.shardOpen(p, true)
	if cut >= 0 {
		sess(s, 0, cut)
		s.close(c)
		s = c.shardOpen(p, false)
		if cut%2 == 1 {
			sess(s, cut, cut+37)
			s.close(c)
			s = c.shardOpen(p, false)
			sess(s, cut+37, n)
		} else {
			sess(s, cut, n)
		}
	} else {
		sess(s, 0, n)
	}
	s.close(c)
	c.shardCheck(p, func(b int) (int, func(int) uint32) {
		if b%53 != 0 || b/53 >= n {
			return 0, nil
		}
		return b / 53, l.id
	})
}
