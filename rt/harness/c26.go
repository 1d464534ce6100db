//go:build go1.21

package main

import (
	"bytes"
	"fmt"
	"math/bits"
	"unicode"

	"github.com/go-air/dupi/attic/ibloom"
	"github.com/go-air/dupi/attic/trigram"
	"github.com/go-air/dupi/token"
)

func init() {
	checks["C26"] = c26
	checks["C27"] = c27
}

// posts are the posting filters of package attic, which are not exported.
type posts interface {
	Add(v uint32) error
	Has(v uint32) bool
	IsZero() bool
	Ones(d []int) []int
	Set() []byte
	union(posts) posts
	inter(posts) posts
}

var newPosts func(f ibloom.Filter, ones bool) posts

func ones(b []byte) (l []int) {
	for i, v := range b {
		for j := 0; j < 8; j++ {
			if v>>j&1 != 0 {
				l = append(l, i*8+j)
			}
		}
	}
	return
}

func c26(t *T) {
	sizes := []int{1, 2, 3, 7, 16, 125, 1250, 65536}
	ks := []int{1, 2, 3, 5, 8, 30}
	vals := []uint32{0, 1, 2, 97, 255, 256, 65535, 65536, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1}
	depth := 3
	if t.Thorough {
		depth = 5
	}
	for _, m := range sizes {
		for _, k := range ks {
			m, k := m, k
			t.Space("filter of %d bytes with %d functions: all sequences of up to %d additions from %d numbers", m, k, depth, len(vals))
			t.Case(fmt.Sprintf("filter %d %d", m, k), func(c *C) {
				d := depth
				if m > 1250 {
					d = 1
				}
				upto(len(vals), d, func(s []int) { bloomSeq(c, m, k, vals, s) })
				c.Note("%d %d", m, k)
			})
			t.Case(fmt.Sprintf("filter numbers %d %d", m, k), func(c *C) {
				f := bloom(c, m, k)
				set := f.Set()
				zero := make([]byte, len(set))
				dst := make([]uint32, k)
				one := func(v uint32) {
					if f.Has(set, v) {
						c.Fail("%d bytes, %d functions: an empty filter has %d", m, k, v)
					}
					f.Add(set, v)
					if !f.Has(set, v) {
						c.Fail("%d bytes, %d functions: %d is not there after adding it", m, k, v)
					}
					n := 0
					all := f.Ones(v, func(i int) bool {
						n++
						if i < 0 || i >= m*8 || set[i/8]&(1<<(i%8)) == 0 {
							c.Fail("%d bytes, %d functions: bit %d of %d is not set", m, k, i, v)
						}
						return true
					})
					if n != k || !all {
						c.Fail("%d functions, but %d bits for %d", k, n, v)
					}
					f.PutOnes(dst, v)
					for _, i := range dst {
						if int(i) >= m*8 || set[i/8]&(1<<(i%8)) == 0 {
							c.Fail("%d bytes, %d functions: bit %d listed for %d is not set", m, k, i, v)
						}
					}
					for _, i := range dst {
						set[i/8] = 0
					}
					c.t.R.Evals++
				}
				n := uint32(1 << 14)
				if t.Thorough {
					n = 1 << 20
				}
				for v := uint32(0); v < n; v++ {
					one(v)
					one(v << 12)
					one(^v)
					one(v * 2654435761)
				}
				c.Calls(int(n) * 4)
				if !bytes.Equal(set, zero) {
					c.Fail("%d bytes, %d functions: bits remained that were not listed", m, k)
				}
				// all together
				for v := uint32(0); v < 3000; v++ {
					f.Add(set, v*7)
				}
				for v := uint32(0); v < 3000; v++ {
					if !f.Has(set, v*7) {
						c.Fail("%d bytes, %d functions: %d of 3000 members was forgotten", m, k, v*7)
					}
				}
				// the callback can stop
				n2 := 0
				if f.Ones(5, func(int) bool { n2++; return n2 < k }) || n2 != k {
					c.Fail("Ones went on after it was told to stop")
				}
			})
		}
	}
	t.Space("filters from configurations, for bits 8..64 and functions 1..4; unknown names")
	t.Case("config", func(c *C) {
		for m := 8; m <= 64; m += 8 {
			for k := 1; k <= 4; k++ {
				f, e := ibloom.FromConfig(&ibloom.Config{Name: "fnv32", M: m, K: k})
				c.Call()
				if e != nil || f.M() != m || f.K() != k || len(f.Set())*8 != m || *f.Config() != (ibloom.Config{Name: "fnv32", M: m, K: k}) {
					c.Fail("filter of %d bits, %d functions: %v, %+v", m, k, e, f)
				}
				g := ibloom.NewFnv32(m/8, k)
				a, b := f.Set(), g.Set()
				for v := uint32(0); v < 20; v++ {
					f.Add(a, v*v)
					g.Add(b, v*v)
				}
				if !bytes.Equal(a, b) {
					c.Fail("equal configurations give different filters")
				}
				c.Eval(1)
			}
		}
		for m := 1; m <= 130; m++ { // any number of bits
			for k := 1; k <= 4; k++ {
				f, e := ibloom.FromConfig(&ibloom.Config{Name: "fnv32", M: m, K: k})
				c.Call()
				if e != nil || f.K() != k || f.M() != len(f.Set())*8 {
					c.Fail("filter of %d bits, %d functions: %v, %+v", m, k, e, f)
				}
				d := f.Set()
				for v := uint32(0); v < 20; v++ {
					f.Add(d, v*v*v)
					if !f.Has(d, v*v*v) {
						c.Fail("filter of %d bits, %d functions: %d is not there after adding it", m, k, v*v*v)
					}
				}
				c.Eval(1)
			}
		}
		for _, n := range []string{"", "fnv", "fnv64"} {
			if _, e := ibloom.FromConfig(&ibloom.Config{Name: n, M: 8, K: 1}); e == nil {
				c.Fail("filter %q accepted", n)
			}
		}
		for n := 1; n <= 2000; n++ {
			for _, p := range []float64{0.5, 0.15, 0.01, 0.001} {
				m, _ := ibloom.Estimate(float64(n), p)
				c.Eval(1)
				if m < 1 || m%8 != 0 {
					c.Fail("the estimate for %d members at %v is %d bits", n, p, m)
				}
			}
		}
	})
	// filters too large to have a set of here
	big := []int{1<<28 - 1, 1 << 28, 1<<29 - 1, 1 << 29, 1<<29 + 1, 3 << 28, 1 << 30, 1<<31 - 1}
	t.Space("the bits of numbers in filters of %v bytes: as listed and as given one by one, the same in each filter of that size, inside of it", big)
	t.Case("large", func(c *C) {
		for _, m := range big {
			for k := 1; k <= 5; k++ {
				f := ibloom.NewFnv32(m, k)
				g, e := ibloom.FromConfig(f.Config())
				if e != nil || g.M() != f.M() || f.M() != m*8 {
					c.Fail("%d bytes: configuration %+v", m, f.Config())
				}
				a, b := make([]uint32, k), make([]uint32, k)
				differ := map[uint32]bool{}
				for v := uint32(0); v < 300; v++ {
					v := v * 2654435761
					c.Call()
					f.PutOnes(a, v)
					g.PutOnes(b, v)
					n := 0
					f.Ones(v, func(i int) bool {
						if n >= k || i != int(a[n]) || i >= m*8 || a[n] != b[n] {
							c.Fail("%d bytes, %d functions: bit %d of %d is %d, listed %v, again %v", m, k, n, v, i, a, b)
						}
						differ[a[n]] = true
						n++
						return true
					})
					if n != k {
						c.Fail("%d functions, but %d bits for %d", k, n, v)
					}
				}
				if len(differ) < 250 {
					c.Fail("%d bytes, %d functions: 300 numbers have %d bits", m, k, len(differ))
				}
				c.Eval(1)
			}
		}
	})
	if newPosts == nil {
		t.Count("posting filters not reachable", 1)
		return
	}
	postOps(t)
	pv := []uint32{0, 1, 97, 65536, 1<<32 - 1}
	n := 1 << len(pv)
	t.Space("posting filters: union and intersection of all pairs of subsets of %v, in all orders of adding for subsets of up to 3, sizes 1..16, 1..4 functions", pv)
	for _, m := range []int{1, 2, 5, 16} {
		for k := 1; k <= 4; k++ {
			m, k := m, k
			t.Case(fmt.Sprintf("posting %d %d", m, k), func(c *C) {
				mk := func(s int) posts {
					p := newPosts(bloom(c, m, k), false)
					for i, v := range pv {
						if s>>i&1 != 0 {
							if e := p.Add(v); e != nil {
								c.Fail("adding %d: %v", v, e)
							}
						}
					}
					return p
				}
				for a := 0; a < n; a++ {
					for b := 0; b < n; b++ {
						x := mk(a)
						c.Calls(2)
						y := mk(b)
						yb := append([]byte(nil), y.Set()...)
						u := x.union(y)
						z := mk(a).inter(y)
						if !bytes.Equal(y.Set(), yb) {
							c.Fail("the other operand was changed")
						}
						for i, v := range pv {
							ina, inb := a>>i&1 != 0, b>>i&1 != 0
							if (ina || inb) && !u.Has(v) {
								c.Fail("%d bytes, %d functions: the union of %05b and %05b has lost %d", m, k, a, b, v)
							}
							if ina && inb && !z.Has(v) {
								c.Fail("%d bytes, %d functions: the intersection of %05b and %05b has lost %d", m, k, a, b, v)
							}
						}
						if fmt.Sprint(u.Ones(nil)) != fmt.Sprint(ones(u.Set())) || u.IsZero() != (len(ones(u.Set())) == 0) {
							c.Fail("bits %v are listed as %v, zero: %v", ones(u.Set()), u.Ones(nil), u.IsZero())
						}
						if w := newPosts(bloom(c, m, k), true).inter(mk(a)); !bytes.Equal(w.Set(), mk(a).Set()) {
							c.Fail("intersecting everything with %05b is not %05b", a, a)
						}
						c.Eval(1)
					}
				}
				// sequences with repetitions: members stay
				upto(len(pv), 4, func(s []int) {
					p := newPosts(bloom(c, m, k), false)
					if !p.IsZero() {
						c.Fail("a new posting filter is not empty")
					}
					for j, i := range s {
						before := append([]byte(nil), p.Set()...)
						had := p.Has(pv[i])
						if e := p.Add(pv[i]); e != nil {
							c.Fail("adding %d: %v", pv[i], e)
						}
						for l := range before {
							if p.Set()[l]&before[l] != before[l] || had && p.Set()[l] != before[l] {
								c.Fail("adding %d after %v turned %x into %x", pv[i], s[:j], before, p.Set())
							}
						}
						for _, i2 := range s[:j+1] {
							if !p.Has(pv[i2]) {
								c.Fail("after adding %v, %d is missing", s[:j+1], pv[i2])
							}
						}
					}
					c.Eval(1)
				})
				pre := newPosts(bloom(c, m, k), true).Ones([]int{-7})
				if len(pre) != m*8+1 || pre[0] != -7 {
					c.Fail("listing the bits of a full filter: %v", pre)
				}
				c.Note("%d %d", m, k)
			})
		}
	}
}

// postOps runs all sequences of operations on three posting filters to a
// depth, with the numbers each must have.
func postOps(t *T) {
	depth := 4
	if t.Thorough {
		depth = 5
	}
	vs := []uint32{5, 0}
	const nf = 3
	// operations: add to a filter, union or intersect one with another
	type op struct{ kind, a, b int }
	var ops []op
	for a := 0; a < nf; a++ {
		for v := range vs {
			ops = append(ops, op{0, a, v})
		}
		for b := 0; b < nf; b++ {
			ops = append(ops, op{1, a, b}, op{2, a, b})
		}
	}
	t.Space("posting filters: all sequences of up to %d of %d operations (add %v, union, intersect) on %d filters, of 1 and 9 bytes, with the numbers each must have", depth, len(ops), vs, nf)
	for _, m := range []int{1, 9} {
		for first := range ops {
			m, first := m, first
			t.Case(fmt.Sprintf("posting operations %d %d", m, first), func(c *C) {
				upto(len(ops), depth-1, func(s []int) {
					var fs [nf]posts
					var must [nf]int
					for i := range fs {
						fs[i] = newPosts(bloom(c, m, 3), false)
					}
					for _, i := range append([]int{first}, s...) {
						o := ops[i]
						switch o.kind {
						case 0:
							if e := fs[o.a].Add(vs[o.b]); e != nil {
								c.Fail("adding %d: %v", vs[o.b], e)
							}
							must[o.a] |= 1 << o.b
						case 1:
							fs[o.a] = fs[o.a].union(fs[o.b])
							must[o.a] |= must[o.b]
						case 2:
							fs[o.a] = fs[o.a].inter(fs[o.b])
							must[o.a] &= must[o.b]
						}
						c.t.R.Events++
					}
					for i := range fs {
						for v := range vs {
							if must[i]>>v&1 != 0 && !fs[i].Has(vs[v]) {
								var l []op
								for _, i := range append([]int{first}, s...) {
									l = append(l, ops[i])
								}
								c.Fail("%d bytes: filter %d does not have %d after the operations %v (0: add, 1: union, 2: intersect)", m, i, vs[v], l)
							}
						}
					}
					c.t.R.Evals++
				})
				c.Note("%d", m)
			})
		}
	}
}

func bloom(c *C, m, k int) ibloom.Filter {
	f := ibloom.NewFnv32(m, k)
	if f.M() != m*8 || f.K() != k || len(f.Set()) != m {
		c.Fail("filter of %d bytes, %d functions: %d bits, %d functions, set of %d bytes", m, k, f.M(), f.K(), len(f.Set()))
	}
	return f
}

func bloomSeq(c *C, m, k int, vals []uint32, s []int) {
	f := bloom(c, m, k)
	set := f.Set()
	for _, v := range vals {
		if f.Has(set, v) {
			c.Fail("%d bytes, %d functions: an empty filter has %d", m, k, v)
		}
	}
	for j, i := range s {
		before := append([]byte(nil), set...)
		had := f.Has(set, vals[i])
		f.Add(set, vals[i])
		c.t.R.Events++
		n := 0
		for l := range set {
			if set[l]&before[l] != before[l] {
				c.Fail("%d bytes, %d functions: adding %d cleared bits", m, k, vals[i])
			}
			n += bits.OnesCount8(set[l] ^ before[l])
		}
		if n > k || had && n != 0 {
			c.Fail("%d bytes, %d functions: adding %d set %d bits", m, k, vals[i], n)
		}
		for _, i2 := range s[:j+1] {
			if !f.Has(set, vals[i2]) {
				c.Fail("%d bytes, %d functions: after adding %v, number %d is missing", m, k, s[:j+1], i2)
			}
		}
	}
	c.t.R.Evals++
}

// ---- trigrams

func refLetter(r rune) int {
	switch {
	case r >= '0' && r <= '9':
		return int(r - '0')
	case r >= 'a' && r <= 'z':
		return int(r-'a') + 10
	case r >= 'A' && r <= 'Z':
		return int(r-'A') + 10
	}
	return 36
}

const trigLetters = "0123456789abcdefghijklmnopqrstuvwxyz_"

func c27(t *T) {
	t.Space("every trigram, shifted by every character and printed")
	for a := 0; a < 37; a++ {
		a := a
		t.Case(fmt.Sprintf("shift %d", a), func(c *C) {
			for b := 0; b < 37; b++ {
				for d := 0; d < 37; d++ {
					v := trigram.T(a*37*37 + b*37 + d)
					want := string([]byte{trigLetters[a], trigLetters[b], trigLetters[d]})
					if v.String() != want {
						c.Fail("trigram %d prints as %q, want %q", v, v.String(), want)
					}
					for x := 0; x < 37; x++ {
						g := v.Shift(trigram.C(x))
						if int(g) != b*37*37+d*37+x || int(g) >= trigram.NumTrigrams {
							c.Fail("shifting %q into %q gives %d", trigLetters[x], want, g)
						}
					}
				}
			}
			c.Calls(37 * 37 * 38)
			c.Eval(37 * 37 * 38)
			c.Note("%d", a)
		})
	}
	t.Space("every rune and every negative or too large rune near the limits as a character")
	t.Case("letters", func(c *C) {
		for r := rune(-300); r <= 0x110100; r++ {
			l := trigram.Letter(r)
			if int(l) != refLetter(r) {
				c.Fail("character %q (%#x) has code %d, want %d", r, r, l, refLetter(r))
			}
			if r < 128 && r >= 0 && trigram.Letter(unicode.ToUpper(r)) != trigram.Letter(unicode.ToLower(r)) {
				c.Fail("the case of %q matters", r)
			}
			if int(l) < 37 && trigram.Unletter(byte(l)) != rune(trigLetters[l]) {
				c.Fail("code %d prints as %q", l, trigram.Unletter(byte(l)))
			}
		}
		c.Calls(0x110400)
		c.Eval(0x110400)
		z := trigram.Zero()
		if z.String() != "___" {
			c.Fail("the initial trigram is %q", z.String())
		}
		if trigram.NumTrigrams != 37*37*37 || trigram.NumLetters != 37 {
			c.Fail("%d letters, %d trigrams", trigram.NumLetters, trigram.NumTrigrams)
		}
	})
	words := []string{"a", "B9", "xyZ", "é", "0", "abcdefgh"}
	others := []string{" ", "--", "\u0301"}
	var toks []token.T
	for _, w := range words {
		toks = append(toks, token.T{Tag: token.Word, Lit: []byte(w)})
	}
	for _, w := range others {
		toks = append(toks, token.T{Tag: token.Other, Lit: []byte(w)})
	}
	max := 5
	if t.Thorough {
		max = 7
	}
	t.Space("all sequences of up to %d tokens from words %q and separators %q, and the empty word", max, words, others)
	toks = append(toks, token.T{Tag: token.Word})
	for f := range toks {
		f := f
		t.Case(fmt.Sprintf("tokens %d", f), func(c *C) {
			for n := 0; n < max; n++ {
				combos(len(toks), n, func(s []int) {
					ts := []token.T{toks[f]}
					for _, i := range s {
						ts = append(ts, toks[i])
					}
					trigSeq(c, ts)
				})
			}
			if f == 0 {
				trigSeq(c, nil)
			}
			c.Note("%d", f)
		})
	}
	t.Space("texts tokenized: all strings of up to 6 of {a, B, 7, space, é, -}")
	t.Case("texts", func(c *C) {
		al := []string{"a", "B", "7", " ", "é", "-"}
		upto(len(al), 6, func(s []int) {
			x := ""
			for _, i := range s {
				x += al[i]
			}
			trigSeq(c, token.Tokenize(nil, []byte(x), 0))
		})
	})
}

func trigSeq(c *C, ts []token.T) {
	var want []trigram.T
	last := []int{36, 36, 36}
	put := func(x int) {
		last = append(last, x)
		l := last[len(last)-3:]
		want = append(want, trigram.T(l[0]*37*37+l[1]*37+l[2]))
	}
	for _, t := range ts {
		if t.Tag == token.Other {
			put(36)
			continue
		}
		for _, b := range t.Lit {
			put(refLetter(rune(b)))
		}
	}
	var got []trigram.T
	trigram.VisitTokens(ts, func(x trigram.T) { got = append(got, x) })
	c.t.R.Events += 3
	c.t.R.Evals++
	if !trigEq(got, want) {
		c.Fail("visiting %v gives %v, want %v", ts, got, want)
	}
	w := want
	if len(w) > 2 {
		w = w[2:]
	} else {
		w = nil
	}
	if f := trigram.FromTokens(nil, ts); !trigEq(f, w) {
		c.Fail("the trigrams of %v are %v, want %v", ts, f, w)
	}
	if f := trigram.FromTokens(make([]trigram.T, 0, 3), ts); !trigEq(f, w) {
		c.Fail("the trigrams of %v are %v, want %v", ts, f, w)
	}
	// token by token
	tri := trigram.Zero()
	var each, col []trigram.T
	tri2 := tri
	for _, t := range ts {
		tri = trigram.VisitToken(tri, t, func(x trigram.T) { each = append(each, x) })
		tri2, col = trigram.FromToken(col, tri2, t)
		if n := len(each); n > 0 && tri != each[n-1] || tri2 != tri {
			c.Fail("after %v the trigram is %v and %v", ts, tri, tri2)
		}
	}
	if !trigEq(each, want) || !trigEq(col, want) {
		c.Fail("token by token %v gives %v and %v, want %v", ts, each, col, want)
	}
}

func trigEq(a, b []trigram.T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
