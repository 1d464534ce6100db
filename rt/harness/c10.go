//go:build go1.21

package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/blotter"
	"github.com/go-air/dupi/dmd"
	"github.com/go-air/dupi/internal/shard"
	"github.com/go-air/dupi/zz_verif/env"
)

func init() {
	checks["C10"] = c10
	checks["C11"] = both(c11, smallC11)
	checks["C12"] = c12
	checks["C13"] = c13
	checks["C15"] = c15
}

func u32s(a []uint32) string { return fmt.Sprintf("%x", a) }

// ---- blots of queries

func c10(t *T) {
	vocab := []string{"ab", "CD", "é9"}
	special := []string{"", " ", "ab\xff CD ab CD", "-,-", "a1 b2 a1 b2 a1 b2 a1 b2 a1 b2 a1 b2", "ab CD\x00ab CD ab", "AB ab Ab aB cd CD", "ab ab ab ab ab ab ab"}
	cfs := []Cf{cf(1, 1, 4, 1, 1), cf(2, 2, 2, 2, 1), cf(3, 2, 1, 1, 2), cf(2, 1, 3, 2, 2), cf(5, 1, 3, 3, 1)}
	lens := 2
	if t.Thorough {
		cfs = append(cfs, cf(4, 2, 5, 2, 3), cf(1, 3, 2, 3, 2), cf(7, 1, 1, 1, 1), cf(2, 2, 16384, 10, 1), cf(6, 1, 9, 4, 1))
		lens = 3
	}
	for _, f := range cfs {
		f := f
		t.Space("all texts of up to %d words over %q and %d special texts, one document each, in one index, each blotted for a query; %s", min(f.seq()+lens, 7), vocab, len(special), f)
		t.Case("texts "+f.String(), func(c *C) {
			var docs []rDoc
			for _, s := range special {
				docs = append(docs, doc(len(docs), s))
			}
			upto(3, min(f.seq()+lens, 7), func(s []int) {
				if len(docs) < 1500 {
					docs = append(docs, doc(len(docs), text(vocab, s)))
				}
			})
			x, r := c.build(f, "idx", docs)
			nb := uint32(f.Shards) << 16
			for i, d := range docs {
				var want []uint32
				for _, w := range f.windows(d.text) {
					want = append(want, w.full)
				}
				pre := []uint32{7, 8}
				if i%2 == 0 {
					pre = append(make([]uint32, 0, 99), pre...)
				}
				c.Call()
				got := x.BlotDoc(pre, toDoc(d))
				if len(got) < 2 || got[0] != 7 || got[1] != 8 || u32s(got[2:]) != u32s(want) {
					c.Fail("blots of %s: %x, want %x after the two that were there", d, got, want)
				}
				c.Eval(1)
				own := map[uint32]bool{}
				for _, b := range got[2:] {
					own[b%nb] = true
				}
				// found under its own blots and no other
				found := map[uint32]bool{}
				for _, b := range r.blots() {
					for _, k := range r.posts[b] {
						if k == i {
							found[b] = true
						}
					}
				}
				if len(own) != len(found) {
					c.Fail("%s has %d blots, it should have %d", d, len(own), len(found))
				}
				for b := range own {
					sh, sb := x.SplitBlot(b)
					if x.JoinBlot(sh, sb) != b || sh != b%uint32(f.Shards) {
						c.Fail("blot %#x splits into %d, %#x", b, sh, sb)
					}
				}
			}
			c.checkLookups(x, r)
			c.closeIndex(x)
		})
	}
	// split and join
	max := 6
	if t.Thorough {
		max = 16
	}
	t.Space("for 1..%d shards: every blot split and joined, every pair joined and split, blots beyond the number of blots; and where blots around all boundaries are stored", max)
	for n := 1; n <= max; n++ {
		n := n
		t.Case(fmt.Sprintf("split and join %d", n), func(c *C) {
			f := cf(n, 1, 9, 1, 1)
			var bs []uint32
			for s := 0; s < n; s++ {
				for _, v := range []int{0, 1, 255, 256, 32767, 32768, 65534, 65535} {
					bs = append(bs, jb(n, s, v))
				}
			}
			var docs []rDoc
			for i := range bs {
				docs = append(docs, doc(i, blotText(n, bs[i])))
			}
			x, _ := c.build(f, "idx", docs)
			nb := uint32(n) << 16
			seen := make([]bool, nb)
			for s := uint32(0); s < uint32(n); s++ {
				for v := 0; v < 1<<16; v++ {
					b := x.JoinBlot(s, uint16(v))
					if b >= nb || seen[b] {
						c.Fail("%d shards: joining %d, %#x gives %#x again or too large", n, s, v, b)
					}
					seen[b] = true
					s2, v2 := x.SplitBlot(b)
					if s2 != s || int(v2) != v {
						c.Fail("%d shards: joining %d, %#x gives %#x, which splits into %d, %#x", n, s, v, b, s2, v2)
					}
				}
			}
			for b := uint32(0); b < nb; b++ {
				s, v := x.SplitBlot(b)
				if int(s) >= n || x.JoinBlot(s, v) != b {
					c.Fail("%d shards: blot %#x splits into %d, %#x, joined %#x", n, b, s, v, x.JoinBlot(s, v))
				}
				if s2, v2 := x.SplitBlot(b + nb); s2 != s || v2 != v {
					c.Fail("%d shards: blot %#x splits differently from %#x", n, b+nb, b)
				}
			}
			c.Calls(int(nb) * 4)
			c.Eval(int(nb) * 2)
			cfg, e := dupi.ReadConfig(filepath.Join(x.Root(), "cfg.json"))
			if e != nil {
				c.Fail("%v", e)
			}
			for s := 0; s < n; s++ {
				var si shard.Index
				if e := si.Init(cfg.PostPath(s)); e != nil {
					c.Fail("shard %d of %d: %v", s, n, e)
				}
				for _, b := range bs {
					sh, v := x.SplitBlot(b)
					want := uint32(0)
					if int(sh) == s {
						want = 1
					}
					// the same value on another shard is a different blot
					for _, b2 := range bs {
						if sh2, v2 := x.SplitBlot(b2); int(sh2) == s && v2 == v {
							want = 1
						}
					}
					if got := si.Count(uint32(v)); got != want {
						c.Fail("%d shards: shard %d holds %d posts of %#x (of blot %#x), want %d", n, s, got, v, b, want)
					}
				}
				si.Close()
			}
			c.Note("%d", n)
			c.closeIndex(x)
		})
	}
}

// ---- locating blots

func c13(t *T) {
	vocab := []string{"ab", "CD", "é9"}
	seps := []string{" ", ", ", "\n\n", "-é̀-"}
	cfs := []Cf{cf(1, 1, 4, 1, 1), cf(2, 1, 2, 2, 1), cf(3, 1, 1, 1, 2), cf(2, 1, 3, 2, 2), cf(5, 1, 1, 3, 1)}
	extra := 3
	if t.Thorough {
		extra = 4
		cfs = append(cfs, cf(1, 1, 1, 1, 3), cf(3, 1, 1, 3, 2), cf(4, 1, 1, 5, 1))
	}
	for _, f := range cfs {
		f := f
		for sep := range seps {
			sep := sep
			n := f.seq() + extra
			t.Space("all texts of up to %d words over %q separated by %q, at several starts, with data or loaded: every blot of the text and others located; expected texts: all true ones, all first ones, wrong ones; %s", min(n, 8), vocab, seps[sep], f)
			t.Case(fmt.Sprintf("locate %q %s", seps[sep], f), func(c *C) {
				x, _ := c.build(f, "idx", nil)
				k := 0
				upto(3, min(n, 8), func(s []int) {
					var ws []string
					for _, i := range s {
						ws = append(ws, vocab[i])
					}
					txt := strings.Join(ws, seps[sep])
					k++
					switch k % 4 {
					case 1:
						txt = " " + txt
					case 2:
						txt += ". "
					}
					start := []uint32{0, 7, 100000}[k%3]
					locate(c, x, f, txt, start, k%16 == 5 && start != 100000)
				})
				c.Note("%d texts", k)
				c.closeIndex(x)
			})
		}
	}
	// words whose blots collide: the same blot from different texts
	t.Space("texts over words with equal blots modulo the number of blots, words of one document in every order up to 6")
	for _, n := range []int{1, 2} {
		n := n
		t.Case(fmt.Sprintf("collisions %d", n), func(c *C) {
			f := cf(n, 1, 1, 1, 1)
			ws := collide(n)
			x, _ := c.build(f, "idx", nil)
			upto(len(ws), 5, func(s []int) {
				var l []string
				for _, i := range s {
					l = append(l, ws[i])
				}
				locate(c, x, f, strings.Join(l, " "), uint32(len(s)*3), false)
			})
			c.closeIndex(x)
		})
	}
}

// collide returns words of which several have the same blot.
func collide(shards int) []string {
	m := map[uint32]string{}
	for i := 0; ; i++ {
		w := nthWord(i)
		b := fnv1(w) % (uint32(shards) << 16)
		if v, ok := m[b]; ok {
			return []string{v, w, "other", strings.ToUpper(w)}
		}
		m[b] = w
	}
}

func locate(c *C, x *dupi.Index, f Cf, txt string, start uint32, load bool) {
	mk := func() *dupi.Doc {
		return &dupi.Doc{Path: "/none", Start: start, End: start + uint32(len(txt)), Dat: []byte(txt)}
	}
	if load {
		p := env.P("file")
		env.WriteFile(p, append(append(bytes.Repeat([]byte("x"), int(start)), txt...), " more text behind it"...))
		mk = func() *dupi.Doc { return &dupi.Doc{Path: p, Start: start, End: start + uint32(len(txt))} }
		if start == 0 && txt == "" {
			return // no extent: the whole file
		}
	}
	win := f.windows(txt)
	first := map[uint32]rWin{}
	texts := map[uint32][]string{}
	for _, w := range win {
		if _, ok := first[w.blot]; !ok {
			first[w.blot] = w
		}
		texts[w.blot] = append(texts[w.blot], txt[w.start:w.end])
	}
	nb := uint32(f.Shards) << 16
	ask := []uint32{0, nb - 1, nb, nb + 5}
	for b := range first {
		ask = append(ask, b, (b+1)%nb)
		if b+nb > b {
			ask = append(ask, b+nb)
		}
	}
	for _, b := range ask {
		s, e, err := x.FindBlot(b, mk())
		c.Call()
		c.Eval(1)
		w, ok := first[b]
		if !ok {
			if err == nil {
				c.Fail("blot %#x found in %q at %d:%d, which has no such blot; %s", b, txt, s, e, f)
			}
			continue
		}
		if err != nil || s != start+uint32(w.start) || e != start+uint32(w.end) {
			c.Fail("blot %#x in %q starting at %d: %d:%d, %v, want %d:%d; %s", b, txt, start, s, e, err, start+uint32(w.start), start+uint32(w.end), f)
		}
	}
	// expected texts
	for variant := 0; variant < 6; variant++ {
		m := map[uint32][]byte{}
		k := 0
		var bs []uint32
		for b := range texts {
			bs = append(bs, b)
		}
		sort.Slice(bs, func(i, j int) bool { return bs[i] < bs[j] })
		for _, b := range bs {
			ts := texts[b]
			k++
			switch variant {
			case 0: // first text
				m[b] = []byte(ts[0])
			case 1: // last text
				m[b] = []byte(ts[len(ts)-1])
			case 2: // wrong by one character
				m[b] = []byte(ts[0] + " ")
			case 3: // text of another blot
				m[b] = []byte(texts[bs[k%len(bs)]][0])
			case 4: // every other one
				if k%2 == 0 {
					m[b] = []byte(ts[0])
				}
				m[(b+1)%nb] = []byte(ts[0])
			case 5:
				if k%2 == 0 {
					m[b] = []byte(strings.ToUpper(ts[0]))
				} else {
					m[b] = []byte{}
				}
			}
		}
		want := map[uint32]string{}
		for b, tx := range m {
			for _, s := range texts[b] {
				if s == string(tx) {
					want[b] = s
				}
			}
		}
		got, err := x.FindBlots(m, mk())
		c.Call()
		c.Eval(1)
		if err != nil {
			c.Fail("FindBlots in %q: %v", txt, err)
		}
		ok := len(got) == len(want)
		for b, s := range want {
			if g, has := got[b]; !has || string(g) != s {
				ok = false
			}
		}
		if !ok {
			c.Fail("FindBlots in %q starting at %d, expecting %q: got %q, want %q; %s", txt, start, m, got, want, f)
		}
	}
}

// ---- document records

func c11(t *T) {
	depth := 7
	if t.Thorough {
		depth = 11
	}
	ext := []uint32{0, 1, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1}
	t.Space("record files directly: all sequences of up to %d adds and reopenings, flush rates 1..6, extents from %v", depth, ext)
	for fl := 1; fl <= 6; fl++ {
		fl := fl
		for n := 0; n <= depth; n++ {
			n := n
			t.Case(fmt.Sprintf("records flush=%d length=%d", fl, n), func(c *C) {
				combos(2, n, func(s []int) { records(c, fl, s, ext, 0) })
			})
		}
	}
	t.Space("record files directly: session sizes from {0,1,2,16382..16386} in 2 sessions, flush rate 16384")
	for _, a := range []int{0, 1, 16382, 16383, 16384, 16385} {
		for _, b := range []int{0, 1, 16383, 16384} {
			a, b := a, b
			t.Case(fmt.Sprintf("records %d %d", a, b), func(c *C) {
				s := make([]int, a, a+b+1)
				s = append(s, 1)
				s = append(s, make([]int, b)...)
				records(c, 16384, s, ext, 1)
			})
		}
	}
	c11far(t)
	moving(t, map[bool]int{false: 4, true: 5}[t.Thorough])
	// through the index
	d2 := 5
	if t.Thorough {
		d2 = 8
	}
	t.Space("through the index: all sequences of up to %d adds and reopenings, flush rates 1..4, extents and paths of an alphabet", d2)
	paths := []string{"/a", "/a/b", "r", "/a", "/b/a", "r/../q"}
	for fl := 1; fl <= 4; fl++ {
		for n := 1; n <= d2; n++ {
			if n == d2 && fl != 2 && !t.Thorough {
				continue
			}
			fl := fl
			combos(2, n, func(s []int) {
				s = append([]int(nil), s...)
				t.Case(fmt.Sprintf("index flush=%d %v", fl, s), func(c *C) {
					f := cf(1, 1+n%2, fl, 1, 1)
					r := newRef(f)
					x := c.create(f, "idx")
					k := 0
					for _, o := range s {
						if o == 1 {
							c.closeIndexer(x)
							x = c.reopen("idx")
							continue
						}
						c.add(x, r, rDoc{paths[k%len(paths)], ext[k*3%len(ext)], ext[(k*7+n)%len(ext)], blotText(1, 9, uint32(100+k))})
						k++
					}
					c.closeIndexer(x)
					y := c.open("idx")
					c.checkLookups(y, r)
					c.checkExtract(r, c.extract(y, 2))
					c.closeIndex(y)
				})
			})
		}
	}
	t.Space("through the index: 5, 1000, 16384, 16390 documents in three sessions, flush rates 1, 7, 100, 16384")
	for _, n := range []int{5, 1000, 16384, 16390} {
		for _, fl := range []int{1, 7, 100, 16384} {
			n, fl := n, fl
			if fl == 1 && n > 1000 {
				continue
			}
			t.Case(fmt.Sprintf("many %d flush %d", n, fl), func(c *C) {
				f := cf(2, 2, fl, 1, 1)
				r := newRef(f)
				x := c.create(f, "idx")
				for i := 0; i < n; i++ {
					if i == n/2 || i == n-3 {
						c.closeIndexer(x)
						x = c.reopen("idx")
					}
					c.add(x, r, rDoc{fmt.Sprintf("/p%d/%d", i%7, i%300), uint32(i) * 13, uint32(i)*13 + ext[i%10], blotText(2, 3, uint32(i%1000))})
				}
				c.closeIndexer(x)
				y := c.open("idx")
				c.checkLookups(y, r)
				c.closeIndex(y)
			})
		}
	}
}

func records(c *C, fl int, s []int, ext []uint32, mode int) {
	dir := env.P(fmt.Sprintf("r%d", c.n))
	c.n++
	env.Mkdir(dir)
	defer env.RemoveAll(dir)
	a, e := dmd.NewAdder(dir, fl)
	if e != nil {
		c.Fail("NewAdder: %v", e)
	}
	type rec struct{ f, s, e uint32 }
	var want []rec
	for _, o := range s {
		c.t.R.Events++
		if o == 1 {
			if e := a.Close(); e != nil {
				c.Fail("ops %v flush %d: close: %v", s, fl, e)
			}
			if a, e = dmd.NewAdder(dir, fl); e != nil {
				c.Fail("ops %v flush %d: reopening: %v", s, fl, e)
			}
			continue
		}
		k := len(want)
		r := rec{uint32(k*k + 1), ext[k%len(ext)], ext[(k*3+1)%len(ext)]}
		id, e := a.Add(r.f, r.s, r.e)
		want = append(want, r)
		if e != nil || int(id) != len(want) || int(a.Last()) != len(want) {
			c.Fail("ops %.100v flush %d: add %d got id %d, last %d, %v", s, fl, len(want), id, a.Last(), e)
		}
	}
	if e := a.Close(); e != nil {
		c.Fail("ops %.100v flush %d: close: %v", s, fl, e)
	}
	d, e := dmd.New(dir)
	if e != nil {
		c.Fail("ops %.100v flush %d: opening records: %v", s, fl, e)
	}
	for i, r := range want {
		f, b, e2, err := d.Lookup(uint32(i + 1))
		if err != nil || (rec{f, b, e2}) != r {
			c.Fail("ops %.100v flush %d: record %d is %d %d %d, %v, want %v", s, fl, i+1, f, b, e2, err, r)
		}
	}
	if n, e := d.NumDocs(); e != nil || n != uint64(len(want)) {
		c.Fail("ops %.100v flush %d: %d records counted, want %d", s, fl, n, len(want))
	}
	if e := d.Close(); e != nil {
		c.Fail("closing records: %v", e)
	}
	c.Eval(len(want) + 1)
	c.Note("%d", len(want))
}

// ---- paths

// moving adds documents under relative paths while the working directory changes, also
// between two documents of one session
func moving(t *T, d int) {
	dirs := []string{"", "u", "u/v"}
	paths := []string{"f", "../f", "v/f"}
	t.Space("all sequences of up to %d steps over adding each of %q, changing the working directory to each of %q and reopening; every document under the path it had when it was added", d, paths, dirs)
	k := len(paths)
	upto(k+len(dirs)+1, d, func(s []int) {
		if len(s) == 0 || s[len(s)-1] >= k {
			return
		}
		s = append([]int(nil), s...)
		t.Case(fmt.Sprintf("moving %v", s), func(c *C) {
			f := cf(1, 1, 2, 1, 1)
			r := newRef(f)
			env.Mkdir(env.P("u"))
			env.Mkdir(env.P("u/v"))
			defer env.Chdir(env.P(""))
			wd := env.W()
			x := c.create(f, env.P("idx"))
			for i, o := range s {
				switch {
				case o < k:
					c.Call()
					d := rDoc{paths[o], uint32(i), uint32(i + 1), blotText(1, uint32(30+i), 29)}
					if e := x.Add(toDoc(d)); e != nil {
						c.Fail("adding %s: %v", d, e)
					}
					r.add(d, wd)
				case o < k+len(dirs):
					wd = env.W()
					if q := dirs[o-k]; q != "" {
						wd = env.P(q)
					}
					if e := env.Chdir(env.P(dirs[o-k])); e != nil {
						panic(e)
					}
				default:
					c.closeIndexer(x)
					x = c.reopen(env.P("idx"))
				}
			}
			c.closeIndexer(x)
			y := c.open(env.P("idx"))
			c.checkLookups(y, r)
			c.checkStats(y, r, y.Root())
			c.closeIndex(y)
		})
	})
}

func c12(t *T) {
	pool := []string{"/a", "/ab", "/a/b", "/a/ab", "/b", "/b/a", "a", "a/b", "./a", "../a", "/a/../b", "/é/ü", "/a b/c", "/w/a", "/", "", "/a/", "//a//b", "/.a", "/a/a/a/a"}
	pathsCase := func(key string, f Cf, ps []string, cuts map[int]bool, chdir bool) {
		t.Case(key, func(c *C) {
			r := newRef(f)
			x := c.create(f, "idx")
			env.Mkdir(env.P("sub"))
			wd := env.W()
			for i, p := range ps {
				if cuts[i] {
					c.closeIndexer(x)
					if chdir {
						env.Chdir(env.P("sub"))
						wd = env.P("sub")
					}
					x = c.reopen(env.P("idx"))
				}
				c.Call()
				d := rDoc{p, uint32(i), uint32(i + 1), blotText(f.Shards, uint32(i%60000), 60001)}
				if e := x.Add(toDoc(d)); e != nil {
					c.Fail("adding %.200q: %v", p, e)
				}
				r.add(d, wd)
			}
			c.closeIndexer(x)
			y := c.open(env.P("idx"))
			// path by path
			for i, p := range ps {
				ds := c.get(y, uint32(i%60000))
				if want := r.posts[uint32(i%60000)]; len(ds) == len(want) {
					for j, k := range want {
						if ds[j].Path != r.abs[k] {
							c.Fail("path %.200q (of %.300q) came back as %.200q, want %.200q", p, ps, ds[j].Path, r.abs[k])
						}
					}
				} else {
					c.Fail("lookup of document %d with path %.200q (of %.300q) gave %s", i, p, ps, recs(ds))
				}
				c.Eval(1)
			}
			st, e := y.Stats()
			if e != nil || st.NumPaths != uint64(len(r.nodes)) {
				c.Fail("paths %.300q: %d nodes in the tree, want %d: %v", ps, st.NumPaths, len(r.nodes), e)
			}
			c.Note("%d", len(ps))
			c.closeIndex(y)
		})
	}
	f := cf(1, 1, 3, 1, 1)
	t.Space("all ordered pairs of %d paths %q, written and read back before the second or not; relative paths also from another directory", len(pool), pool)
	for i, a := range pool {
		for j, b := range pool {
			for cut := 0; cut < 3; cut++ {
				if !t.Thorough && (i+j+cut)%3 != 0 && cut == 2 {
					continue
				}
				m := map[int]bool{}
				if cut > 0 {
					m[1] = true
				}
				pathsCase(fmt.Sprintf("pair %q %q cut %d", a, b, cut), f, []string{a, b, a}, m, cut == 2)
			}
		}
	}
	if t.Thorough {
		t.Space("all ordered triples of the first 12 paths, read back before the third")
		combos(12, 3, func(s []int) {
			pathsCase(fmt.Sprintf("triple %v", s), f, []string{pool[s[0]], pool[s[1]], pool[s[2]], pool[s[0]]}, map[int]bool{2: true}, false)
		})
	}
	moving(t, map[bool]int{false: 4, true: 5}[t.Thorough])
	// a whole tree
	comps := []string{"a", "ab", "é", "aa", "b"}
	var tree []string
	for d := 1; d <= 4; d++ {
		combos(len(comps), d, func(s []int) {
			p := ""
			for _, k := range s {
				p += "/" + comps[k]
			}
			tree = append(tree, p)
		})
	}
	t.Space("all %d paths of up to 4 components over %q in 5 orders, read back after 0, 1, 127, 128, half, all but one of them", len(tree), comps)
	for order := 0; order < 5; order++ {
		for _, cut := range []int{0, 1, 127, 128, len(tree) / 2, len(tree) - 1} {
			ps := append([]string(nil), tree...)
			switch order {
			case 1:
				for i, j := 0, len(ps)-1; i < j; i, j = i+1, j-1 {
					ps[i], ps[j] = ps[j], ps[i]
				}
			case 2:
				sort.Strings(ps)
			case 3:
				sort.Slice(ps, func(i, j int) bool { return fnv1(ps[i]) < fnv1(ps[j]) })
			case 4:
				for i := range ps {
					ps[i] = strings.TrimPrefix(ps[i], "/")
				}
			}
			pathsCase(fmt.Sprintf("tree order %d cut %d", order, cut), cf(1, 2, 100, 1, 1), ps, map[int]bool{cut: cut > 0}, order == 4)
		}
	}
	// lengths and numbers around the sizes of varints
	var long []string
	for _, n := range []int{1, 2, 126, 127, 128, 129, 255, 256, 4095, 4096, 4097, 16382, 16383, 16384, 16385, 70000} {
		long = append(long, "/"+strings.Repeat("x", n), "/d/"+strings.Repeat("y", n)+"/z", strings.Repeat("é", (n+1)/2))
	}
	t.Space("%d paths with names of 1 to 70000 bytes, read back at every position", len(long))
	for cut := 0; cut <= len(long)-1; cut++ {
		pathsCase(fmt.Sprintf("long names cut %d", cut), f, long, map[int]bool{cut: cut > 0}, false)
	}
	t.Space("trees of 126..129, 16382..16386 and 20000 entries, and a chain of 300 components, read back after half of them and at the end")
	for _, n := range []int{126, 127, 128, 129, 16382, 16383, 16384, 16385, 20000} {
		var ps []string
		for i := 0; i < n; i++ {
			ps = append(ps, fmt.Sprintf("/%d", i))
		}
		pathsCase(fmt.Sprintf("wide %d", n), cf(1, 2, 16384, 1, 1), ps, map[int]bool{n / 2: true, n - 1: true}, false)
	}
	var ps []string
	p := ""
	for i := 0; i < 300; i++ {
		p += "/" + []string{"a", "b"}[i%2]
		ps = append(ps, p)
	}
	pathsCase("deep", cf(1, 2, 50, 1, 1), ps, map[int]bool{150: true, 299: true}, false)
	odd := []string{"/\xff\xfe", "/a\nb", "/\x01", "/ ", "/a\\b", "/~", "/*", "/" + string(rune(0x10ffff)), "/e\u0301", "/é", "/A", "/a", "/.", "/..a", "/a.", "/...", "-a", "/a:b", "/%2f", "/\t"}
	t.Space("%d odd names %q, all ordered pairs with a read-back between", len(odd), odd)
	for i := range odd {
		var all []string
		for j := range odd {
			all = append(all, odd[i], odd[j], odd[i]+"/"+odd[j], odd[i]+odd[j])
		}
		pathsCase(fmt.Sprintf("odd %d", i), f, all, map[int]bool{len(all) / 2: true}, false)
	}
}

// ---- configurations

const maxInt = math.MaxInt64

func cfgOK(c *dupi.Config) bool {
	return c.NumShards >= 1 && c.NumShards < 65536 && c.NumShatters >= 1 && c.SeqLen >= 1 && c.DocFlushRate >= 1 &&
		c.BlotConfig.Interleave >= 1 && c.BlotConfig.SeqLen >= 1 && c.SeqLen == c.BlotConfig.Interleave*c.BlotConfig.SeqLen &&
		c.TokenConfig.Name == "words.simple"
}

func cfgJSON(c *dupi.Config) []byte {
	return []byte(fmt.Sprintf("{\"IndexRoot\": %q, \"SeqLen\": %d, \"NumShards\": %d, \"NumShatters\": %d, \"DocFlushRate\": %d,\n \"TokenConfig\": {\"Name\": %q}, \"BlotConfig\": {\"SeqLen\": %d, \"Interleave\": %d}}\n",
		c.IndexRoot, c.SeqLen, c.NumShards, c.NumShatters, c.DocFlushRate, c.TokenConfig.Name, c.BlotConfig.SeqLen, c.BlotConfig.Interleave))
}

// many workers are more goroutines than the scheduler watches; they run on the plain
// build only
func c15many(t *T) {
	ns := []int{63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000}
	if t.Thorough {
		ns = append(ns, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 100000)
	}
	t.Space("indexes with %v workers created, closed, read back, reopened, closed and read back, on real goroutines", ns)
	for _, n := range ns {
		for k, fl := range []int{1, 3, 1 << 33} {
			f := cf(1+k, n, fl, 1, 1)
			t.Case("many workers "+f.String(), func(c *C) {
				r := newRef(f)
				x := c.create(f, "idx")
				want := f.config("idx")
				for s := 0; s < 3; s++ {
					for i := 0; i < 4; i++ {
						c.add(x, r, doc(i, blotText(f.Shards, 7, uint32(20+i+s))))
					}
					c.closeIndexer(x)
					cfg, e := dupi.ReadConfigFromRoot("idx")
					if e != nil || *cfg != *want {
						c.Fail("session %d: read back %+v, %v, want %+v", s, cfg, e, *want)
					}
					y := c.open("idx")
					if y.NumShatters() != n || y.NumShards() != f.Shards {
						c.Fail("session %d: the index has %d shards, %d workers", s, y.NumShards(), y.NumShatters())
					}
					c.checkLookups(y, r)
					c.closeIndex(y)
					x = c.reopen("idx")
				}
				c.closeIndexer(x)
			})
		}
	}
}

func c15(t *T) {
	if !env.Inst && (env.Scale > 0 || t.replay != "" || t.expect != nil || os.Getenv("VERIF_FALLBACK") != "") {
		c15many(t)
	}
	if !t.big() {
		return
	}
	seqs := []int{-2, -1, 0, 1, 2, 3, 4, 6}
	pers := []int{-2, -1, 0, 1, 2, 3}
	inters := []int{-2, -1, 0, 1, 2, 3}
	shards := []int{-1, 0, 1, 2, 3, 65535, 65536, 1 << 31, maxInt}
	workers := []int{-1, 0, 1, 3}
	flushes := []int{-1, 0, 1, 2, 16384, 1 << 33}
	toks := []string{"words.simple", "", "Words.simple", "words.simple "}
	t.Space("every combination of window %v, words %v, interleaving %v, shards %v, workers %v, flush rate %v, tokenizer %q: read from a file; those refused and with few shards also for creating", seqs, pers, inters, shards, workers, flushes, toks)
	for _, k := range seqs {
		for _, p := range pers {
			for _, n := range inters {
				k, p, n := k, p, n
				t.Case(fmt.Sprintf("fields window=%d words=%d inter=%d", k, p, n), func(c *C) {
					for _, sh := range shards {
						for _, w := range workers {
							for _, fl := range flushes {
								for _, tk := range toks {
									cfg := &dupi.Config{IndexRoot: env.P("idx"), SeqLen: k, NumShards: sh, NumShatters: w, DocFlushRate: fl}
									cfg.TokenConfig.Name = tk
									cfg.BlotConfig = blotter.Config{SeqLen: p, Interleave: n}
									refuse(c, cfg)
								}
							}
						}
					}
					c.Note("%d %d %d", k, p, n)
				})
			}
		}
	}
	// overflow of the product
	t.Case("overflowing product", func(c *C) {
		for _, v := range [][3]int{{0, 1 << 32, 1 << 32}, {0, 1 << 62, 4}, {-1 << 63, 1 << 62, 2}, {maxInt, maxInt, 1}, {4, -2, -2}, {1, -1, -1}} {
			cfg := &dupi.Config{IndexRoot: env.P("idx"), SeqLen: v[0], NumShards: 1, NumShatters: 1, DocFlushRate: 1}
			cfg.TokenConfig.Name = "words.simple"
			cfg.BlotConfig = blotter.Config{SeqLen: v[1], Interleave: v[2]}
			if v[0] == maxInt {
				continue // consistent, only too large for the memory
			}
			refuse(c, cfg)
		}
	})
	t.Space("damaged configuration files: every truncation, wrong types, empty, other JSON")
	t.Case("unreadable", func(c *C) {
		cfg, e := dupi.DefaultConfig(env.P("idx"))
		if e != nil {
			c.Fail("%v", e)
		}
		j := cfgJSON(cfg)
		for n := 0; n < len(j)-2; n++ {
			env.WriteFile(env.P("c.json"), j[:n])
			c.Call()
			c.Eval(1)
			if _, e := dupi.ReadConfig(env.P("c.json")); e == nil {
				c.Fail("the configuration %q was accepted", j[:n])
			}
		}
		for _, s := range []string{"null", "{}", "[]", "1", "\"x\"", "{\"SeqLen\": \"a\"}", "{\"SeqLen\": 1e400}", "\x00", strings.Replace(string(j), "10", "\"10\"", 1), strings.Replace(string(j), "10", "10.5", 1), strings.Replace(string(j), "10", "99999999999999999999", 1)} {
			env.WriteFile(env.P("c.json"), []byte(s))
			c.Call()
			c.Eval(1)
			if x, e := dupi.ReadConfig(env.P("c.json")); e == nil {
				c.Fail("the configuration %q was accepted: %+v", s, x)
			}
		}
		if _, e := dupi.ReadConfig(env.P("none.json")); e == nil {
			c.Fail("a missing configuration was accepted")
		}
	})
	// rewriting
	var cs []*dupi.Config
	for i := 0; i < 12; i++ {
		cfg := &dupi.Config{IndexRoot: "", SeqLen: 1, NumShards: 1, NumShatters: 1, DocFlushRate: 1}
		cfg.TokenConfig.Name = "words.simple"
		cfg.BlotConfig = blotter.Config{SeqLen: 1, Interleave: 1}
		switch i {
		case 1:
			cfg.DocFlushRate = 1234567890123
		case 2:
			cfg.SeqLen, cfg.BlotConfig.SeqLen = 1000000, 1000000
		case 3:
			cfg.NumShards = 65535
		case 4:
			cfg.NumShatters = 10
		case 5:
			cfg.SeqLen, cfg.BlotConfig = 6, blotter.Config{SeqLen: 3, Interleave: 2}
		case 6:
			cfg.SeqLen, cfg.BlotConfig = 6, blotter.Config{SeqLen: 2, Interleave: 3}
		case 7:
			cfg.NumShards, cfg.NumShatters, cfg.DocFlushRate = 12345, 67890, 1<<40
		case 8:
			cfg.DocFlushRate = 10
		case 9:
			cfg.DocFlushRate = 100
		case 10:
			cfg.SeqLen, cfg.BlotConfig = 10000, blotter.Config{SeqLen: 100, Interleave: 100}
		case 11:
			cfg.NumShards = 10
		}
		cs = append(cs, cfg)
	}
	t.Space("all ordered triples of %d configurations written to the same place and read back; roots with quotes, spaces, non-ASCII and invalid characters", len(cs))
	// directories with long paths: their configurations are longer than the
	// buffers of those who read and write them
	for _, n := range []int{500, 1000, 1500, 2000, 3000, 3600} {
		n := n
		t.Space("an index in a directory with a path of about %d characters, of 3 kinds: configuration written and read back, created, reopened and read", n)
		for i, s := range []string{"d", "é", "<\""} {
			s := s
			t.Case(fmt.Sprintf("long root %d %d", n, i), func(c *C) {
				comp := strings.Repeat(s, 200/len(s))
				p := strings.Repeat(comp+"/", n/(len(comp)+1))
				f := cf(2, 3, 7, 2, 2)
				env.MkdirAll(env.P(p))
				root := p + "idx"
				w := f.config(root)
				env.Mkdir(env.P(root))
				c.Calls(2)
				if e := w.Write(); e != nil {
					c.Fail("writing %+v: %v", w, e)
				}
				g, e := dupi.ReadConfigFromRoot(root)
				if e != nil || *g != *f.config(root) {
					c.Fail("wrote %+v, read %+v, %v", w, g, e)
				}
				env.Remove(w.Path())
				env.Remove(env.P(root))
				honouredAt(c, c.create(f, root), f, root)
			})
		}
	}
	for ri, root := range []string{"i", "a \"q\" \\ é <&> \u2028", strings.Repeat("long", 50)} {
		ri, root := ri, root
		for a := range cs {
			a := a
			t.Case(fmt.Sprintf("rewrite root=%d first=%d", ri, a), func(c *C) {
				env.Mkdir(env.P(root))
				for b := range cs {
					for d := range cs {
						for _, k := range []int{a, b, d} {
							w := *cs[k]
							w.IndexRoot = env.P(root)
							v := w
							c.Calls(3)
							if e := w.Write(); e != nil {
								c.Fail("writing %+v: %v", w, e)
							}
							if w != v {
								c.Fail("writing changed %+v to %+v", v, w)
							}
							g, e := dupi.ReadConfig(w.Path())
							if e != nil || *g != v {
								c.Fail("configurations %d, %d, %d in a row: wrote %+v, read %+v, %v", a, b, d, v, g, e)
							}
							g, e = dupi.ReadConfigFromRoot(env.P(root))
							if e != nil || *g != v {
								c.Fail("wrote %+v, read %+v from the root, %v", v, g, e)
							}
							c.Eval(1)
						}
					}
				}
				c.Note("%d", a)
			})
		}
	}
	// honoured
	max := 4
	if t.Thorough {
		max = 9
	}
	t.Space("NewConfig and CreateIndexer for shards -2..%d and windows -2..12: refused or honoured", max)
	for n := -2; n <= max; n++ {
		for k := -2; k <= 12; k++ {
			n, k := n, k
			if !t.Thorough && k > 4 && n != 1+k%3 {
				continue
			}
			t.Case(fmt.Sprintf("create shards=%d window=%d", n, k), func(c *C) {
				ok := n >= 1 && k >= 1
				cfg, e := dupi.NewConfig("idx", n, k)
				c.Call()
				if ok != (e == nil) {
					c.Fail("NewConfig with %d shards, window %d: %v", n, k, e)
				}
				if ok && (cfg.NumShards != n || cfg.SeqLen != k || !cfgOK(cfg) || cfg.IndexRoot != env.P("idx")) {
					c.Fail("NewConfig with %d shards, window %d: %+v", n, k, cfg)
				}
				x, e := dupi.CreateIndexer("idx", n, k)
				c.Call()
				if ok != (e == nil) {
					c.Fail("CreateIndexer with %d shards, window %d: %v", n, k, e)
				}
				if !ok {
					if _, e := env.Lstat(env.P("idx")); e == nil {
						c.Fail("refused index was created")
					}
					return
				}
				f := cf(n, cfg.NumShatters, cfg.DocFlushRate, k, 1)
				honoured(c, x, f)
			})
		}
	}
	fs := []Cf{cf(1, 1, 1, 1, 1), cf(2, 1, 1, 3, 2), cf(3, 5, 2, 2, 3), cf(1, 2, 16384, 1, 4), cf(5, 2, 1<<14+1, 5, 1), cf(2, 7, 3, 2, 2), cf(1, 1, 1<<20, 1, 1), cf(1, 1, 1<<32, 1, 1), cf(2, 1, 1<<32+2, 1, 1), cf(1, 2, 1<<45, 2, 1), cf(1, 1, maxInt, 1, 1), cf(1, 17, 2, 1, 1), cf(1, 33, 2, 1, 1)}
	t.Space("%d full configurations created, closed, read back, reopened, closed, read back: %v", len(fs), fs)
	for _, f := range fs {
		f := f
		t.Case("honoured "+f.String(), func(c *C) { honoured(c, c.create(f, "idx"), f) })
	}
}

func refuse(c *C, cfg *dupi.Config) {
	ok := cfgOK(cfg)
	p := env.P("c.json")
	env.WriteFile(p, cfgJSON(cfg))
	c.Call()
	c.Eval(1)
	g, e := dupi.ReadConfig(p)
	if ok && (e != nil || *g != *cfg) {
		c.Fail("the configuration %+v was read as %+v, %v", *cfg, g, e)
	}
	if !ok && e == nil {
		c.Fail("the configuration %+v was accepted", *cfg)
	}
	if !ok && cfg.NumShards < 4 && cfg.DocFlushRate < 1<<20 {
		c.Call()
		x, e := dupi.IndexerFromConfig(cfg)
		if e == nil {
			x.Close()
			c.Fail("an index with the configuration %+v was created", *cfg)
		}
		if _, e := env.Lstat(env.P("idx")); !os.IsNotExist(e) {
			c.Fail("the refused configuration %+v left an index directory", *cfg)
		}
		if x, e := dupi.OpenIndex(env.P("idx")); e == nil {
			x.Close()
			c.Fail("opened an index that was refused: %+v", *cfg)
		}
	}
}

func honoured(c *C, x *dupi.Indexer, f Cf) { honouredAt(c, x, f, "idx") }

func honouredAt(c *C, x *dupi.Indexer, f Cf, root string) {
	r := newRef(f)
	var ws []string
	for i := 0; i <= f.seq()+2; i++ {
		ws = append(ws, nthWord(i*i+i%3))
	}
	c.add(x, r, doc(0, strings.Join(ws[:f.seq()], " "))) // too short
	c.add(x, r, doc(1, strings.Join(ws[:f.seq()+1], " ")))
	c.add(x, r, doc(2, strings.Join(ws, " ")))
	c.closeIndexer(x)
	want := f.config(root)
	for round := 0; round < 2; round++ {
		cfg, e := dupi.ReadConfigFromRoot(root)
		if e != nil || *cfg != *want {
			c.Fail("read back %+v, %v, want %+v", cfg, e, *want)
		}
		raw, e := dupi.ReadConfig(root + "/cfg.json")
		if e != nil || *raw != *want {
			c.Fail("read back %+v, %v, want %+v", raw, e, *want)
		}
		y := c.open(root)
		if y.NumShards() != f.Shards || y.SeqLen() != f.seq() || y.NumShatters() != f.Shatters || *y.Blotter().Config() != want.BlotConfig {
			c.Fail("the index has %d shards, window %d, %d workers, blotter %+v; want %s", y.NumShards(), y.SeqLen(), y.NumShatters(), *y.Blotter().Config(), f)
		}
		st, e := y.Stats()
		if e != nil || st.NumBlots != uint64(f.Shards)<<16 {
			c.Fail("statistics %+v, %v", st, e)
		}
		c.checkLookups(y, r)
		c.closeIndex(y)
		if round == 0 {
			z := c.reopen(root)
			c.add(z, r, doc(3, strings.Join(ws, " - ")))
			c.closeIndexer(z)
		}
	}
}
