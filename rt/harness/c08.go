//go:build go1.21

package main

import (
	"bytes"
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/blotter"
	"github.com/go-air/dupi/token"
	"github.com/go-air/dupi/zz_verif/env"
)

func init() {
	checks["C08"] = c08
	checks["C09"] = c09
	checks["C25"] = c25
}

// ---- tokens

func c08(t *T) {
	alpha := []string{"a", "Z", "9", "é", "世", "𝒜", "ⅷ", "١", " ", "-", "\u0301", "€", "😀", "\x00", "\ufffd", "_", "\xff", "\x80", "\xc3", "\xe4\xb8"}
	max := 5
	if t.Thorough {
		max = 6
		alpha = append(alpha[:15:15], "\xff", "\xc3")
	}
	tf, e := token.FromConfig(token.DefaultConfig())
	if e != nil {
		t.Case("default tokenizer", func(c *C) { c.Fail("the default tokenizer: %v", e) })
		return
	}
	t.Space("all strings of up to %d of %d symbols (letters, digits, marks, symbols of 1 to 4 bytes, invalid bytes) at offset 0 and others", max, len(alpha))
	// split by the first two symbols
	for i := range alpha {
		for j := range alpha {
			i, j := i, j
			t.Case(fmt.Sprintf("strings %q", alpha[i]+alpha[j]), func(c *C) {
				if i == 0 && j == 0 {
					tokCheck(c, tf, "", 0)
				}
				if j == 0 {
					for _, off := range []uint32{0, 5} {
						tokCheck(c, tf, alpha[i], off)
					}
				}
				for n := 0; n <= max-2; n++ {
					if n == 4 && t.Stop() {
						return
					}
					combos(len(alpha), n, func(s []int) {
						b := alpha[i] + alpha[j]
						for _, k := range s {
							b += alpha[k]
						}
						off := uint32(0)
						if n > 0 {
							off = []uint32{0, 1, 1000000, 1<<32 - 64}[s[0]%4]
						}
						tokCheck(c, tf, b, off)
					})
				}
			})
		}
	}
	t.Space("every rune alone, between letters, between separators")
	for blk := rune(0); blk < 0x110000; blk += 0x4000 {
		blk := blk
		t.Case(fmt.Sprintf("runes %#x", blk), func(c *C) {
			for r := blk; r < blk+0x4000; r++ {
				s := string(r)
				tokCheck(c, tf, s, 3)
				tokCheck(c, tf, "a"+s+"b", 0)
				tokCheck(c, tf, " "+s+"-", 0)
			}
		})
	}
	t.Space("word and separator lengths around 2^k up to 100000")
	t.Case("long", func(c *C) {
		for _, n := range []int{1, 2, 63, 64, 65, 255, 256, 4095, 4096, 4097, 65535, 65536, 100000} {
			w, s := strings.Repeat("é", n), strings.Repeat(" ", n)
			for _, x := range []string{w, s, w + s, s + w, w + s + w, s + w + s} {
				tokCheck(c, tf, x, 17)
			}
			tokCheck(c, tf, strings.Repeat("a ", n), 1)
		}
	})
}

func tokCheck(c *C, tf token.TokenizerFunc, s string, off uint32) {
	if len(s) <= 6 { // with every kind of destination
		for k := 0; k < 6; k++ {
			tokCheckIn(c, tf, s, off, k)
		}
		return
	}
	tokCheckIn(c, tf, s, off, c.n%6)
}

// tokCheckIn: k is the kind of the destination.
func tokCheckIn(c *C, tf token.TokenizerFunc, s string, off uint32, k int) {
	c.t.R.Events++
	c.t.R.Evals++
	d := []byte(s)
	// tokens that are there already: texts in a row, with room behind each
	text := [][]byte{make([]byte, 4, 40), make([]byte, 3, 40)}
	copy(text[0], "kept")
	copy(text[1], " .-")
	a, b := token.T{Tag: token.Word, Lit: text[0], Pos: off - 7}, token.T{Tag: token.Other, Lit: text[1], Pos: off - 3}
	var pre []token.T
	if k >= 2 {
		a.Pos, b.Pos = off-4, off-7
		a, b = b, a
	}
	if k < 4 {
		pre = []token.T{a, b}
	}
	dst := pre
	if k%2 == 0 {
		dst = make([]token.T, len(pre), 64)
		copy(dst, pre)
	}
	got := tf(dst, d, off)
	if string(d) != s {
		c.Fail("tokenizing %q changed it to %q", s, d)
	}
	ok := len(got) >= len(pre)
	for i := 0; ok && i < len(pre); i++ {
		t := "kept"
		if pre[i].Tag == token.Other {
			t = " .-"
		}
		ok = got[i].Tag == pre[i].Tag && got[i].Pos == pre[i].Pos && string(got[i].Lit) == t
	}
	if !ok {
		c.Fail("tokenizing %q lost or changed tokens of the destination %v: %v", s, pre, got)
	}
	got = got[len(pre):]
	want := refTokens(s)
	ok = len(got) == len(want)
	for i := 0; ok && i < len(want); i++ {
		tag := token.Other
		if want[i].word {
			tag = token.Word
		}
		ok = got[i].Tag == tag && got[i].Pos == off+uint32(want[i].pos) && string(got[i].Lit) == want[i].lit
	}
	if !ok {
		var g []string
		for i := range got {
			g = append(g, got[i].String())
		}
		c.Fail("tokens of %q at %d: got %s, want %v", s, off, strings.Join(g, " "), want)
	}
	if c.n++; c.n%257 == 1 {
		c.Note("%q:%d", s, len(got))
	}
}

// ---- blotter

// refBlot is the blot after the words ws.
func refBlot(ws []string, per, inter int) uint32 {
	b := uint32(0)
	for j := 0; j < per; j++ {
		if i := len(ws) - 1 - j*inter; i >= 0 {
			b ^= fnv1(lower(ws[i]))
		}
	}
	return b
}

func c09(t *T) {
	vocab := []string{"a", "B", "b", "wörD", "É"}
	long := []string{"", "x", "K", "ǅ", "İ", "ẞ", "٣9", strings.Repeat("Ab", 300), "世界", "Zz"}
	max, kmax, nmax := 8, 5, 4
	if t.Thorough {
		max, kmax, nmax = 11, 8, 7
	}
	for k := 1; k <= kmax; k++ {
		for n := 1; n <= nmax; n++ {
			k, n := k, n
			l := max
			t.Space("all sequences of up to %d words over %q, window %d words at distance %d, on a new blotter", l, vocab[:3], k, n)
			for first := 0; first < 3; first++ {
				first := first
				t.Case(fmt.Sprintf("all words k=%d n=%d first=%d", k, n, first), func(c *C) {
					for m := 0; m < l; m++ {
						combos(3, m, func(s []int) {
							ws := []string{vocab[first]}
							for _, i := range s {
								ws = append(ws, vocab[i])
							}
							blotSeq(c, k, n, ws, m < 5)
						})
					}
				})
			}
			t.Case(fmt.Sprintf("mixed words k=%d n=%d", k, n), func(c *C) {
				all := append(append([]string(nil), vocab...), long...)
				combos(len(all), 3, func(s []int) {
					ws := []string{}
					for r := 0; r < 2+k*n/3; r++ {
						for _, i := range s {
							ws = append(ws, all[i])
						}
					}
					blotSeq(c, k, n, ws, true)
				})
			})
		}
	}
	t.Space("windows 1, 10, 11, 64, 100, 1000 at distances 1, 2, 3, 10, over 4000 words (long-lived blotter, words recur)")
	for _, k := range []int{1, 10, 11, 64, 100, 1000} {
		for _, n := range []int{1, 2, 3, 10} {
			k, n := k, n
			t.Case(fmt.Sprintf("long-lived k=%d n=%d", k, n), func(c *C) {
				var ws []string
				for i := 0; i < 4000; i++ {
					ws = append(ws, nthWord(i*i%97+i%3))
				}
				blotSeq(c, k, n, ws, true)
			})
		}
	}
	t.Space("every rune as a word: letter case is ignored")
	for blk := rune(0); blk < 0x110000; blk += 0x10000 {
		blk := blk
		t.Case(fmt.Sprintf("case %#x", blk), func(c *C) {
			b, e := blotter.FromConfig(&blotter.Config{SeqLen: 1, Interleave: 1})
			if e != nil {
				c.Fail("%v", e)
			}
			for r := blk; r < blk+0x10000; r++ {
				if !utf8.ValidRune(r) {
					continue
				}
				w := string(r) + "x"
				g := b.Blot([]byte(w))
				c.t.R.Evals++
				if g != fnv1(lower(w)) {
					c.Fail("blot of %q is %#x, want %#x", w, g, fnv1(lower(w)))
				}
				if u := string(unicode.ToUpper(r)) + "X"; unicode.ToLower(unicode.ToUpper(r)) == unicode.ToLower(r) {
					if h := b.Blot([]byte(u)); h != g {
						c.Fail("blots of %q and %q differ: %#x, %#x", w, u, g, h)
					}
				}
			}
			c.Calls(0x10000)
			c.Note("%#x", b.Blot([]byte("end")))
		})
	}
	t.Space("interleaving -3..0 with window lengths 1..3 is refused, 1..5 accepted")
	t.Case("refused", func(c *C) {
		for n := -3; n <= 5; n++ {
			for k := 1; k <= 3; k++ {
				c.Call()
				b, e := blotter.FromConfig(&blotter.Config{SeqLen: k, Interleave: n})
				if n < 1 && e == nil {
					c.Fail("interleaving %d accepted", n)
				}
				if n >= 1 && (e != nil || b == nil) {
					c.Fail("interleaving %d, window %d refused: %v", n, k, e)
				}
				c.Eval(1)
			}
		}
		d := blotter.DefaultConfig()
		b, e := blotter.FromConfig(d)
		if e != nil || *b.Config() != *d {
			c.Fail("default configuration: %v", e)
		}
	})
}

func blotSeq(c *C, k, n int, ws []string, check bool) {
	cfg := &blotter.Config{SeqLen: k, Interleave: n}
	b, e := blotter.FromConfig(cfg)
	if e != nil {
		c.Fail("blotter of %+v: %v", *cfg, e)
	}
	if cfg.SeqLen != k || cfg.Interleave != n {
		c.Fail("the configuration was changed to %+v", *cfg)
	}
	// another one gets the same words, all in one buffer
	b2, e := blotter.FromConfig(cfg)
	if e != nil {
		c.Fail("blotter of %+v: %v", *cfg, e)
	}
	var buf [1024]byte
	// the XOR over the window, moved along (words that are gone leave)
	for i, w := range ws {
		d := []byte(w + "##")
		g := b.Blot(d[:len(w)])
		c.t.R.Events++
		if g2 := b2.Blot(buf[:copy(buf[:], w)]); g2 != g {
			c.Fail("window %dx%d: after %q (%d words) the blot is %#x, from words in one buffer %#x", k, n, tail(ws[:i+1], 12), i+1, g, g2)
		}
		if string(d) != w+"##" {
			c.Fail("blotting modified the word %q: %q", w, d)
		}
		if check || i == len(ws)-1 {
			lo := i + 1 - k*n
			if lo < 0 {
				lo = 0
			}
			if want := refBlot(ws[lo:i+1], k, n); g != want {
				c.Fail("window %dx%d: after %q (%d words) the blot is %#x, want %#x", k, n, tail(ws[:i+1], 12), i+1, g, want)
			}
			c.t.R.Evals++
		}
		if i == 0 || i == len(ws)-1 {
			if got := b.Config(); got.SeqLen != k || got.Interleave != n || b.Interleaving() != n {
				c.Fail("window %dx%d: the blotter reports %+v, interleaving %d", k, n, *got, b.Interleaving())
			}
			if c.n++; c.n%63 == 1 {
				c.Note("%x", g)
			}
		}
	}
}

func tail(s []string, n int) []string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// ---- loading documents

func c25(t *T) {
	lens := []int{0, 1, 2, 3, 4, 5, 7, 511, 512, 513, 4096, 65537}
	content := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*7 + i>>8 + 'A')
		}
		return b
	}
	paths := []string{"/abs", "rel", "link", "sub/../rel2"}
	for _, n := range lens {
		n := n
		var at []int
		for i := 0; i <= n && i <= 8; i++ {
			at = append(at, i)
		}
		for _, v := range []int{n - 2, n - 1, n, n + 1, n + 2, n + 600, 256, 512, 1 << 20, 1<<32 - 3, 1<<32 - 1} {
			if v > 8 {
				at = append(at, v)
			}
		}
		t.Space("a file of %d bytes, all ranges over positions %v, by absolute, relative and linked path, with and without data already there", n, at)
		for pi := range paths {
			pi := pi
			t.Case(fmt.Sprintf("length %d %s", n, paths[pi]), func(c *C) {
				p := paths[pi]
				b := content(n)
				file := env.P("rel")
				switch p {
				case "/abs":
					file = env.P("abs")
					p = file
				case "link":
					env.Symlink("rel", env.P("link"))
				case "sub/../rel2":
					env.Mkdir(env.P("sub"))
					file = env.P("rel2")
				}
				if e := env.WriteFile(file, b); e != nil {
					panic(e)
				}
				for _, s := range at {
					for _, e := range at {
						if s == e && s > n {
							continue
						}
						for pre := 0; pre < 2; pre++ {
							loadCheck(c, p, b, uint32(s), uint32(e), pre == 1)
						}
					}
				}
				got, e := env.ReadFile(file)
				if e != nil || !bytes.Equal(got, b) {
					c.Fail("loading changed the file")
				}
			})
		}
	}
	c25far(t)
	t.Space("missing files and directories, every range over 0..3")
	t.Case("missing", func(c *C) {
		env.Mkdir(env.P("dir"))
		env.Symlink("nothing", env.P("dangling"))
		for _, p := range []string{"missing", "dir", "dangling", "dir/missing", ""} {
			for s := 0; s <= 3; s++ {
				for e := s; e <= 3; e++ {
					if s == e && s > 0 {
						continue
					}
					d := &dupi.Doc{Path: p, Start: uint32(s), End: uint32(e)}
					c.Call()
					c.Eval(1)
					if d.Load() == nil {
						c.Fail("loading %q [%d:%d] succeeded", p, s, e)
					}
				}
			}
		}
		d := dupi.NewDoc("/p", "body")
		if d.Path != "/p" || string(d.Dat) != "body" || d.Start != 0 {
			c.Fail("NewDoc: %+v", d)
		}
	})
	t.Space("pairs of ranges over 0..6, the second loaded by a copy of the first and by the document itself after its extent was changed")
	t.Case("copies", func(c *C) {
		b := content(6)
		must(env.WriteFile(env.P("f"), b))
		type ext struct{ s, e int }
		var es []ext
		for s := 0; s <= 6; s++ {
			for e := s + 1; e <= 6; e++ {
				es = append(es, ext{s, e})
			}
		}
		es = append(es, ext{0, 0})
		ok := func(d *dupi.Doc, x ext, when string) {
			if x.e == 0 {
				x.e = 6
			}
			if !bytes.Equal(d.Dat, b[x.s:x.e]) || int(d.Start) != x.s || int(d.End) != x.e {
				c.Fail("%s: document of [%d:%d] has %q and extent %d:%d", when, x.s, x.e, d.Dat, d.Start, d.End)
			}
		}
		for _, x := range es {
			for _, y := range es {
				d := &dupi.Doc{Path: env.P("f"), Start: uint32(x.s), End: uint32(x.e)}
				load := func(d *dupi.Doc) {
					c.Call()
					if e := d.Load(); e != nil {
						c.Fail("loading [%d:%d]: %v", d.Start, d.End, e)
					}
				}
				load(d)
				ok(d, x, "after loading")
				f := *d
				f.Start, f.End = uint32(y.s), uint32(y.e)
				load(&f)
				ok(&f, y, "a copy, after loading it")
				ok(d, x, "after loading a copy")
				g := *d
				d.Start, d.End = uint32(y.s), uint32(y.e)
				load(d)
				ok(d, y, "after loading again")
				ok(&f, y, "a copy, after loading the first one again")
				ok(&g, x, "a copy made before, after loading again")
				c.Eval(1)
			}
		}
		c.Note("ok")
	})
	t.Space("loading again after the file changed, and a document without extent loaded twice")
	t.Case("again", func(c *C) {
		for a := 0; a <= 5; a++ {
			for b := 0; b <= 5; b++ {
				p := env.P(fmt.Sprintf("f%d%d", a, b))
				x, y := content(a), content(b)
				for i := range y {
					y[i] ^= 0x20
				}
				env.WriteFile(p, x)
				d := &dupi.Doc{Path: p}
				e1 := d.Load()
				if e1 != nil || !bytes.Equal(d.Dat, x) || d.End != uint32(a) {
					c.Fail("loading a file of %d bytes: %v, %d bytes, end %d", a, e1, len(d.Dat), d.End)
				}
				env.WriteFile(p, y)
				e2 := d.Load()
				c.Calls(2)
				c.Eval(2)
				switch {
				case a == 0: // still without extent
					if e2 != nil || !bytes.Equal(d.Dat, y) || d.End != uint32(b) {
						c.Fail("loading again: %v, %q", e2, d.Dat)
					}
				case b < a:
					if e2 == nil {
						c.Fail("loading [0:%d] of a file of now %d bytes succeeded", a, b)
					}
				default:
					if e2 != nil || !bytes.Equal(d.Dat, y[:a]) {
						c.Fail("loading [0:%d] again: %v, %q", a, e2, d.Dat)
					}
				}
				c.Note("%v %v", e1 == nil, e2 == nil)
			}
		}
	})
}

func loadCheck(c *C, p string, b []byte, s, e uint32, pre bool) {
	d := &dupi.Doc{Path: p, Start: s, End: e}
	if pre {
		d.Dat = []byte("left over from before, longer than some of the ranges")
	}
	c.Call()
	c.Eval(1)
	n := uint32(len(b))
	if e > s && e-s > 1<<21 {
		return // would allocate gigabytes
	}
	err := d.Load()
	if e < s {
		if err == nil {
			c.Fail("loading [%d:%d] of a file of %d bytes succeeded with %d bytes", s, e, n, len(d.Dat))
		}
		return
	}
	if s == 0 && e == 0 {
		if err != nil || !bytes.Equal(d.Dat, b) || d.Start != 0 || d.End != n || d.Path != p {
			c.Fail("loading all of %s (%d bytes): %v, got %d bytes, %d:%d", p, n, err, len(d.Dat), d.Start, d.End)
		}
		return
	}
	if e > n {
		if err == nil {
			c.Fail("loading [%d:%d] of a file of %d bytes succeeded with %d bytes", s, e, n, len(d.Dat))
		}
		return
	}
	if err != nil || !bytes.Equal(d.Dat, b[s:e]) || d.Start != s || d.End != e || d.Path != p {
		c.Fail("loading [%d:%d] of a file of %d bytes: %v, got %d bytes (%.40q), extent %d:%d, path %s", s, e, n, err, len(d.Dat), d.Dat, d.Start, d.End, d.Path)
	}
	c.Note("%d:%d", s, e)
}
