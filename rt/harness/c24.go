//go:build go1.21 && !zzinst

package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"slices"
	"sort"
	"strconv"
	"strings"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/zz_verif/env"
)

func init() { checks["C24"] = c24 }

// qfile is a file given to the commands.
type qfile struct{ arg, text string }

// queries runs all query commands on an index of the documents and compares.
func (c *C) queries(f Cf, docs []rDoc, extra []qfile, sigmas []float64) {
	c.queriesOf(f, docs, nil, extra, sigmas)
}

// queriesOf does it with documents of files of several documents if there are
// any, one session for each file that is mentioned anew.
func (c *C) queriesOf(f Cf, docs []rDoc, of map[string]string, extra []qfile, sigmas []float64) {
	must(env.MkdirAll(env.P("t")))
	r := newRef(f)
	files := append([]qfile(nil), extra...)
	for _, q := range extra {
		must(env.WriteFile(env.P(q.arg), []byte(q.text)))
	}
	if of != nil {
		var names []string
		for n := range of {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			must(env.WriteFile(env.P(n), []byte(of[n])))
			files = append(files, qfile{n, of[n]})
		}
		x := c.create(f, env.P("idx"))
		for i, d := range docs {
			if i > 0 && d.path != docs[i-1].path {
				c.closeIndexer(x)
				x = c.reopen(env.P("idx"))
			}
			c.add(x, r, d)
		}
		c.closeIndexer(x)
		docs = nil
	}
	for _, d := range docs {
		must(env.WriteFile(d.path, []byte(d.text)))
		r.add(d, "")
		files = append(files, qfile{strings.TrimPrefix(d.path, env.W()+"/"), d.text})
	}
	run := func(args ...string) cliRun {
		res := c.cli(env.W(), []string{"DUPIROOT=" + env.P("idx")}, args...)
		if res.code != 0 {
			c.Fail("dupi %s: exit status %d: %s", strings.Join(args, " "), res.code, short(res.stderr, 400))
		}
		c.Eval(1)
		return res
	}
	if of == nil {
		run("index", "-n", fmt.Sprint(f.Shards), "-s", fmt.Sprint(f.Shatters), "-t", fmt.Sprint(f.seq()), "t")
	}
	// files that have changed since they were indexed, or are gone
	now := func(i int) (string, bool) { // the text of a document
		d := r.docs[i]
		s, ok := c.stale[strings.TrimPrefix(d.path, env.W()+"/")]
		if !ok {
			return d.text, true
		}
		if s == gone || d.end > uint32(len(s)) {
			return "", false
		}
		return s[d.start:d.end], true
	}
	if c.stale != nil {
		var l []qfile
		for _, q := range files {
			if s, ok := c.stale[q.arg]; ok {
				q.text = s
			}
			if q.text != gone {
				l = append(l, q)
			}
		}
		files = l
		for p, s := range c.stale {
			must(env.Remove(env.P(p)))
			if s != gone {
				must(env.WriteFile(env.P(p), []byte(s)))
			}
		}
	}
	before := env.Snapshot(env.W())
	// inspect
	st := r.stats(env.P("idx"))
	tol := func(a, b float64) bool {
		if env.Scale > 0 { // the figures for the small tables differ a little
			return math.Abs(a-b) <= 0.01*math.Abs(b)+1e-3
		}
		return near(a, b)
	}
	var got dupi.Stats
	o := run("inspect", "-json").out
	if e := json.Unmarshal([]byte(o), &got); e != nil {
		c.Fail("inspect -json prints %s: %v", short(o, 300), e)
	}
	if got.Root != st.Root || got.NumDocs != st.NumDocs || got.NumPaths != st.NumPaths || got.NumPosts != st.NumPosts || got.NumBlots != st.NumBlots || !near(got.BlotMean, st.BlotMean) || !tol(got.BlotSigma, st.BlotSigma) {
		c.Fail("inspect -json prints %+v, want %+v", got, st)
	}
	text := strings.Fields(run("inspect").out)
	for _, w := range []string{st.Root + ":", fmt.Sprint(st.NumDocs), fmt.Sprint(st.NumPaths), fmt.Sprint(st.NumPosts), fmt.Sprint(st.NumBlots), fmt.Sprintf("%.2f", st.BlotMean)} {
		ok := false
		for _, x := range text {
			ok = ok || x == w
		}
		if !ok {
			c.Fail("inspect does not print %s but %q", w, text)
		}
	}
	// extract
	name := func(i int) string { return fmt.Sprintf("%s@%d:%d", r.abs[i], r.docs[i].start, r.docs[i].end) }
	names := func(b uint32) string {
		var l []string
		for _, i := range r.posts[b] {
			l = append(l, name(i))
		}
		sort.Strings(l)
		return strings.Join(l, " ")
	}
	extracted := func(what string, n float64, bs []uint32, docs []string) {
		seen := map[uint32]bool{}
		last := 1 << 30
		for i, b := range bs {
			if seen[b] {
				c.Fail("%s prints blot %x twice", what, b)
			}
			seen[b] = true
			k := len(r.posts[b])
			if k < 2 || float64(k) < n {
				c.Fail("%s prints blot %x that %d documents have, want at least %v", what, b, k, n)
			}
			if k > last {
				c.Fail("%s prints blot %x with %d documents after one with %d", what, b, k, last)
			}
			last = k
			if docs != nil && docs[i] != names(b) {
				c.Fail("%s prints blot %x with %s, want %s", what, b, docs[i], names(b))
			}
		}
		for _, b := range r.blots() {
			if k := len(r.posts[b]); k >= 2 && float64(k) >= n && !seen[b] {
				c.Fail("%s does not print blot %x that %d documents have, want all with at least %v", what, b, k, n)
			}
		}
	}
	for si, sigma := range append([]float64{math.NaN()}, sigmas...) {
		args := []string{"extract"}
		s := sigma
		if math.IsNaN(sigma) {
			s = 2
		} else {
			args = append(args, "-sigma", strconv.FormatFloat(sigma, 'g', -1, 64))
		}
		x := st.BlotMean + s*st.BlotSigma
		if fr := x - math.Floor(x); math.Abs(x) < 1e15 && math.Abs(fr-0.5) < 0.02 {
			continue // too near to rounding the other way
		}
		n := math.Round(x)
		for form := 0; form < 3; form++ {
			if si > 0 && si%3 != form {
				continue
			}
			a := args
			switch form {
			case 1:
				a = append(append([]string(nil), a...), "-b")
			case 2:
				a = append(append([]string(nil), a...), "-json")
			}
			out := run(a...).out
			what := strings.Join(a, " ")
			var bs []uint32
			var ds []string
			if form == 2 {
				dec := json.NewDecoder(strings.NewReader(out))
				for {
					var l []dupi.Blot
					e := dec.Decode(&l)
					if e == io.EOF {
						break
					}
					if e != nil {
						c.Fail("%s prints %s: %v", what, short(out, 300), e)
					}
					for _, b := range l {
						bs = append(bs, b.Blot)
						var p []string
						for _, d := range b.Docs {
							p = append(p, fmt.Sprintf("%s@%d:%d", d.Path, d.Start, d.End))
						}
						sort.Strings(p)
						ds = append(ds, strings.Join(p, " "))
					}
				}
				if len(bs) == 0 {
					ds = nil
				}
			} else {
				for _, l := range lines(out) {
					w := strings.Split(l, " ")
					b, e := strconv.ParseUint(w[0], 16, 32)
					if e != nil || form == 1 && len(w) > 1 {
						c.Fail("%s prints %q", what, l)
					}
					bs = append(bs, uint32(b))
					if form == 0 {
						sort.Strings(w[1:])
						ds = append(ds, strings.Join(w[1:], " "))
					}
				}
			}
			extracted(what, n, bs, ds)
		}
	}
	// unblot
	args := []string{}
	for i, b := range r.blots() {
		if i < 40 {
			args = append(args, fmt.Sprintf("%x", b))
		}
	}
	n := uint32(f.Shards) << 16
	for _, b := range []uint32{5, n - 1, 0x101} {
		if _, ok := r.posts[b]; !ok && (env.Scale == 0 || b/uint32(f.Shards) < uint32(env.Scale)) {
			args = append(args, fmt.Sprintf("%x", b))
		}
	}
	for _, all := range []bool{false, true} {
		var want []string
		for _, a := range args {
			b64, _ := strconv.ParseUint(a, 16, 32)
			texts := map[string][]string{}
			for _, i := range r.posts[uint32(b64)] {
				text, _ := now(i)
				for _, w := range f.windows(text) {
					if w.blot == uint32(b64) {
						t := text[w.start:w.end]
						texts[t] = append(texts[t], fmt.Sprintf("\t%s %d:%d", r.abs[i], r.docs[i].start, r.docs[i].end))
						break
					}
				}
			}
			for t, l := range texts {
				if all || len(l) > 1 {
					sort.Strings(l)
					want = append(want, t+"'''\n"+strings.Join(l, "\n"))
				}
			}
		}
		a := []string{"unblot"}
		if all {
			a = append(a, "-all")
		}
		out := run(append(a, args...)...).out
		var res []string
		for i, blk := range strings.Split(out, "text:\n'''\n") {
			if i == 0 {
				if blk != "" {
					c.Fail("unblot prints %q", short(out, 300))
				}
				continue
			}
			j := strings.LastIndex(blk, "'''\n")
			if j < 0 {
				c.Fail("unblot prints %q", short(out, 300))
			}
			l := lines(blk[j+4:])
			sort.Strings(l)
			res = append(res, blk[:j+4]+strings.Join(l, "\n"))
		}
		sort.Strings(res)
		sort.Strings(want)
		if g, w := strings.Join(res, "\n"), strings.Join(want, "\n"); g != w {
			c.Fail("unblot (all: %v) %s prints %s, want %s", all, strings.Join(args, " "), short(g, 600), short(w, 600))
		}
	}
	// blot
	args = nil
	for _, q := range files {
		args = append(args, q.arg)
	}
	for _, off := range []bool{false, true} {
		var want []string
		for _, q := range files {
			for _, w := range f.windows(q.text) {
				if off {
					want = append(want, fmt.Sprintf("%x %d:%d", w.blot, w.start, w.end))
				} else {
					want = append(want, fmt.Sprintf("%x", w.blot))
				}
			}
		}
		a := []string{"blot"}
		if off {
			a = append(a, "-offsets")
		}
		if g, w := strings.Join(lines(run(append(a, args...)...).out), "\n"), strings.Join(want, "\n"); g != w {
			c.Fail("blot (offsets: %v) prints %s, want %s", off, short(g, 400), short(w, 400))
		}
	}
	// like
	var out string
	if c.stale == nil {
		out = run(append([]string{"like"}, args...)...).out
	} else {
		// a file that cannot be read may make it fail
		c.Eval(1)
		var l []qfile
		for _, q := range files {
			unread := false
			have := map[uint32]bool{}
			for _, w := range f.windows(q.text) {
				have[w.blot] = true
			}
			for b := range have {
				for _, i := range r.posts[b] {
					if _, ok := now(i); !ok {
						unread = true
					}
				}
			}
			res := c.cli(env.W(), []string{"DUPIROOT=" + env.P("idx")}, "like", q.arg)
			if res.code != 0 && (!unread || strings.Contains(res.stderr, "goroutine ") || strings.Contains(res.out, "\t")) {
				c.Fail("dupi like %s: exit status %d: %s", q.arg, res.code, short(res.stderr, 400))
			}
			if res.code == 0 {
				out += res.out
				l = append(l, q)
			}
		}
		files = l
	}
	blocks := strings.Split("\n"+out, "\nlike ")
	if len(files) == 0 && out == "" {
		blocks = []string{""} // all failed
	}
	if blocks[0] != "" || len(blocks) != len(files)+1 {
		c.Fail("like of %d files prints %s", len(files), short(out, 500))
	}
	for i, q := range files {
		have := map[string]bool{}
		for _, w := range f.windows(q.text) {
			have[q.text[w.start:w.end]] = true
		}
		var want []string
		for j, d := range r.docs {
			text, _ := now(j)
			for _, w := range f.windows(text) {
				// it is among the candidates by what it was indexed with
				if have[text[w.start:w.end]] && slices.Contains(r.posts[w.blot], j) {
					want = append(want, fmt.Sprintf("\t%s %d:%d", r.abs[j], d.start, d.end))
					break
				}
			}
		}
		sort.Strings(want)
		l := lines(blocks[i+1])
		if len(l) == 0 || l[0] != q.arg+":" {
			c.Fail("like of %s prints %s", q.arg, short(blocks[i+1], 400))
		}
		l = l[1:]
		sort.Strings(l)
		if g, w := strings.Join(l, "\n"), strings.Join(want, "\n"); g != w {
			c.Fail("like of %s (%q) prints %s, want %s", q.arg, short(q.text, 100), short(g, 400), short(w, 400))
		}
	}
	if d := env.Diff(before, env.Snapshot(env.W())); len(d) > 0 {
		c.Fail("queries change files: %s", short(strings.Join(d, " "), 300))
	}
	if !env.LockFree(env.P("idx.lock")) {
		c.Fail("the index stays locked")
	}
	c.Note("%d docs %d posts", st.NumDocs, st.NumPosts)
}

// gone is the content of a file that is removed.
const gone = "\x00gone"

func lines(s string) []string {
	s = strings.TrimSuffix(s, "\n")
	if s == "" {
		return nil
	}
	return strings.Split(s, "\n")
}

// spoken is the text of some words; the separators vary.
func spoken(ws []string, seps int) string {
	sep := [][]string{{" "}, {", ", " "}, {"\n", "-", " \t"}}[seps]
	s := ""
	for i, w := range ws {
		if i > 0 {
			s += sep[i%len(sep)]
		}
		s += w
	}
	return s
}

func c24(t *T) {
	if canRead0() && os.Getenv("VERIF_ROOT") == "" {
		t.incomplete("running as root")
	}
	a, b, d := low(0), low(1), low(2)
	up := strings.ToUpper(a[:1]) + a[1:]
	vocab := []string{a, b, up, d}
	mk := func(k, n int) (l [][]string) {
		upto(k, n, func(s []int) {
			var ws []string
			for _, i := range s {
				ws = append(ws, vocab[i])
			}
			l = append(l, ws)
		})
		return
	}
	file := func(i int, text string) rDoc { return rDoc{env.P(fmt.Sprintf("t/f%d", i)), 0, uint32(len(text)), text} }
	// pairs of texts, the second one also queried in other words
	texts := mk(3, 3)
	for seq := 1; seq <= 2; seq++ {
		if seq == 2 {
			texts = nil
			for _, x := range mk(2, 4) {
				if len(x) >= 2 {
					texts = append(texts, x)
				}
			}
		}
		for i := range texts {
			for j := i; j < len(texts); j++ {
				for sep := 0; sep < 3; sep++ {
					if !t.Thorough && (i+j)%3 != sep {
						continue
					}
					i, j, sep, seq, texts := i, j, sep, seq, texts
					t.Case(fmt.Sprintf("window %d: %q and %q, separated by %d", seq, texts[i], texts[j], sep), func(c *C) {
						t1, t2 := spoken(texts[i], 0), spoken(texts[j], sep)
						other := append(append([]string{b}, texts[i]...), d)
						c.queries(cf(1<<uint((i+j)%3), 1+j%2, 0, seq, 1), []rDoc{file(0, t1), file(1, t2)},
							[]qfile{{"q0", spoken(other, 0)}, {"q1", ". " + spoken(texts[(i+1)%len(texts)], sep) + ".\n"}}, []float64{float64(i%5) * 100})
					})
				}
			}
		}
		t.Space("window %d: all pairs of %d texts as files, queried with themselves and other files, by all commands and flags", seq, len(texts))
	}
	// documents whose file has changed since
	as := func(ws ...string) string { return spoken(ws, 0) }
	one := as(a, b, d, up, b)
	news := []string{gone, "", as(a, b, d, up, b, d), as(b, d, a, b, d), as(d, d, d, d, d), as(a, b, d), strings.Repeat(".", len(one)), " " + one, as(up, b, d, a, b), "\xff" + one[1:], one + " " + one, ". " + as(a, b, d)}
	for i := range news {
		for j := range news {
			for seq := 1; seq <= 2; seq++ {
				if !t.Thorough && (i*5+j)%6 != 3*(seq-1) {
					continue
				}
				i, j, seq := i, j, seq
				t.Case(fmt.Sprintf("window %d: files changed to %q and %q", seq, news[i], news[j]), func(c *C) {
					c.stale = map[string]string{"t/f0": news[i], "t/f1": news[j]}
					c.queries(cf(1+(i+j)%2, 2, 0, seq, 1), []rDoc{file(0, one), file(1, one+" "+d), file(2, as(d, a, b, d))}, []qfile{{"q", as(a, b, d, up)}}, []float64{0})
				})
				if i < 6 || t.Thorough {
					t.Case(fmt.Sprintf("window %d: a file of several documents changed to %q, another to %q", seq, news[i], news[j]), func(c *C) {
						c.stale = map[string]string{"t/f": news[i], "t/g": news[j]}
						var l []rDoc
						k := uint32(len(one))
						m := uint32(len(as(a, b, d, up)))
						for _, e := range []uint32{0, uint32(len(a)) + 1, uint32(len(as(a, b))) + 1} {
							l = append(l, rDoc{env.P("t/f"), e, k, one[e:]}, rDoc{env.P("t/f"), e, m, one[e:m]})
						}
						l = append(l, rDoc{env.P("t/g"), uint32(len(a)), k, one[len(a):]})
						c.queriesOf(cf(1+(i+j)%2, 2, 2, seq, 1), l, map[string]string{"t/f": one, "t/g": one}, []qfile{{"q", as(a, b, d, up)}}, []float64{0})
					})
				}
			}
		}
	}
	t.Space("files of one or several documents that have changed since they were indexed, or are gone: pairs of %d changes", len(news))
	far := []float64{0, 1e4, 1e9, 1e15, 1e20, 1e30, 1e300, math.Inf(1), -1e4, -1e9, -1e15, -1e20, -1e30, math.Inf(-1)}
	// more documents per blot, with cut-offs at every number of documents
	few := [][]string{{}, {a}, {b, a}, {a, a}, {b, a, d}, {d, b}, {a, up, a}, {up, b, a, b}}
	most := 4
	if t.Thorough {
		most = 5
	}
	for n := 3; n <= most; n++ {
		combos(len(few), n, func(s []int) {
			for i := range s[1:] {
				if s[i] > s[i+1] {
					return
				}
			}
			s = append([]int(nil), s...)
			t.Case(fmt.Sprintf("files %v", s), func(c *C) {
				f := cf(2, 2, 0, 1, 1)
				r := newRef(f)
				var docs []rDoc
				for i, k := range s {
					x := file(i, spoken(few[k], (i+s[0])%3))
					docs = append(docs, x)
					r.add(x, "")
				}
				st := r.stats("")
				var sig []float64
				for k := -1; k <= n+1; k++ {
					if st.BlotSigma > 0 {
						sig = append(sig, (float64(k)-st.BlotMean)/st.BlotSigma)
					}
				}
				c.queries(f, docs, []qfile{{"q", spoken(few[(s[0]+3)%len(few)], 1)}}, sig)
			})
		})
	}
	t.Space("all multisets of 3..%d files of %d texts, extracted with cut-offs at every number of documents", most, len(few))
	// odd files
	odd := []string{"", " ", ".", "\n\n", a, a + "\n", "\xff\xfe" + a + " " + b + " " + d, a + " \x80 " + b, "ß " + a + "ö " + b, a + "_" + b + "'" + d, strings.Repeat(a+" ", 50), strings.Repeat(a+" "+b+" ", 40), "9 8 7 " + a}
	okOdd := func(s string) bool { // the blots must be in the small tables
		if env.Scale == 0 {
			return true
		}
		for seq := 1; seq <= 3; seq++ {
			for _, w := range cf(2, 1, 0, seq, 1).windows(s) {
				if w.blot/2 >= uint32(env.Scale) {
					return false
				}
			}
		}
		return true
	}
	for i := range odd {
		for j := range odd {
			for seq := 1; seq <= 3; seq++ {
				if !t.Thorough && (i+j)%3 != seq-1 {
					continue
				}
				i, j, seq := i, j, seq
				if !okOdd(odd[i]) || !okOdd(odd[j]) {
					continue
				}
				t.Case(fmt.Sprintf("window %d: odd %d and %d", seq, i, j), func(c *C) {
					c.queries(cf(2, 2, 0, seq, 1), []rDoc{file(0, odd[i]), file(1, odd[j]), file(2, spoken(vocab, 0)+" "+odd[i])}, []qfile{{"q", odd[j] + " " + spoken(vocab, 0)}}, nil)
				})
			}
		}
	}
	t.Space("all pairs of %d odd files (empty, no words, shorter than a window, repeated words, invalid UTF-8)", len(odd))
	// several documents of one file, of which some overlap, begin alike or
	// end alike
	whole := a + " " + b + " " + d + ". " + a + " " + b + " " + a + " " + up + "\n"
	cuts := []int{0}
	for i := 1; i < len(whole); i++ {
		if whole[i] == ' ' {
			cuts = append(cuts, i)
		}
	}
	cuts = append(cuts, len(whole))
	var spans []rDoc
	for i, x := range cuts {
		for _, y := range cuts[i+1:] {
			spans = append(spans, rDoc{"", uint32(x), uint32(y), whole[x:y]})
		}
	}
	for i := range spans {
		for j := range spans {
			if i == j || !t.Thorough && (i*len(spans)+j)%9 != 0 {
				continue
			}
			i, j := i, j
			t.Case(fmt.Sprintf("documents %d:%d and %d:%d of a file", spans[i].start, spans[i].end, spans[j].start, spans[j].end), func(c *C) {
				f := cf(1+(i+j)%2, 2, 2, 1+j%2, 1+i%3%2)
				x, y := spans[i], spans[j]
				x.path, y.path = env.P("t/f"), env.P("t/f")
				c.queriesOf(f, []rDoc{x, {env.P("t/g"), 3, 3 + y.end - y.start, y.text}, y},
					map[string]string{"t/f": whole, "t/g": "..." + y.text}, []qfile{{"q", whole[3:]}}, []float64{0})
			})
		}
	}
	t.Space("two documents of the %d pieces of a file in one session each, with another file between them, also with interleaving", len(spans))
	// many documents
	for _, n := range []int{5, 17, 40, 130} {
		for seq := 1; seq <= 4; seq++ {
			n, seq := n, seq
			t.Case(fmt.Sprintf("%d files, window %d", n, seq), func(c *C) {
				f := cf(4, 4, 0, seq, 1)
				r := newRef(f)
				var docs []rDoc
				for i := 0; i < n; i++ {
					var ws []string
					for k := 0; k <= seq+i%7; k++ {
						ws = append(ws, low((i%(k+2))*3+k%5))
					}
					x := file(i, spoken(ws, i%3))
					docs = append(docs, x)
					r.add(x, "")
				}
				st := r.stats("")
				var sig []float64
				for k := 0; k < n; k += 1 + n/6 {
					sig = append(sig, (float64(k)-st.BlotMean)/st.BlotSigma)
				}
				if st.BlotSigma > 0 {
					sig = append(sig, far...)
				}
				c.queries(f, docs, nil, sig)
			})
		}
	}
	t.Space("5, 17, 40 and 130 documents of generated words, windows of 1..4 words, with sigmas from -Inf to +Inf")
}
