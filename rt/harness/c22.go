//go:build go1.21

package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/zz_verif/env"
)

func init() { checks["C22"] = c22 }

// rmWorld is a directory with an index, its surroundings and documents.
type rmWorld struct {
	c     *C
	f     Cf
	place string // of the index
	ref   *Ref   // nil: there is no index
	n     int
	// other indexes
	other map[string]*Ref
}

func (w *rmWorld) doc(i int) rDoc {
	n := w.f.Shards
	text := blotText(n, jb(n, 0, 5), jb(n, i%n, 10+i))
	return rDoc{env.P(fmt.Sprintf("docs/d%d", i)), 0, uint32(len(text)), text}
}

func newRmWorld(c *C, place string) *rmWorld {
	w := &rmWorld{c: c, f: cf(2, 2, 2, 1, 1), place: place, other: map[string]*Ref{}}
	must(env.MkdirAll(env.P("docs")))
	for i := 0; i < 8; i++ {
		d := w.doc(i)
		must(env.WriteFile(d.path, []byte(d.text)))
	}
	par := ""
	if i := strings.LastIndex(place, "/"); i >= 0 {
		par = place[:i+1]
		must(env.MkdirAll(env.P(place[:i])))
	}
	base := place[len(par):]
	for _, s := range []string{base + "2/x", base + ".bak/sub/y", base + "-x/z", base[:2] + "/u", "dmd/v", ".hidden/w"} {
		s = par + s
		must(env.MkdirAll(env.P(s[:strings.LastIndex(s, "/")])))
		must(env.WriteFile(env.P(s), []byte(s)))
	}
	for _, s := range []string{base + ".txt", base + "~", "dmd.dmd", "config.json", "00000.iix", base + ".lock2", base + "2.lock"} {
		must(env.WriteFile(env.P(par+s), []byte(s)))
	}
	must(env.Symlink("docs", env.P("tothere")))
	// another index, with a name that extends the name of the index
	w.addOther(par + base + "3")
	return w
}

func (w *rmWorld) addOther(place string) {
	r := newRef(w.f)
	x := w.c.create(w.f, env.P(place))
	w.c.add(x, r, w.doc(7))
	w.c.closeIndexer(x)
	w.other[place] = r
}

// around is everything but the index.
func (w *rmWorld) around() map[string]string {
	m := map[string]string{}
	for k, v := range env.Snapshot(env.World()) {
		if k == env.P(w.place)+"/" || strings.HasPrefix(k, env.P(w.place)+"/") || k == env.P(w.place)+".lock" {
			continue
		}
		m[k] = v
	}
	return m
}

// step does something and checks that nothing around the index changes.
func (w *rmWorld) step(name string, f func()) {
	before := w.around()
	f()
	if d := env.Diff(before, w.around()); len(d) > 0 {
		if len(d) > 4 {
			d = d[:4]
		}
		w.c.Fail("%s: changes outside of the index: %s", name, short(strings.Join(d, ", "), 400))
	}
	if !env.LockFree(env.P(w.place + ".lock")) {
		w.c.Fail("%s: the lock of the index stays held", name)
	}
	if l := env.LocksHeld(); l != "" {
		w.c.Fail("%s: %s", name, l)
	}
	if n := env.OpenHandles(); n != 0 {
		w.c.Fail("%s: %d files stay open", name, n)
	}
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (w *rmWorld) gone(name string) {
	w.ref = nil
	if _, e := env.Lstat(env.P(w.place)); e == nil {
		var l []string
		for k := range env.Snapshot(env.P(w.place)) {
			l = append(l, k)
		}
		sort.Strings(l)
		w.c.Fail("%s: the index is still there: %s", name, short(strings.Join(l, " "), 300))
	}
}

func (w *rmWorld) root(style int) string { return spell(w.place, "", style) }

func (w *rmWorld) write(style int, nd int) {
	var x *dupi.Indexer
	if w.ref == nil {
		w.ref = newRef(w.f)
		x = w.c.create(w.f, w.root(style))
	} else {
		x = w.c.reopen(w.root(style))
	}
	for i := 0; i < nd; i++ {
		w.c.add(x, w.ref, w.doc(w.n%7))
		w.n++
	}
	w.c.closeIndexer(x)
}

func (w *rmWorld) read(style int) {
	x := w.c.open(w.root(style))
	w.c.checkAll(x, w.ref, env.P(w.place))
	for _, b := range w.ref.blots() {
		for _, d := range w.c.get(x, b) {
			d := d
			w.c.Call()
			if _, _, e := x.FindBlot(b, &d); e != nil {
				w.c.Fail("locating blot %#x in %s: %v", b, d.Path, e)
			}
		}
	}
	w.c.closeIndex(x)
}

func (w *rmWorld) removeReader(style int, query bool, during string) {
	x := w.c.open(w.root(style))
	if query {
		w.c.extract(x, 2)
	}
	must(env.Chdir(env.P(during)))
	w.c.Call()
	if e := dupi.RemoveIndex(x); e != nil {
		w.c.Fail("removing the index: %v", e)
	}
	must(env.Chdir(env.P("")))
	w.gone("RemoveIndex")
}

func (w *rmWorld) removeIndexer(style int, nd int, during string) {
	var x *dupi.Indexer
	if w.ref == nil {
		x = w.c.create(w.f, w.root(style))
	} else {
		x = w.c.reopen(w.root(style))
	}
	must(env.Chdir(env.P(during)))
	for i := 0; i < nd; i++ {
		w.c.add(x, nil, w.doc(w.n%7))
		w.n++
	}
	w.c.Call()
	if e := dupi.RemoveIndexer(x); e != nil {
		w.c.Fail("removing the index: %v", e)
	}
	must(env.Chdir(env.P("")))
	w.gone("RemoveIndexer")
}

// end checks the other indexes and that an index can be made at the place.
func (w *rmWorld) end() {
	var l []string
	for k := range w.other {
		l = append(l, k)
	}
	sort.Strings(l)
	for _, k := range l {
		x := w.c.open(env.P(k))
		w.c.checkAll(x, w.other[k], env.P(k))
		w.c.closeIndex(x)
	}
	if w.ref == nil {
		w.step("creating again", func() { w.write(1, 1) })
	}
	w.step("reading at the end", func() { w.read(1) })
	w.c.Note("%d docs", len(w.ref.docs))
}

func c22(t *T) {
	// sequences of operations
	type op struct {
		name string
		idx  int // 0: any, 1: needs an index, 2: removes
		do   func(w *rmWorld)
	}
	ops := []op{
		{"write", 0, func(w *rmWorld) { w.write(0, 3) }},
		{"write nothing", 0, func(w *rmWorld) { w.write(0, 0) }},
		{"read", 1, func(w *rmWorld) { w.read(0) }},
		{"remove by reader", 1, func(w *rmWorld) { w.removeReader(0, false, "") }},
		{"query, remove by reader", 1, func(w *rmWorld) { w.removeReader(1, true, "docs") }},
		{"remove by indexer", 0, func(w *rmWorld) { w.removeIndexer(0, 0, "") }},
		{"add, remove by indexer", 0, func(w *rmWorld) { w.removeIndexer(2, 3, "docs") }},
		{"failing create", 1, func(w *rmWorld) {
			w.c.Call()
			if _, e := dupi.IndexerFromConfig(w.f.config(w.root(0))); e == nil {
				w.c.Fail("an index is created where there is one")
			}
		}},
	}
	depth := 4
	if t.Thorough {
		depth = 6
	}
	for _, place := range []string{"idx", "sub/idx", "outer/idx"} {
		for n := 1; n <= depth; n++ {
			combos(len(ops), n, func(seq []int) {
				have, removed := false, false
				var name []string
				for _, o := range seq {
					if ops[o].idx == 1 && !have {
						return
					}
					have = !strings.Contains(ops[o].name, "remove")
					removed = removed || !have
					name = append(name, ops[o].name)
				}
				if !removed && n < depth {
					return
				}
				place, seq := place, append([]int(nil), seq...)
				t.Case(place+": "+strings.Join(name, ", "), func(c *C) {
					w := newRmWorld(c, place)
					if place == "outer/idx" {
						// an index in the directory of an index
						for k := range w.other {
							delete(w.other, k)
						}
						must(env.RemoveAll(env.P("outer")))
						w.addOther("outer")
					}
					for i, o := range seq {
						w.step(fmt.Sprintf("%s (%d)", ops[o].name, i), func() { ops[o].do(w) })
					}
					w.end()
				})
			})
		}
	}
	t.Space("3 places (beside files and an index whose names extend its name; below a directory; in the directory of another index) x all sequences of up to %d of %d operations", depth, len(ops))
	beside(t)
	// things that others put into the index
	things := []struct {
		name string
		put  func(d string)
	}{
		{"file", func(d string) { must(env.WriteFile(d+"/note", []byte("x"))) }},
		{"hidden file", func(d string) { must(env.WriteFile(d+"/.note", []byte("x"))) }},
		{"tree", func(d string) {
			must(env.MkdirAll(d + "/t/u/v"))
			must(env.WriteFile(d+"/t/u/v/w", []byte("x")))
			must(env.WriteFile(d+"/t/w", []byte("x")))
		}},
		{"link to a file", func(d string) { must(env.Symlink(env.P("docs/d0"), d+"/l1")) }},
		{"link to a directory", func(d string) { must(env.Symlink(env.P("docs"), d+"/l2")) }},
		{"relative link to the parent", func(d string) { must(env.Symlink("..", d+"/l3")) }},
		{"dangling link", func(d string) { must(env.Symlink(env.P("docs/new"), d+"/l4")) }},
		{"link to another index", func(d string) { must(env.Symlink(d+"3", d+"/l5")) }},
		{"loop of links", func(d string) { must(env.Symlink("l6", d+"/l6")) }},
		{"link in a tree", func(d string) {
			must(env.MkdirAll(d + "/m"))
			must(env.Symlink("../../docs", d+"/m/l7"))
		}},
	}
	ways := 4
	for _, place := range []string{"idx", "sub/idx"} {
		for mask := 0; mask < 1<<len(things); mask++ {
			for way := 0; way < ways; way++ {
				for _, style := range []int{0, 1, 2, 5, 6, 7, 8} {
					if style != 0 && nbits(mask) > 1 && !t.Thorough {
						continue
					}
					place, mask, way, style := place, mask, way, style
					t.Case(fmt.Sprintf("%s with things %b, removed by %d as %d", place, mask, way, style), func(c *C) {
						w := newRmWorld(c, place)
						must(env.MkdirAll(env.P("sub")))
						w.write(1, 2)
						for i, x := range things {
							if mask>>i&1 == 1 {
								x.put(env.P(place))
							}
						}
						w.step("reading", func() { w.read(style) })
						w.step("appending", func() { w.write(style, 1) })
						w.step("removing", func() {
							if way&1 == 0 {
								w.removeReader(style, way&2 != 0, []string{"", "docs"}[way>>1])
							} else {
								w.removeIndexer(style, way&2, []string{"", "docs"}[way>>1])
							}
						})
						w.end()
					})
				}
			}
		}
	}
	t.Space("2 places x sets of %d kinds of files, directories and links that others put into the index x %d ways of removing x spellings", len(things), ways)
	// removing with other readers
	for n := 1; n <= 3; n++ {
		for who := 0; who < n; who++ {
			n, who := n, who
			t.Case(fmt.Sprintf("%d readers, reader %d removes", n, who), func(c *C) {
				w := newRmWorld(c, "idx")
				w.write(0, 3)
				before := w.around()
				var xs []*dupi.Index
				for i := 0; i < n; i++ {
					x := c.open(w.root(i))
					c.checkLookups(x, w.ref)
					xs = append(xs, x)
				}
				if e := dupi.RemoveIndex(xs[who]); e != nil {
					c.Fail("removing the index: %v", e)
				}
				w.gone("RemoveIndex")
				for i, x := range xs {
					if i != who {
						c.closeIndex(x)
					}
				}
				if d := env.Diff(before, w.around()); len(d) > 0 {
					c.Fail("changes outside of the index: %v", d)
				}
				w.end()
			})
		}
	}
	t.Space("1..3 readers of which one removes the index, then the others close")
}

func nbits(m int) (n int) {
	for ; m != 0; m &= m - 1 {
		n++
	}
	return
}

// beside looks for names next to the index that a session uses for a while, and has
// others keep something under these names: what they keep is not changed, though the
// session may fail.
func beside(t *T) {
	write := func(w *rmWorld, nd int) {
		w.c.Call()
		var x *dupi.Indexer
		var e error
		if _, se := env.Lstat(env.P(w.place + "/cfg.json")); se != nil {
			x, e = dupi.IndexerFromConfig(w.f.config(w.root(0)))
		} else {
			x, e = dupi.OpenIndexer(w.root(0))
		}
		if e != nil {
			return
		}
		for i := 0; i < nd; i++ {
			w.c.Call()
			x.Add(toDoc(w.doc(w.n % 7)))
			w.n++
		}
		x.Close()
	}
	type op struct {
		name string
		do   func(w *rmWorld)
	}
	ops := []op{
		{"write", func(w *rmWorld) { write(w, 3) }},
		{"write nothing", func(w *rmWorld) { write(w, 0) }},
		{"failing create", func(w *rmWorld) {
			if x, e := dupi.IndexerFromConfig(w.f.config(w.root(0))); e == nil {
				x.Close()
			}
		}},
		{"read", func(w *rmWorld) {
			if y, e := dupi.OpenIndex(w.root(0)); e == nil {
				for _, b := range []uint32{0, 5, 10} {
					y.StartQuery(dupi.QueryMaxBlot).Get(&dupi.Blot{Blot: b})
				}
				y.StartQuery(dupi.QueryMaxBlot).Next(make([]dupi.Blot, 3))
				y.Stats()
				y.Close()
			}
		}},
		{"remove by reader", func(w *rmWorld) {
			if y, e := dupi.OpenIndex(w.root(0)); e == nil {
				dupi.RemoveIndex(y)
			}
		}},
		{"remove by indexer", func(w *rmWorld) {
			if x, e := dupi.OpenIndexer(w.root(0)); e == nil {
				x.Add(toDoc(w.doc(1)))
				dupi.RemoveIndexer(x)
			}
		}},
		{"write the configuration", func(w *rmWorld) {
			if g, e := dupi.ReadConfigFromRoot(w.root(0)); e == nil {
				g.Write()
			}
		}},
	}
	d := 3
	if t.Thorough {
		d = 4
	}
	t.Space("2 places x all sequences of up to %d of %d operations: every name outside of the index that is made or taken away for a while, with a file, an empty file, a directory and a link of others under that name", d, len(ops))
	for _, place := range []string{"idx", "sub/idx"} {
		for n := 1; n <= d; n++ {
			combos(len(ops), n, func(seq []int) {
				var name []string
				for _, o := range seq {
					name = append(name, ops[o].name)
				}
				place, seq := place, append([]int(nil), seq...)
				t.Case(place+", others beside: "+strings.Join(name, ", "), func(c *C) {
					w := newRmWorld(c, place)
					all := func() {
						for _, o := range seq {
							ops[o].do(w)
						}
					}
					inner := env.P(place) + "/"
					for _, p := range env.Touched(all) {
						if p == env.P(place) || strings.HasPrefix(p, inner) || p == env.P(place)+".lock" {
							continue
						}
						for kind := 0; kind < 4; kind++ {
							env.Reset()
							w = newRmWorld(c, place)
							what := ""
							switch kind {
							case 0:
								what = "a file"
								must(env.WriteFile(p, []byte("of others "+strings.Repeat("and long ", 300))))
							case 1:
								what = "an empty file"
								must(env.WriteFile(p, nil))
							case 2:
								what = "a directory"
								must(env.MkdirAll(p + "/a"))
								must(env.WriteFile(p+"/a/b", []byte("of others")))
							case 3:
								what = "a link"
								must(env.Symlink(env.P("docs/d3"), p))
							}
							for _, o := range seq {
								w.step(fmt.Sprintf("%s of others at %s, %s", what, p, ops[o].name), func() { ops[o].do(w) })
							}
							c.Eval(1)
						}
					}
					c.Eval(1)
					c.Note("done")
				})
			})
		}
	}
}
