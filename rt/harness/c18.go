//go:build go1.21

package main

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/zz_verif/env"
)

func init() { checks["C18"] = c18 }

const nSpell = 9

// spell names the place from the current directory.
func spell(place, cwd string, style int) string {
	rel, e := filepath.Rel(env.P(cwd), env.P(place))
	must(e)
	abs := env.P(place)
	switch style {
	case 0:
		return rel
	case 1:
		return abs
	case 2:
		return rel + "/"
	case 3:
		return "./" + rel
	case 4:
		return abs + "//"
	case 5:
		return rel + "/."
	case 6: // through a directory that is there
		return env.P("sub") + "/../" + place
	case 7:
		return strings.ReplaceAll(abs, "/", "//")
	case 8:
		return rel + "/../" + filepath.Base(place)
	}
	panic(style)
}

// places is the state of the file system as far as indexes are concerned.
type places struct {
	f    Cf
	cwd  string
	refs map[string]*Ref
	n    int
	lock map[string]bool
	lit  int // see create
}

// create makes an index from a configuration that is used as it is (lit 0), that has
// the name in it as it is (lit 1) and that is changed while the index is open (lit 2).
func (p *places) create(c *C, name string) *dupi.Indexer {
	if p.lit == 0 {
		return c.create(p.f, name)
	}
	cfg := p.f.config(name)
	cfg.IndexRoot = name
	c.Call()
	x, e := dupi.IndexerFromConfig(cfg)
	if e != nil {
		c.Fail("creating the index %q: %v", name, e)
	}
	if p.lit == 2 {
		*cfg = *cf(3, 3, 3, 1, 3).config(env.P("other"))
	}
	return x
}

func newPlaces(f Cf) *places {
	must(env.MkdirAll(env.P("sub/deep")))
	must(env.MkdirAll(env.P("other")))
	must(env.WriteFile(env.P("sub/note"), []byte("x")))
	return &places{f: f, cwd: "", refs: map[string]*Ref{}, lock: map[string]bool{}}
}

func (p *places) chdir(d string) {
	must(env.Chdir(env.P(d)))
	p.cwd = d
}

func (p *places) sorted() (l []string) {
	for k := range p.refs {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

// write appends to the index at the place, or creates it; the working directory
// may change while it is open.
func (p *places) write(c *C, place string, style int, during string) {
	name := spell(place, p.cwd, style)
	r := p.refs[place]
	var x *dupi.Indexer
	if r == nil {
		r = newRef(p.f)
		p.refs[place] = r
		x = p.create(c, name)
	} else {
		x = c.reopen(name)
	}
	p.lock[place] = true
	if x.Root() != env.P(place) {
		c.Fail("opening %q in %s for indexing gives %s", name, p.cwd, x.Root())
	}
	if env.LockFree(env.P(place + ".lock")) {
		c.Fail("opening %q in /w/%s for indexing does not lock %s.lock", name, p.cwd, place)
	}
	i := p.n
	p.n++
	n := p.f.Shards
	d := rDoc{fmt.Sprintf("/d/%d", i), uint32(i), uint32(i + 9), blotText(n, jb(n, 0, 5), jb(n, i%n, 10+i))}
	c.Call()
	if during != p.cwd {
		p.chdir(during)
	}
	if e := x.Add(toDoc(d)); e != nil {
		c.Fail("adding: %v", e)
	}
	r.add(d, env.W())
	c.closeIndexer(x)
	if !env.LockFree(env.P(place + ".lock")) {
		c.Fail("closing %q does not unlock %s.lock", name, place)
	}
}

func (p *places) read(c *C, place string, style int) {
	name := spell(place, p.cwd, style)
	x := c.open(name)
	if x.Root() != env.P(place) {
		c.Fail("opening %q in /w/%s gives %s", name, p.cwd, x.Root())
	}
	if env.LockFree(env.P(place + ".lock")) {
		c.Fail("opening %q in /w/%s does not lock %s.lock", name, p.cwd, place)
	}
	p.lock[place] = true
	c.checkAll(x, p.refs[place], env.P(place))
	c.closeIndex(x)
}

// content is what is stored at a place.
func content(place string) map[string]string {
	m := map[string]string{}
	for k, v := range env.Snapshot(env.P(place)) {
		m[strings.TrimPrefix(k, env.P(place))] = v
	}
	return m
}

func copyTree(from, to string) {
	m := content(from)
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if strings.HasSuffix(k, "/") {
			must(env.MkdirAll(strings.TrimSuffix(env.P(to)+k, "/")))
		} else {
			must(env.WriteFile(env.P(to)+k, []byte(strings.TrimPrefix(m[k], "file "))))
		}
	}
}

func (p *places) copyTo(from, to string) {
	copyTree(from, to)
	r := newRef(p.f)
	for _, d := range p.refs[from].docs {
		r.add(d, env.W())
	}
	p.refs[to] = r
}

// tree checks that there are exactly the files that there should be.
func (p *places) tree(c *C) {
	for k := range env.Snapshot(env.W()) {
		k = strings.TrimPrefix(strings.TrimSuffix(k, "/"), env.W())
		k = strings.TrimPrefix(k, "/")
		ok := k == "" || k == "sub" || k == "sub/deep" || k == "other" || k == "sub/note" || p.lock[strings.TrimSuffix(k, ".lock")]
		for place := range p.refs {
			if k == place || strings.HasPrefix(k, place+"/") {
				ok = true
			}
		}
		if !ok {
			c.Fail("there is a file %s", k)
		}
	}
	if l := env.LocksHeld(); l != "" {
		c.Fail("%s", l)
	}
}

func c18(t *T) {
	f := cf(2, 2, 2, 1, 1)
	dirs := []string{"", "sub", "other"}
	// every triple of spellings and directories for creating, appending, reading
	for _, place := range []string{"idx", "sub/idx"} {
		for a := 0; a < nSpell; a++ {
			for b := 0; b < nSpell; b++ {
				for d := 0; d < 27; d++ {
					if !t.Thorough && d > 2 && (a+b+d)%9 != 0 {
						continue
					}
					place, a, b := place, a, b
					ds := []string{dirs[d%3], dirs[d/3%3], dirs[d/9]}
					t.Case(fmt.Sprintf("%s: created as %d, appended as %d, in %q", place, a, b, ds), func(c *C) {
						p := newPlaces(f)
						p.chdir(ds[0])
						p.write(c, place, a, ds[1])
						p.chdir(ds[1])
						p.write(c, place, b, ds[2])
						p.chdir(ds[2])
						for s := 0; s < nSpell; s++ {
							p.read(c, place, s)
						}
						// in the index itself
						p.chdir(place)
						x := c.open(".")
						c.checkAll(x, p.refs[place], env.P(place))
						c.closeIndex(x)
						p.chdir("")
						p.tree(c)
						c.Note("ok")
					})
				}
			}
		}
	}
	t.Space("2 places x %d spellings for creating x %d for appending, with changes of the working directory before, while and after, read by all spellings", nSpell, nSpell)
	// the configuration is made by hand, or is used for something else after
	for _, place := range []string{"idx", "sub/idx"} {
		for a := 0; a < nSpell; a++ {
			for d := 0; d < 9; d++ {
				for lit := 1; lit <= 2; lit++ {
					place, a, lit := place, a, lit
					ds := []string{dirs[d%3], dirs[d/3%3]}
					t.Case(fmt.Sprintf("%s: created as %d, in %q, by a configuration of mode %d", place, a, ds, lit), func(c *C) {
						p := newPlaces(f)
						p.lit = lit
						p.chdir(ds[0])
						p.write(c, place, a, ds[1])
						p.write(c, place, 0, ds[0])
						p.read(c, place, a)
						p.chdir("")
						p.tree(c)
						c.Note("ok")
					})
				}
			}
		}
	}
	t.Space("2 places x %d spellings, written into a configuration as they are, with changes of the working directory and of the configuration while the index is open", nSpell)
	for how := 0; how < 32; how++ {
		how := how
		t.Case(fmt.Sprintf("two indexes from one configuration %d", how), func(c *C) {
			p := newPlaces(f)
			names := []string{"idx", "sub/idx"}
			if how&1 != 0 {
				names[0], names[1] = names[1], names[0]
			}
			cfg := f.config("none")
			xs := make([]*dupi.Indexer, 2)
			for i := range xs {
				cfg.IndexRoot = spell(names[i], "", how>>1&1)
				if i == 1 && how&4 != 0 {
					cfg.NumShatters = 3
				}
				if i == 1 && how&8 != 0 {
					cfg.NumShatters = 1
				}
				c.Call()
				x, e := dupi.IndexerFromConfig(cfg)
				if e != nil {
					c.Fail("creating the index %q: %v", cfg.IndexRoot, e)
				}
				xs[i] = x
				p.refs[names[i]] = newRef(f)
				p.lock[names[i]] = true
			}
			for k := 0; k < 6; k++ {
				d := rDoc{fmt.Sprintf("/d/%d", k), uint32(k), uint32(k + 9), blotText(f.Shards, jb(f.Shards, 0, 5), jb(f.Shards, k%2, 10+k))}
				c.add(xs[k&1], p.refs[names[k&1]], d)
			}
			for i := range xs {
				if how&16 != 0 {
					i = 1 - i
				}
				c.closeIndexer(xs[i])
			}
			for _, n := range names {
				p.read(c, n, 1)
			}
			p.tree(c)
			c.Note("ok")
		})
	}
	t.Space("two indexes that are made from one configuration, whose root and number of workers change between, used by turns")
	// waiting: one spelling holds it, another waits
	for a := 0; a < nSpell; a++ {
		for b := 0; b < nSpell; b++ {
			for mode := 0; mode < 4; mode++ {
				a, b, mode := a, b, mode
				t.Case(fmt.Sprintf("held as %d, wanted as %d, mode %d", a, b, mode), func(c *C) {
					p := newPlaces(f)
					p.write(c, "idx", 0, "")
					p.chdir("sub")
					n1, n2 := spell("idx", p.cwd, a), spell("idx", p.cwd, b)
					var closer func()
					if mode&1 == 0 {
						x := c.reopen(n1)
						closer = func() { c.closeIndexer(x) }
					} else {
						x := c.open(n1)
						closer = func() { c.closeIndex(x) }
					}
					closed := false
					var g Group
					var got string
					g.Go(c, func() {
						if mode&2 == 0 {
							x := c.reopen(n2)
							if !closed {
								got = "indexing"
							}
							c.closeIndexer(x)
						} else {
							x := c.open(n2)
							if !closed && mode&1 == 0 {
								got = "reading"
							}
							c.closeIndex(x)
						}
					})
					linger()
					closed = true
					closer()
					g.Wait()
					if got != "" {
						c.Fail("opened as %q and at the same time as %q for %s", n1, n2, got)
					}
					c.Note("ok")
				})
			}
		}
	}
	t.Space("%d x %d spellings: one holds the index (indexing or reading), the other one wants it (indexing or reading)", nSpell, nSpell)
	// sequences with renaming and copying
	type op struct {
		name string
		do   func(p *places, c *C) bool
	}
	pl := []string{"idx", "sub/idx"}
	var ops []op
	for i, q := range pl {
		for s := 0; s < 2; s++ {
			q, s := q, s+2*i
			ops = append(ops, op{fmt.Sprintf("write %s/%d", q, s), func(p *places, c *C) bool { p.write(c, q, s, p.cwd); return true }})
		}
	}
	for i := range pl {
		from, to := pl[i], pl[1-i]
		ops = append(ops, op{"move " + from, func(p *places, c *C) bool {
			if p.refs[from] == nil || p.refs[to] != nil {
				return false
			}
			must(env.Rename(env.P(from), env.P(to)))
			p.refs[to] = p.refs[from]
			delete(p.refs, from)
			return true
		}}, op{"copy " + from, func(p *places, c *C) bool {
			if p.refs[from] == nil || p.refs[to] != nil {
				return false
			}
			p.copyTo(from, to)
			return true
		}}, op{"drop " + from, func(p *places, c *C) bool {
			if p.refs[from] == nil {
				return false
			}
			must(env.RemoveAll(env.P(from)))
			delete(p.refs, from)
			return true
		}})
	}
	for _, d := range []string{"", "sub"} {
		d := d
		ops = append(ops, op{"cd " + d, func(p *places, c *C) bool {
			if p.cwd == d {
				return false
			}
			p.chdir(d)
			return true
		}})
	}
	depth := 5
	if t.Thorough {
		depth = 6
	}
	// a sequence is worth running if every operation is possible
	possible := func(seq []int) bool {
		have := [2]bool{}
		cwd := 0
		for _, o := range seq {
			switch {
			case o < 4:
				have[o/2] = true
			case o < 10:
				i := (o - 4) / 3
				if !have[i] {
					return false
				}
				switch (o - 4) % 3 {
				case 0:
					if have[1-i] {
						return false
					}
					have[0], have[1] = have[1], have[0]
				case 1:
					if have[1-i] {
						return false
					}
					have[1-i] = true
				case 2:
					have[i] = false
				}
			default:
				if cwd == o-10 {
					return false
				}
				cwd = o - 10
			}
		}
		return seq[len(seq)-1] < 10 && (have[0] || have[1])
	}
	for n := 2; n <= depth; n++ {
		combos(len(ops), n, func(seq []int) {
			if !possible(seq) {
				return
			}
			var name []string
			for _, o := range seq {
				name = append(name, ops[o].name)
			}
			seq = append([]int(nil), seq...)
			t.Case(strings.Join(name, ", "), func(c *C) {
				p := newPlaces(f)
				for _, o := range seq {
					others := map[string]map[string]string{}
					for _, q := range pl {
						if !strings.Contains(ops[o].name, " "+q) {
							others[q] = content(q)
						}
					}
					if !ops[o].do(p, c) {
						panic("harness: not possible")
					}
					for _, q := range pl {
						if m := others[q]; m != nil && strings.HasPrefix(ops[o].name, "write") {
							if d := env.Diff(m, content(q)); len(d) > 0 {
								c.Fail("%s changed %s: %v", ops[o].name, q, d)
							}
						}
					}
				}
				for i, q := range p.sorted() {
					p.read(c, q, len(seq)%nSpell)
					p.read(c, q, (3*i+1)%nSpell)
				}
				p.tree(c)
				c.Note("%d places", len(p.refs))
			})
		})
	}
	t.Space("all sequences of 2..%d of: write to the index at one of 2 places by one of 2 spellings, move, copy and drop it, change the working directory", depth)
}
