//go:build go1.21

package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/zz_verif/env"
)

func init() { checks["C17"] = c17 }

// damage of an index; undo repairs it.
type damage struct {
	name string
	do   func(c *C, s *hurt)
	// which operations must fail
	open, app, create bool
}

// hurt is an index directory with what is needed to damage and repair it.
type hurt struct {
	f    Cf
	r    *Ref
	root string // relative
	good map[string]string
}

func (c *C) newHurt(f Cf) *hurt {
	s := &hurt{f: f, r: newRef(f), root: "idx"}
	x := c.create(f, s.root)
	for i := 0; i < 4; i++ {
		c.add(x, s.r, doc(i, pipeText(f, i, i%2)))
	}
	c.closeIndexer(x)
	x = c.reopen(s.root)
	c.add(x, s.r, doc(4, pipeText(f, 4, 1)))
	c.closeIndexer(x)
	s.good = env.Snapshot(env.P(s.root))
	return s
}

// restore puts the files of the index back.
func (s *hurt) restore() {
	must(env.RemoveAll(env.P(s.root)))
	var ks []string
	for k := range s.good {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if strings.HasSuffix(k, "/") {
			must(env.MkdirAll(strings.TrimSuffix(k, "/")))
		} else {
			must(env.WriteFile(k, []byte(strings.TrimPrefix(s.good[k], "file "))))
		}
	}
}

func must(e error) {
	if e != nil {
		panic(e)
	}
}

func (s *hurt) p(name string) string { return env.P(s.root + "/" + name) }

// files of an index that opening reads completely, and all of them
func (s *hurt) files() (read, all []string) {
	for k := range s.good {
		if strings.HasSuffix(k, "/") {
			continue
		}
		n := strings.TrimPrefix(k, env.P(s.root)+"/")
		all = append(all, n)
		if n == "cfg.json" || n == "files.fnm" || strings.HasSuffix(n, ".iix") {
			read = append(read, n)
		}
	}
	sort.Strings(all)
	sort.Strings(read)
	return
}

func (s *hurt) data(name string) string { return strings.TrimPrefix(s.good[s.p(name)], "file ") }

// editConfig changes a field of the stored configuration.
func (s *hurt) editConfig(f func(m map[string]any)) {
	var m map[string]any
	must(json.Unmarshal([]byte(s.data("cfg.json")), &m))
	f(m)
	b, e := json.Marshal(m)
	must(e)
	must(env.WriteFile(s.p("cfg.json"), b))
}

// failing runs op, which must fail and leave everything as it is.
func (c *C) failing(what string, op func() error) {
	before := env.Snapshot(env.W())
	h := env.OpenHandles()
	c.Call()
	e := op()
	if e == nil {
		c.Fail("%s: no error", what)
	}
	after := env.Snapshot(env.W())
	for _, d := range env.Diff(before, after) {
		if strings.HasPrefix(d, "added ") && strings.HasSuffix(d, ".lock") || strings.HasPrefix(d, "changed ") && strings.HasSuffix(d, ".lock") {
			continue
		}
		c.Fail("%s failed (%v) but had an effect: %s", what, e, env.Norm(d))
	}
	if l := env.LocksHeld(); l != "" || !env.LockFree(env.P("idx.lock")) {
		c.Fail("%s failed (%v) but the index is still locked", what, e)
	}
	if n := env.OpenHandles(); n != h {
		c.Fail("%s failed (%v) but left %d files open", what, e, n-h)
	}
	c.Eval(1)
}

const failOps = "RAC" // open for reading, for appending, create

func (c *C) failOp(op byte, f Cf, root, what string) {
	switch op {
	case 'R':
		c.failing("opening for reading "+what, func() error {
			x, e := dupi.OpenIndex(root)
			if e == nil {
				x.Close()
			}
			return e
		})
	case 'A':
		c.failing("opening for appending "+what, func() error {
			x, e := dupi.OpenIndexer(root)
			if e == nil {
				x.Close()
			}
			return e
		})
	case 'C':
		c.failing("creating over "+what, func() error {
			x, e := dupi.IndexerFromConfig(f.config(root))
			if e == nil {
				x.Close()
			}
			return e
		})
	}
}

// works uses the index in one of the ways that must be possible at once.
func (s *hurt) works(c *C, how int) {
	switch how {
	case 0: // repaired, it can be read
		s.restore()
		x := c.open(s.root)
		c.checkAll(x, s.r, env.P(s.root))
		c.closeIndex(x)
	case 1: // repaired, it can be appended to
		s.restore()
		x := c.reopen(s.root)
		r := newRef(s.f)
		for _, d := range s.r.docs {
			r.add(d, env.W())
		}
		c.add(x, r, doc(7, pipeText(s.f, 7, 1)))
		c.closeIndexer(x)
		y := c.open(s.root)
		c.checkAll(y, r, env.P(s.root))
		c.closeIndex(y)
		s.restore()
	case 2: // removed, a new one can be created
		must(env.RemoveAll(env.P(s.root)))
		r := newRef(s.f)
		x := c.create(s.f, s.root)
		c.add(x, r, doc(1, pipeText(s.f, 1, 1)))
		c.closeIndexer(x)
		y := c.open(s.root)
		c.checkAll(y, r, env.P(s.root))
		c.Call()
		if e := dupi.RemoveIndex(y); e != nil {
			c.Fail("removing: %v", e)
		}
		s.restore()
	}
}

type pathEnt struct {
	name         string
	parent, size uint64
}

func decodePaths(d string) (es []pathEnt) {
	b := []byte(d)
	num := func() uint64 {
		v, n := binary.Uvarint(b)
		b = b[n:]
		return v
	}
	for n := num(); n > 0; n-- {
		l := num()
		e := pathEnt{name: string(b[:l]), size: l}
		b = b[l:]
		e.parent = num()
		es = append(es, e)
	}
	return
}

func encodePaths(n uint64, es []pathEnt) []byte {
	b := binary.AppendUvarint(nil, n)
	for _, e := range es {
		b = append(binary.AppendUvarint(b, e.size), e.name...)
		b = binary.AppendUvarint(b, e.parent)
	}
	return b
}

func upTo(n int) (r []uint64) {
	for i := 0; i <= n; i++ {
		r = append(r, uint64(i))
	}
	return
}

func c17damages(s *hurt, thorough bool) []damage {
	var ds []damage
	add := func(name string, open, app bool, do func(c *C, s *hurt)) {
		ds = append(ds, damage{name, do, open, app, true})
	}
	read, all := s.files()
	for _, n := range all {
		n := n
		add(n+" missing", true, true, func(c *C, s *hurt) { must(env.Remove(s.p(n))) })
	}
	for _, n := range read {
		n := n
		full := s.data(n)
		l := len(full)
		cuts := map[int]bool{0: true, 1: true, l / 2: true, l - 1: true, l - 2: true, l - 3: true, l - 4: true, l - 5: true, l - 6: true, l - 7: true}
		if l < 700 {
			for i := 0; i < l; i++ {
				cuts[i] = true
			}
		}
		if thorough && env.Scale > 0 {
			for i := 0; i < l; i++ {
				cuts[i] = true
			}
		}
		for i := 4095; i <= 4097; i++ {
			cuts[i] = true
		}
		var cs []int
		for k := range cuts {
			if k >= 0 && k < l {
				cs = append(cs, k)
			}
		}
		sort.Ints(cs)
		for _, k := range cs {
			k := k
			if n == "cfg.json" && json.Valid([]byte(full[:k])) {
				continue // only the space at the end is missing
			}
			// (named from the end, as the length depends on the build)
			add(fmt.Sprintf("%s without its last %d bytes", n, l-k), true, true, func(c *C, s *hurt) {
				must(env.Truncate(s.p(n), int64(k)))
			})
		}
	}
	conf := func(name string, f func(m map[string]any)) {
		add("configuration with "+name, true, true, func(c *C, s *hurt) { s.editConfig(f) })
	}
	conf("an unknown tokenizer", func(m map[string]any) {
		m["TokenConfig"] = map[string]any{"Name": "words.clever"}
	})
	conf("no shards", func(m map[string]any) { m["NumShards"] = 0 })
	conf("negative shards", func(m map[string]any) { m["NumShards"] = -1 })
	conf("no workers", func(m map[string]any) { m["NumShatters"] = 0 })
	conf("no window", func(m map[string]any) { m["SeqLen"] = 0 })
	conf("inconsistent windows", func(m map[string]any) { m["SeqLen"] = 2 })
	conf("no flush rate", func(m map[string]any) { m["DocFlushRate"] = 0 })
	conf("a shard more", func(m map[string]any) { m["NumShards"] = s.f.Shards + 1 })
	conf("a text for a number", func(m map[string]any) { m["NumShards"] = "two" })
	for _, txt := range []string{"null", "{}", "[]", "x", "\x00\x00", "{\"NumShards\":1}", "0"} {
		txt := txt
		add(fmt.Sprintf("configuration %q", txt), true, true, func(c *C, s *hurt) { must(env.WriteFile(s.p("cfg.json"), []byte(txt))) })
	}
	for _, n := range read {
		n := n
		add(n+" is a directory", true, true, func(c *C, s *hurt) { must(env.Remove(s.p(n))); must(env.Mkdir(s.p(n))) })
	}
	// path tables that do not describe a tree
	ents := decodePaths(s.data("files.fnm"))
	n := len(ents)
	for i := range ents {
		for _, v := range append(upTo(n+1), 127, 128, 1<<16, 1<<31, 1<<32-1, 1<<32, 1<<63) {
			i, v := i, v
			if v < uint64(i) || i == 0 && v == 0 {
				continue
			}
			add(fmt.Sprintf("path %d below path %d", i, v), true, true, func(c *C, s *hurt) {
				m := append([]pathEnt{}, ents...)
				m[i].parent = v
				must(env.WriteFile(s.p("files.fnm"), encodePaths(uint64(n), m)))
			})
		}
	}
	for i := range ents {
		for _, v := range []uint64{1 << 8, 1 << 16, 1 << 32, 1 << 63} {
			i, v := i, v
			add(fmt.Sprintf("path %d of %d bytes", i, v), true, true, func(c *C, s *hurt) {
				m := append([]pathEnt{}, ents...)
				m[i].size = v
				must(env.WriteFile(s.p("files.fnm"), encodePaths(uint64(n), m)))
			})
		}
	}
	for _, v := range []uint64{0, uint64(n) + 1, 1 << 16, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 63} {
		v := v
		add(fmt.Sprintf("%d paths claimed, %d present", v, n), true, true, func(c *C, s *hurt) {
			must(env.WriteFile(s.p("files.fnm"), encodePaths(v, ents)))
		})
	}
	add("an empty directory", true, true, func(c *C, s *hurt) {
		must(env.RemoveAll(env.P(s.root)))
		must(env.Mkdir(env.P(s.root)))
	})
	add("a file in place of the index", true, true, func(c *C, s *hurt) {
		must(env.RemoveAll(env.P(s.root)))
		must(env.WriteFile(env.P(s.root), []byte("text")))
	})
	add("an unrelated directory", true, true, func(c *C, s *hurt) {
		must(env.RemoveAll(env.P(s.root)))
		must(env.Mkdir(env.P(s.root)))
		must(env.WriteFile(s.p("letter.txt"), []byte("dear")))
	})
	ds = append(ds, damage{"nothing there", func(c *C, s *hurt) { must(env.RemoveAll(env.P(s.root))) }, true, true, false})
	ds = append(ds, damage{"nothing wrong", func(c *C, s *hurt) {}, false, false, true})
	ds = append(ds, damage{"an index without its lock file", func(c *C, s *hurt) { env.Remove(env.P(s.root + ".lock")) }, false, false, true})
	return ds
}

func c17(t *T) {
	confs := []Cf{cf(1, 1, 2, 1, 1), cf(2, 2, 3, 1, 1)}
	if t.Thorough {
		confs = append(confs, cf(3, 1, 1, 2, 1), cf(1, 2, 16384, 1, 2))
	}
	for _, f := range confs {
		f := f
		// the damages depend on the files: in blocks, by name
		depth := 2
		for block := 0; block < 96; block++ {
			block := block
			t.Case(fmt.Sprintf("damages, %s, block %d", f, block), func(c *C) {
				// (the truncations of large files depend on the build)
				c.mute = true
				s := c.newHurt(f)
				for _, d := range c17damages(s, t.Thorough) {
					i := int(fnv1(d.name) % 96)
					if i != block {
						continue
					}
					ops := ""
					if d.open {
						ops += "R"
					}
					if d.app {
						ops += "A"
					}
					if d.create {
						ops += "C"
					}
					n := 0
					for l := 1; l <= depth; l++ {
						combos(len(ops), l, func(seq []int) {
							if l > 1 && !t.Thorough && (i+n)%4 != 0 && !strings.Contains(d.name, "missing") {
								n++
								return
							}
							s.restore()
							d.do(c, s)
							for _, o := range seq {
								c.failOp(ops[o], f, s.root, "with "+d.name)
							}
							s.works(c, n%3)
							n++
						})
					}
				}
				c.mute = false
				c.Note("block %d", block)
			})
		}
		t.Space("%s: every file missing, every truncation (or many of the large ones) of configuration, path table and blot tables, path tables that describe no tree, refused and unreadable configurations, other things in the place of the index: all sequences of 1..%d failing operations (open, append, create) without effect, then reading, appending or creating works", f, depth)
	}
	// creations that are refused
	bad := []struct {
		name string
		f    func(c *dupi.Config)
	}{
		{"no shards", func(c *dupi.Config) { c.NumShards = 0 }},
		{"negative shards", func(c *dupi.Config) { c.NumShards = -3 }},
		{"no workers", func(c *dupi.Config) { c.NumShatters = 0 }},
		{"no flush rate", func(c *dupi.Config) { c.DocFlushRate = 0 }},
		{"no window", func(c *dupi.Config) { c.SeqLen = 0; c.BlotConfig.SeqLen = 0 }},
		{"inconsistent windows", func(c *dupi.Config) { c.SeqLen = 5 }},
		{"an unknown tokenizer", func(c *dupi.Config) { c.TokenConfig.Name = "words.clever" }},
		{"no tokenizer", func(c *dupi.Config) { c.TokenConfig.Name = "" }},
		{"a root in a directory that is missing", func(c *dupi.Config) { c.IndexRoot = env.P("no/such/idx") }},
		{"a root in a file", func(c *dupi.Config) { c.IndexRoot = env.P("file/idx") }},
	}
	for _, f := range confs {
		for i := range bad {
			f, b := f, bad[i]
			t.Case(fmt.Sprintf("refused, %s, %s", f, b.name), func(c *C) {
				must(env.WriteFile(env.P("file"), []byte("x")))
				mk := func() error {
					g := f.config("idx")
					b.f(g)
					x, e := dupi.IndexerFromConfig(g)
					if e == nil {
						x.Close()
					}
					return e
				}
				c.failing("creating with "+b.name, mk)
				c.failing("creating again with "+b.name, mk)
				if _, e := env.Stat(env.P("idx")); e == nil {
					c.Fail("a refused creation left a directory")
				}
				s := c.newHurt(f) // it can be created at once
				c.failing("creating over an index with "+b.name, mk)
				x := c.open("idx")
				c.checkAll(x, s.r, env.P("idx"))
				c.closeIndex(x)
				c.Note("refused")
			})
		}
		t.Space("%s: %d refused configurations, before and after an index is there", f, len(bad))
	}
	for _, p := range [][2]string{{"no/such/idx", "missing parent"}, {"file/idx", "a file as parent"}} {
		p := p
		t.Case("parent: "+p[1], func(c *C) {
			must(env.WriteFile(env.P("file"), []byte("x")))
			for i := range failOps {
				c.failOp(failOps[i], cf(1, 1, 2, 1, 1), p[0], p[1])
			}
			c.Note("ok")
		})
	}
}
