//go:build go1.21

package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"github.com/go-air/dupi/zz_verif/env"
)

func init() { checks["C28"] = c28 }

// An encoder of the released format, written from its description: it takes
// the sessions of an index and gives the files.

type encPoster struct {
	head, link int64
	cur, total uint32
	buf        []byte
}

type encoder struct {
	f     Cf
	root  string
	shard [][]*encPoster // by shard, then by local blot
	pos   [][]byte
	dmd   []byte
	names []string
	par   []int
	kids  []map[string]int
	ndocs uint32
}

func newEncoder(f Cf, root string) *encoder {
	e := &encoder{f: f, root: root, names: []string{""}, par: []int{0}, kids: []map[string]int{{}}}
	e.dmd = make([]byte, 12) // number 0 is not used
	for s := 0; s < f.Shards; s++ {
		l := make([]*encPoster, 1<<16)
		for i := range l {
			l[i] = &encPoster{head: -1, link: -1}
		}
		e.shard = append(e.shard, l)
		e.pos = append(e.pos, nil)
	}
	return e
}

func (e *encoder) add(d rDoc, wd string) {
	p := d.path
	if !filepath.IsAbs(p) {
		p = wd + "/" + p
	}
	n := 0
	for _, c := range strings.Split(filepath.Clean(p), "/")[1:] {
		k, ok := e.kids[n][c]
		if !ok {
			k = len(e.names)
			e.names = append(e.names, c)
			e.par = append(e.par, n)
			e.kids = append(e.kids, map[string]int{})
			e.kids[n][c] = k
		}
		n = k
	}
	e.ndocs++
	e.dmd = binary.BigEndian.AppendUint32(e.dmd, uint32(n))
	e.dmd = binary.BigEndian.AppendUint32(e.dmd, d.start)
	e.dmd = binary.BigEndian.AppendUint32(e.dmd, d.end)
	for _, w := range e.f.windows(d.text) {
		s, v := int(w.full%uint32(e.f.Shards)), w.full/uint32(e.f.Shards)&0xffff
		q := e.shard[s][v]
		if q.total > 0 && q.cur == e.ndocs {
			continue
		}
		q.buf = binary.AppendUvarint(q.buf, uint64(e.ndocs-q.cur))
		q.cur = e.ndocs
		q.total++
		if len(q.buf) >= 512 {
			e.chunk(s, q)
		}
	}
}

func (e *encoder) chunk(s int, q *encPoster) {
	if len(q.buf) == 0 {
		return
	}
	at := int64(len(e.pos[s]))
	if q.link >= 0 {
		binary.BigEndian.PutUint64(e.pos[s][q.link:], uint64(at))
	} else {
		q.head = at
	}
	e.pos[s] = binary.AppendVarint(e.pos[s], int64(len(q.buf)+8))
	e.pos[s] = append(e.pos[s], q.buf...)
	q.link = int64(len(e.pos[s]))
	e.pos[s] = binary.BigEndian.AppendUint64(e.pos[s], 1<<64-1)
	q.buf = nil
}

func (e *encoder) endSession() {
	for s := range e.shard {
		for _, q := range e.shard[s] {
			e.chunk(s, q)
		}
	}
}

func (e *encoder) files() map[string][]byte {
	m := map[string][]byte{"dmd": e.dmd}
	fn := binary.AppendUvarint(nil, uint64(len(e.names)))
	for i, n := range e.names {
		fn = binary.AppendUvarint(fn, uint64(len(n)))
		fn = append(fn, n...)
		fn = binary.AppendUvarint(fn, uint64(e.par[i]))
	}
	m["files.fnm"] = fn
	for s := range e.shard {
		var b []byte
		for _, q := range e.shard[s] {
			b = binary.AppendVarint(b, q.head)
			b = binary.AppendVarint(b, int64(q.total))
			b = binary.BigEndian.AppendUint32(b, q.cur)
		}
		m[fmt.Sprintf("b%d.pos.iix", s)] = b
		m[fmt.Sprintf("b%d.pos", s)] = e.pos[s]
	}
	m["cfg.json"] = e.cfg()
	return m
}

func (e *encoder) cfg() []byte {
	root, _ := json.Marshal(e.root)
	return []byte(fmt.Sprintf(`{
	"IndexRoot": %s,
	"SeqLen": %d,
	"NumShards": %d,
	"NumShatters": %d,
	"DocFlushRate": %d,
	"TokenConfig": {
		"Name": "words.simple"
	},
	"BlotConfig": {
		"SeqLen": %d,
		"Interleave": %d
	}
}
`, root, e.f.seq(), e.f.Shards, e.f.Shatters, e.f.Flush, e.f.Per, e.f.Inter))
}

type history struct {
	key  string
	f    Cf
	docs []rDoc
	cuts map[int]bool // a new session begins before this document
}

func c28(t *T) {
	var hs []history
	vocab := []string{"ab", "CD", "é9"}
	fs := []Cf{cf(1, 1, 4, 1, 1), cf(2, 2, 2, 2, 1), cf(3, 3, 1, 1, 2), cf(2, 1, 3, 2, 2)}
	if t.Thorough {
		fs = append(fs, cf(5, 2, 7, 3, 1), cf(4, 4, 100, 1, 1))
	}
	for _, f := range fs {
		var docs []rDoc
		upto(3, min(f.seq()+2, 6), func(s []int) {
			d := doc(len(docs), text(vocab, s))
			d.path = []string{"/d/a", "/d/b/c", "rel", "/e", "sub/../rel2"}[len(docs)%5]
			docs = append(docs, d)
		})
		if len(docs) > 800 {
			docs = docs[:800]
		}
		for _, cuts := range [][]int{{}, {1}, {2, 3}, {len(docs) / 2}, {5, 6, 7, len(docs) - 1}} {
			m := map[int]bool{}
			for _, k := range cuts {
				m[k] = true
			}
			hs = append(hs, history{fmt.Sprintf("texts cuts %v %s", cuts, f), f, docs, m})
		}
	}
	// incidence relations with every session split
	l := layouts[1]
	nd, nb := 3, 2
	if t.Thorough {
		nb = 3
	}
	for bits := 0; bits < 1<<(nd*nb); bits++ {
		for split := 0; split < 1<<nd; split++ {
			m := map[int]bool{}
			for i := 0; i < nd; i++ {
				m[i] = split>>i&1 != 0
			}
			if !t.Thorough && (bits+split)%4 != 0 {
				continue
			}
			hs = append(hs, history{fmt.Sprintf("incidence %x split %x", bits, split), cf(l.shards, 1+bits%2, 1+split%3, 1, 1), incDocs(l, nd, nb, bits), m})
		}
	}
	// long lists
	for _, n := range []int{511, 512, 513, 1100, 20000} {
		for _, w := range []int{1, 3} {
			var docs []rDoc
			for i := 0; i < n; i++ {
				bs := []uint32{3}
				if i%2 == 0 {
					bs = append(bs, 70000)
				}
				if i%200 == 7 {
					bs = append(bs, 5)
				}
				docs = append(docs, rDoc{fmt.Sprintf("/p/%d", i%300), uint32(i), uint32(i * 3), blotText(2, bs...)})
			}
			hs = append(hs, history{fmt.Sprintf("long %d workers %d", n, w), cf(2, w, 1000, 1, 1), docs, map[int]bool{n / 2: true, 600: true}})
		}
	}
	t.Space("%d histories (all short texts in several sessions; all incidence relations of %d documents and %d blots with session splits; lists of up to 20000 ids): the files of the index compared byte by byte with an encoder written from the format, the encoder's files read, and appended to by the current code", len(hs), nd, nb)
	for _, h := range hs {
		h := h
		t.Case(h.key, func(c *C) { format(c, h) })
	}
	// chunk boundary patterns as in the posting check
	t.Space("names and extents at encoding limits")
	t.Case("limits", func(c *C) {
		var docs []rDoc
		for i, n := range []int{1, 126, 127, 128, 129, 16383, 16384, 300} {
			docs = append(docs, rDoc{"/" + strings.Repeat("n", n) + "/x", []uint32{0, 1, 255, 256, 1 << 16, 1 << 24, 1 << 31, 1<<32 - 1}[i], 1<<32 - 1 - uint32(i), blotText(1, uint32(i))})
		}
		for i := 0; i < 200; i++ {
			docs = append(docs, rDoc{fmt.Sprintf("/many/%d", i), 1, 2, blotText(1, 9)})
		}
		format(c, history{"", cf(1, 2, 50, 1, 1), docs, map[int]bool{4: true, 100: true}})
	})
}

func format(c *C, h history) {
	r := newRef(h.f)
	enc := newEncoder(h.f, env.P("idx"))
	x := c.create(h.f, "idx")
	var mid map[string][]byte
	for i, d := range h.docs {
		if h.cuts[i] {
			c.closeIndexer(x)
			enc.endSession()
			mid = enc.files()
			c.sameFiles("idx", mid, fmt.Sprintf("after %d of %d documents", i, len(h.docs)))
			x = c.reopen("idx")
		}
		c.add(x, r, d)
		enc.add(d, env.W())
	}
	c.closeIndexer(x)
	enc.endSession()
	want := enc.files()
	c.sameFiles("idx", want, "at the end")
	// the released version's files, read by this version
	env.Mkdir(env.P("old"))
	for n, b := range want {
		if e := env.WriteFile(env.P("old/"+n), b); e != nil {
			panic(e)
		}
	}
	y := c.open("old")
	c.checkAll(y, r, y.Root())
	c.closeIndex(y)
	// and appended to
	z := c.reopen("old")
	x = c.reopen("idx")
	for i := 0; i < 3; i++ {
		d := rDoc{"/late/" + fmt.Sprint(i), uint32(i), 9, h.docs[len(h.docs)-1-i%len(h.docs)].text}
		c.add(z, r, d)
		c.add(x, nil, d)
		enc.add(d, env.W())
	}
	c.closeIndexer(z)
	c.closeIndexer(x)
	enc.endSession()
	enc.root = env.P("old")
	c.sameFiles("old", enc.files(), "after appending to the encoder's files")
	enc.root = env.P("idx")
	c.sameFiles("idx", enc.files(), "after appending")
	y = c.open("old")
	c.checkLookups(y, r)
	c.closeIndex(y)
}

func (c *C) sameFiles(dir string, want map[string][]byte, when string) {
	got := env.Snapshot(env.P(dir))
	var names []string
	for n := range want {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		g, ok := got[env.P(dir+"/"+n)]
		w := "file " + string(want[n])
		if !ok {
			c.Fail("%s: %s is missing", when, n)
		}
		if g != w {
			i := 0
			for i < len(g) && i < len(w) && g[i] == w[i] {
				i++
			}
			c.Fail("%s: %s has %d bytes and differs from the format's %d bytes at %d: %x, want %x", when, n, len(g)-5, len(w)-5, i-5, part(g, i), part(w, i))
		}
		c.Eval(1)
	}
	for n := range got {
		n = strings.TrimPrefix(n, env.P(dir)+"/")
		if _, ok := want[n]; n != "" && !ok {
			c.Fail("%s: there is a file %s", when, n)
		}
	}
	c.Note("%d files", len(names))
}

func part(s string, i int) string {
	if i > len(s) {
		i = len(s)
	}
	s = s[i:]
	if len(s) > 16 {
		s = s[:16]
	}
	return s
}
