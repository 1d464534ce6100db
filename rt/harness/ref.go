//go:build go1.21

package main

import (
	"fmt"
	"math"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/blotter"
	"github.com/go-air/dupi/zz_verif/env"
)

// The reference model: what the index should say, computed the boring way.

type rTok struct {
	word bool
	pos  int // in the text
	lit  string
}

func refTokens(text string) []rTok {
	if !utf8.ValidString(text) {
		return nil
	}
	var res []rTok
	for i, r := range text {
		w := unicode.IsLetter(r) || unicode.IsDigit(r)
		if n := len(res); n > 0 && res[n-1].word == w {
			continue
		}
		if n := len(res); n > 0 {
			res[n-1].lit = text[res[n-1].pos:i]
		}
		res = append(res, rTok{w, i, ""})
	}
	if n := len(res); n > 0 {
		res[n-1].lit = text[res[n-1].pos:]
	}
	return res
}

func refWords(text string) []rTok {
	var res []rTok
	for _, t := range refTokens(text) {
		if t.word {
			res = append(res, t)
		}
	}
	return res
}

func fnv1(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h *= 16777619
		h ^= uint32(s[i])
	}
	return h
}

func lower(s string) string {
	return strings.Map(unicode.ToLower, s)
}

// Cf is a configuration of the alphabet.
type Cf struct {
	Shards, Shatters, Flush int
	Per, Inter              int // window: Per words at distance Inter
}

func (f Cf) seq() int { return f.Per * f.Inter }

func (f Cf) String() string {
	return fmt.Sprintf("shards=%d workers=%d flush=%d window=%dx%d", f.Shards, f.Shatters, f.Flush, f.Per, f.Inter)
}

func cf(shards, shatters, flush, per, inter int) Cf {
	return Cf{shards, shatters, flush, per, inter}
}

func (f Cf) config(root string) *dupi.Config {
	cfg, e := dupi.DefaultConfig(root)
	if e != nil {
		panic("DefaultConfig: " + e.Error())
	}
	cfg.NumShards = f.Shards
	cfg.NumShatters = f.Shatters
	cfg.DocFlushRate = f.Flush
	cfg.SeqLen = f.seq()
	cfg.BlotConfig = blotter.Config{SeqLen: f.Per, Interleave: f.Inter}
	return cfg
}

// one window: blot modulo the number of blots, and its byte range in the text
type rWin struct {
	blot       uint32
	full       uint32
	start, end int // from the word before the window to its last word
	wordStart  int
}

func (f Cf) windows(text string) []rWin {
	ws := refWords(text)
	h := make([]uint32, len(ws))
	for i := range ws {
		h[i] = fnv1(lower(ws[i].lit))
	}
	var res []rWin
	k := f.seq()
	for i := k; i < len(ws); i++ {
		b := uint32(0)
		for j := 0; j < f.Per; j++ {
			b ^= h[i-j*f.Inter]
		}
		res = append(res, rWin{b % (uint32(f.Shards) << 16), b, ws[i-k].pos, ws[i].pos + len(ws[i].lit), ws[i].pos})
	}
	return res
}

// rDoc is a document as the reference sees it.
type rDoc struct {
	path       string // as given
	start, end uint32
	text       string
}

func (d rDoc) String() string {
	return fmt.Sprintf("%s[%d:%d] %.60q", d.path, d.start, d.end, d.text)
}

func doc(i int, text string) rDoc {
	return rDoc{fmt.Sprintf("/d/%d", i), uint32(i), uint32(i + len(text)), text}
}

// Ref is the reference index.
type Ref struct {
	f     Cf
	docs  []rDoc
	posts map[uint32][]int // blot -> documents in order
	abs   []string
	nodes map[string]bool
}

func newRef(f Cf) *Ref {
	return &Ref{f: f, posts: map[uint32][]int{}, nodes: map[string]bool{"/": true}}
}

func (r *Ref) add(d rDoc, wd string) {
	i := len(r.docs)
	r.docs = append(r.docs, d)
	p := d.path
	if !filepath.IsAbs(p) {
		p = wd + "/" + p
	}
	p = filepath.Clean(p)
	r.abs = append(r.abs, p)
	for q := p; ; q = filepath.Dir(q) {
		if q == "/" {
			break
		}
		r.nodes[q] = true
	}
	if p == "/" {
		r.nodes["//"] = true
	}
	seen := map[uint32]bool{}
	for _, w := range r.f.windows(d.text) {
		if !seen[w.blot] {
			seen[w.blot] = true
			r.posts[w.blot] = append(r.posts[w.blot], i)
		}
	}
}

func (r *Ref) nposts() (n int) {
	for _, p := range r.posts {
		n += len(p)
	}
	return
}

func (r *Ref) stats(root string) dupi.Stats {
	nb := float64(r.f.Shards) * 65536
	st := dupi.Stats{Root: root, NumDocs: uint64(len(r.docs)), NumPaths: uint64(len(r.nodes)),
		NumPosts: uint64(r.nposts()), NumBlots: uint64(r.f.Shards) << 16}
	st.BlotMean = float64(st.NumPosts) / nb
	s := 0.0
	for _, p := range r.posts {
		d := st.BlotMean - float64(len(p))
		s += d * d
	}
	s += (nb - float64(len(r.posts))) * st.BlotMean * st.BlotMean
	st.BlotSigma = math.Sqrt(s / nb)
	return st
}

func (r *Ref) blots() []uint32 {
	var b []uint32
	for k := range r.posts {
		b = append(b, k)
	}
	sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
	return b
}

// is d the record of document i?
func (r *Ref) isDoc(i int, d *dupi.Doc) bool {
	return d.Path == r.abs[i] && d.Start == r.docs[i].start && d.End == r.docs[i].end && d.Dat == nil
}

func recs(ds []dupi.Doc) string {
	var s []string
	for i := range ds {
		s = append(s, fmt.Sprintf("%s[%d:%d]", env.Norm(ds[i].Path), ds[i].Start, ds[i].End))
		if i > 12 {
			s = append(s, "...")
			break
		}
	}
	return fmt.Sprintf("%d docs: %s", len(ds), strings.Join(s, " "))
}

func (r *Ref) want(is []int) string {
	var s []string
	for n, i := range is {
		s = append(s, fmt.Sprintf("%s[%d:%d]", env.Norm(r.abs[i]), r.docs[i].start, r.docs[i].end))
		if n > 12 {
			s = append(s, "...")
			break
		}
	}
	return fmt.Sprintf("%d docs: %s", len(is), strings.Join(s, " "))
}

// ---- driving the library

func toDoc(d rDoc) *dupi.Doc {
	return &dupi.Doc{Path: d.path, Start: d.start, End: d.end, Dat: []byte(d.text)}
}

func (c *C) create(f Cf, root string) *dupi.Indexer {
	c.Call()
	x, e := dupi.IndexerFromConfig(f.config(root))
	if e != nil {
		c.Fail("creating the index (%s): %v", f, e)
	}
	return x
}

func (c *C) reopen(root string) *dupi.Indexer {
	c.Call()
	x, e := dupi.OpenIndexer(root)
	if e != nil {
		c.Fail("opening the index for appending: %v", e)
	}
	return x
}

func (c *C) add(x *dupi.Indexer, r *Ref, d rDoc) {
	c.Call()
	if e := x.Add(toDoc(d)); e != nil {
		c.Fail("adding %s: %v", d, e)
	}
	if r != nil {
		r.add(d, env.W())
	}
}

func (c *C) closeIndexer(x *dupi.Indexer) {
	c.Call()
	if e := x.Close(); e != nil {
		c.Fail("closing the indexer: %v", e)
	}
}

func (c *C) open(root string) *dupi.Index {
	c.Call()
	x, e := dupi.OpenIndex(root)
	if e != nil {
		c.Fail("opening the index: %v", e)
	}
	return x
}

func (c *C) closeIndex(x *dupi.Index) {
	c.Call()
	if e := x.Close(); e != nil {
		c.Fail("closing the index: %v", e)
	}
}

// build makes an index of docs in one session and opens it.
func (c *C) build(f Cf, root string, docs []rDoc) (*dupi.Index, *Ref) {
	r := newRef(f)
	x := c.create(f, root)
	for _, d := range docs {
		c.add(x, r, d)
	}
	c.closeIndexer(x)
	return c.open(root), r
}

// get looks a blot up.
func (c *C) get(x *dupi.Index, b uint32) []dupi.Doc {
	c.Call()
	q := x.StartQuery(dupi.QueryMaxBlot)
	bl := &dupi.Blot{Blot: b}
	if e := q.Get(bl); e != nil {
		c.Fail("looking up blot %#x: %v", b, e)
	}
	return bl.Docs
}

// checkGet compares the lookup of b with the reference.
func (c *C) checkGet(x *dupi.Index, r *Ref, b uint32) {
	ds := c.get(x, b)
	want := r.posts[b]
	ok := len(ds) == len(want)
	for i := 0; ok && i < len(ds); i++ {
		ok = r.isDoc(want[i], &ds[i])
	}
	if !ok {
		c.Fail("lookup of blot %#x: got %s, want %s", b, recs(ds), r.want(want))
	}
	c.Eval(1)
}

// near are blots that the index does not have, next to those it has.
func (r *Ref) absent() []uint32 {
	n := uint32(r.f.Shards) << 16
	m := map[uint32]bool{}
	put := func(b uint32) {
		b %= n
		if env.Scale > 0 && b/uint32(r.f.Shards) >= uint32(env.Scale) {
			return
		}
		if r.posts[b] == nil {
			m[b] = true
		}
	}
	put(0)
	put(n - 1)
	put(n / 2)
	for b := range r.posts {
		if len(m) > 200 {
			break
		}
		put(b + 1)
		put(b + n - 1)
		put(b + uint32(r.f.Shards))
		put(b ^ 1<<15)
	}
	var l []uint32
	for b := range m {
		l = append(l, b)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

// checkLookups compares the lookups of every blot with the reference.
func (c *C) checkLookups(x *dupi.Index, r *Ref) {
	bs := r.blots()
	for _, b := range bs {
		c.checkGet(x, r, b)
	}
	for _, b := range r.absent() {
		c.checkGet(x, r, b)
	}
	c.Note("%d blots %d posts", len(bs), r.nposts())
	h := uint32(0)
	for _, b := range bs {
		h = h*31 + b
		for _, i := range r.posts[b] {
			h = h*31 + uint32(i)
		}
	}
	c.Note("content %08x", h)
}

// extraction runs a query to the end.
func (c *C) extract(x *dupi.Index, batch int) []dupi.Blot {
	q := x.StartQuery(dupi.QueryMaxBlot)
	var res []dupi.Blot
	for i := 0; ; i++ {
		dst := make([]dupi.Blot, batch)
		c.Call()
		n, e := q.Next(dst)
		if n < 0 || n > batch {
			c.Fail("extraction returned %d of %d", n, batch)
		}
		res = append(res, dst[:n]...)
		if e != nil {
			if e.Error() != "EOF" {
				c.Fail("extraction: %v", e)
			}
			if n != 0 {
				c.Fail("extraction reported the end along with %d results", n)
			}
			return res
		}
		if n == 0 {
			c.Fail("extraction returned nothing without reporting the end")
		}
		if len(res) > 200000 {
			c.Fail("extraction does not end")
		}
	}
}

// checkExtract compares a whole extraction with the reference.
func (c *C) checkExtract(r *Ref, res []dupi.Blot) {
	seen := map[uint32]bool{}
	for i := range res {
		b := &res[i]
		if seen[b.Blot] {
			c.Fail("extraction returned blot %#x twice", b.Blot)
		}
		seen[b.Blot] = true
		want := r.posts[b.Blot]
		ok := len(b.Docs) == len(want)
		for j := 0; ok && j < len(want); j++ {
			ok = r.isDoc(want[j], &b.Docs[j])
		}
		if !ok {
			c.Fail("extraction of blot %#x: got %s, want %s", b.Blot, recs(b.Docs), r.want(want))
		}
		if len(want) < 2 {
			c.Fail("extraction returned blot %#x that only %d documents have", b.Blot, len(want))
		}
	}
	for _, b := range r.blots() {
		if len(r.posts[b]) >= 2 && !seen[b] {
			c.Fail("extraction missed blot %#x with %s", b, r.want(r.posts[b]))
		}
	}
	c.Eval(len(res))
}

func near(a, b float64) bool {
	return math.Abs(a-b) <= 1e-9*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}

func (c *C) stats(x *dupi.Index, r *Ref, root string) dupi.Stats {
	c.Call()
	st, e := x.Stats()
	if e != nil {
		c.Fail("statistics: %v", e)
	}
	w := r.stats(root)
	if env.Scale > 0 { // the figures are computed with the true number of blots
		st.BlotMean, st.BlotSigma = w.BlotMean, w.BlotSigma
	}
	if st.Root != w.Root || st.NumDocs != w.NumDocs || st.NumPaths != w.NumPaths || st.NumPosts != w.NumPosts || st.NumBlots != w.NumBlots ||
		!near(st.BlotMean, w.BlotMean) || !near(st.BlotSigma, w.BlotSigma) {
		c.Fail("statistics: got %+v, want %+v", *st, w)
	}
	c.Eval(1)
	return w
}

// checkStatsQuiet is for concurrent use.
func (c *C) checkStatsQuiet(x *dupi.Index, r *Ref) { c.stats(x, r, x.Root()) }

func (c *C) checkStats(x *dupi.Index, r *Ref, root string) {
	w := c.stats(x, r, root)
	// (the number of paths depends on the depth of the working directory)
	c.Note("%d docs %d posts sigma %.6g", w.NumDocs, w.NumPosts, w.BlotSigma)
}

// checkAll compares everything an open index says with the reference.
func (c *C) checkAll(x *dupi.Index, r *Ref, root string) {
	c.checkLookups(x, r)
	c.checkExtract(r, c.extract(x, 3))
	c.checkStats(x, r, root)
}

// ---- words whose blot is known (window of one word)

type wordTable struct {
	n    uint32
	next int
	m    map[uint32]string
}

var tables = map[int]*wordTable{}

// wordFor returns a word with the given blot in an index of the given number
// of shards (window length 1); the variant-th such word.
func wordFor(shards int, blot uint32) string {
	t := tables[shards]
	if t == nil {
		t = &wordTable{n: uint32(shards) << 16, m: map[uint32]string{}}
		tables[shards] = t
	}
	blot %= t.n
	for {
		if w, ok := t.m[blot]; ok {
			return w
		}
		w := nthWord(t.next)
		t.next++
		b := fnv1(w) % t.n
		if _, ok := t.m[b]; !ok {
			t.m[b] = w
		}
	}
}

func nthWord(i int) string {
	s := []byte{}
	for {
		s = append(s, byte('a'+i%26))
		i /= 26
		if i == 0 {
			break
		}
		i--
	}
	return string(s)
}

var lows []string

// low returns the i-th of some words whose hashes, and the XORs of them, are
// below 256 modulo 1<<20: the windows of any of them have blots in the part of
// the tables that is there when these are small, for 1, 2, 4, 8 and 16 shards.
func low(i int) string {
	if lows == nil {
		seen := map[uint32]bool{}
		for j := 0; len(lows) < 64; j++ {
			w := nthWord(j)
			if h := fnv1(w) & (1<<20 - 1); h < 256 && !seen[h] {
				seen[h] = true
				lows = append(lows, w)
			}
		}
	}
	return lows[i%64]
}

// blotDoc is the text of a document with exactly these blots (window 1x1).
func blotText(shards int, blots ...uint32) string {
	s := make([]byte, 0, 16+8*len(blots))
	s = append(s, "zero"...)
	for _, b := range blots {
		s = append(append(s, ' '), wordFor(shards, b)...)
	}
	return string(s)
}

// combos calls f with every sequence of n values below k.
func combos(k, n int, f func(s []int)) {
	s := make([]int, n)
	for {
		f(s)
		i := n - 1
		for i >= 0 {
			s[i]++
			if s[i] < k {
				break
			}
			s[i] = 0
			i--
		}
		if i < 0 {
			return
		}
	}
}

// upto calls f with every sequence of at most n values below k.
func upto(k, n int, f func(s []int)) {
	for i := 0; i <= n; i++ {
		combos(k, i, f)
	}
}
