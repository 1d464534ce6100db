//go:build go1.21

package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"regexp"
	"runtime"
	"sort"
	"strings"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/zz_verif/env"
)

func init() { checks["C32"] = c32 }

// rotten is an index of which one file is changed.
type rotten struct {
	*hurt
	f    Cf
	long bool
}

func (c *C) newRotten(f Cf, long bool) *rotten {
	s := &rotten{hurt: &hurt{f: f, r: newRef(f), root: "idx"}, f: f, long: long}
	x := c.create(f, s.root)
	n := 5
	if long { // lists of several chunks
		n = 1100
	}
	for i := 0; i < n; i++ {
		var b []uint32
		if long {
			b = append(b, 5*uint32(f.Shards))
			if i%2 == 1 {
				b = append(b, 9*uint32(f.Shards))
			}
		}
		if i < 5 {
			for k := 0; k <= i%3; k++ {
				b = append(b, jb(f.Shards, (i+k)%f.Shards, []int{0, 5, 9, 100, 255}[(2*i+3*k)%5]))
			}
		}
		c.add(x, s.r, doc(i%7, blotText(f.Shards, b...)))
		if i == 2 {
			c.closeIndexer(x)
			x = c.reopen(s.root)
		}
	}
	c.closeIndexer(x)
	s.good = env.Snapshot(env.P(s.root))
	return s
}

// rot is a changed file.
type rot struct {
	name, file string
	data       []byte
}

type iixEntry struct {
	head, count int64
	last        uint32
}

func decodeIix(b []byte) (es []iixEntry) {
	for len(b) > 0 {
		var e iixEntry
		var n int
		e.head, n = binary.Varint(b)
		b = b[n:]
		e.count, n = binary.Varint(b)
		b = b[n:]
		e.last = binary.BigEndian.Uint32(b)
		b = b[4:]
		es = append(es, e)
	}
	return
}

func encodeIix(es []iixEntry) (b []byte) {
	for _, e := range es {
		b = binary.AppendVarint(b, e.head)
		b = binary.AppendVarint(b, e.count)
		b = binary.BigEndian.AppendUint32(b, e.last)
	}
	return
}

// chunks gives the places of the chunks of a posting file, and of their links.
func chunksOf(b []byte) (at, link []int) {
	for i := 0; i < len(b); {
		v, n := binary.Varint(b[i:])
		if n <= 0 || v <= 8 {
			return
		}
		at = append(at, i)
		i += n + int(v)
		link = append(link, i-8)
	}
	return
}

// rots lists the changes of a file.
func (s *rotten) rots(file string, full bool) (rs []rot) {
	b := []byte(s.data(file))
	put := func(d []byte, f string, a ...any) { rs = append(rs, rot{fmt.Sprintf(f, a...), file, d}) }
	iix := strings.HasSuffix(file, ".iix")
	pos := strings.HasSuffix(file, ".pos")
	// single bytes
	want := func(i int) bool { return true }
	if len(b) > 600 {
		near := map[int]bool{}
		mark := func(i int) {
			for k := -3; k < 12; k++ {
				near[i+k] = true
			}
		}
		if iix {
			o := 0
			for _, e := range decodeIix(b) {
				if e.count > 0 || o == 0 {
					mark(o)
				}
				o += len(encodeIix([]iixEntry{e}))
			}
		}
		if pos {
			at, link := chunksOf(b)
			for i := range at {
				mark(at[i])
				mark(link[i])
			}
		}
		mark(0)
		mark(len(b))
		want = func(i int) bool { return near[i] || full && i%7 == 0 }
	}
	for i := range b {
		if !want(i) {
			continue
		}
		seen := map[byte]bool{b[i]: true}
		for _, v := range []byte{0, 1, 0x7f, 0x80, 0xff, b[i] ^ 1, b[i] ^ 0x80, b[i] + 1, b[i] - 1, '9', '-', b[i] ^ 2, b[i] ^ 8} {
			if seen[v] || (v == '9' || v == '-') && file != "cfg.json" {
				continue
			}
			seen[v] = true
			d := append([]byte{}, b...)
			d[i] = v
			put(d, "%#02x in place of %#02x at %d", v, b[i], i)
		}
		if i < 600 || full {
			d := append([]byte{}, b[:i]...)
			put(d, "only %d bytes", i)
			put(append(d, b[i+1:]...), "byte %d left out", i)
			put(append(append(append([]byte{}, b[:i]...), b[i]), b[i:]...), "byte %d twice", i)
		}
	}
	for _, k := range []int{1, 7, 12, 13, 4096} {
		d := append([]byte{}, b...)
		for j := 0; j < k; j++ {
			d = append(d, byte(j*37))
		}
		if file != "cfg.json" {
			put(d, "%d more bytes", k)
		}
	}
	// numbers
	var places []int64
	if pos || iix {
		p := []byte(s.data(strings.TrimSuffix(file, ".iix")))
		at, link := chunksOf(p)
		for i := range at {
			for k := -1; k <= 2; k++ {
				places = append(places, int64(at[i]+k), int64(link[i]+k))
			}
		}
		if len(p) < 300 {
			for i := range p {
				places = append(places, int64(i))
			}
		}
		places = append(places, -1, -2, -9, int64(len(p)), int64(len(p)+1), int64(len(p)+9), 1<<31, 1<<32, 1<<62, -1<<63, 1<<63-1)
	}
	if pos {
		at, link := chunksOf(b)
		for i, l := range link {
			for _, v := range places {
				if uint64(v) == binary.BigEndian.Uint64(b[l:]) {
					continue
				}
				d := append([]byte{}, b...)
				binary.BigEndian.PutUint64(d[l:], uint64(v))
				put(d, "link %d is %d", i, v)
			}
			_, n := binary.Varint(b[at[i]:])
			// posts all of one byte, some of which are no posts at all, that
			// lead on as before, to themselves, or to another chunk
			for _, k := range []byte{0, 1, 0x80, 0xff} {
				d := append([]byte{}, b...)
				for j := at[i] + n; j < l; j++ {
					d[j] = k
				}
				put(d, "posts of chunk %d are all %#02x", i, k)
				for j := range at {
					if (i-j)*(i-j) <= 1 || j == 0 {
						d := append([]byte{}, d...)
						binary.BigEndian.PutUint64(d[l:], uint64(at[j]))
						put(d, "posts of chunk %d are all %#02x, its link is chunk %d", i, k, j)
					}
				}
			}
			for _, v := range []int64{0, 1, 7, 8, 9, 10, 528, 529, 530, 531, 540, 541, 542, 1 << 12, 1 << 20, 1 << 31, 1 << 40, 1 << 62, 1<<63 - 1, -1, -8, -9, -1 << 31, -1 << 63} {
				d := append([]byte{}, b[:at[i]]...)
				d = append(binary.AppendVarint(d, v), b[at[i]+n:]...)
				put(d, "chunk %d has length %d", i, v)
			}
		}
	}
	if iix {
		es := decodeIix(b)
		free := false
		for i := range es {
			if es[i].count == 0 {
				if free && i != len(es)-1 {
					continue
				}
				free = true
			}
			for _, v := range places {
				if v != es[i].head {
					d := append([]iixEntry{}, es...)
					d[i].head = v
					put(encodeIix(d), "head of %d is %d", i, v)
				}
			}
			n := es[i].count
			for _, v := range []int64{0, 1, 2, n - 1, n + 1, 1 << 16, 1 << 31, 1<<32 - 1, 1 << 32, -1, -1 << 63} {
				if v != n {
					d := append([]iixEntry{}, es...)
					d[i].count = v
					put(encodeIix(d), "count of %d is %d", i, v)
				}
			}
			for _, v := range []uint32{0, 1, es[i].last - 1, es[i].last + 1, 1 << 16, 1<<32 - 1} {
				if v != es[i].last {
					d := append([]iixEntry{}, es...)
					d[i].last = v
					put(encodeIix(d), "last id of %d is %d", i, v)
				}
			}
		}
	}
	if file == "dmd" {
		for i := 0; i+12 <= len(b) && (i < 12*9 || full && len(b) < 20000); i += 12 {
			for k := 0; k < 3; k++ {
				for _, v := range []uint32{0, 1, 2, 3, 4, 5, 6, 127, 128, 1 << 31, 1<<32 - 1} {
					d := append([]byte{}, b...)
					binary.BigEndian.PutUint32(d[i+4*k:], v)
					put(d, "field %d of record %d is %d", k, i/12, v)
				}
			}
		}
	}
	if file == "cfg.json" {
		for field, vs := range map[string][]int{
			"NumShards":    {-1, 0, 1, 2, 3, 4, 5, 100, 10000, 65535, 65536, 1 << 32, 1 << 62},
			"NumShatters":  {-1, 0, 1, 2, 3, 20},
			"DocFlushRate": {-1, 0, 1, 2, 3, 1 << 20, 1 << 31, 1 << 32, 1<<32 + 1, 1 << 40, 1 << 45, 1 << 62},
			"SeqLen":       {-1, 0, 1, 2, 3, 1 << 31, 1 << 62},
			"Interleave":   {-1, 0, 1, 2, 3, 1 << 31, 1 << 62},
		} {
			re := regexp.MustCompile("\"" + field + "\": *-?[0-9]+")
			for i, at := range re.FindAllIndex(b, -1) {
				for _, v := range vs {
					put([]byte(fmt.Sprintf("%s%q: %d%s", b[:at[0]], field, v, b[at[1]:])), "%s (%d) is %d", field, i, v)
				}
			}
		}
	}
	if file == "files.fnm" {
		// every number: how many entries, and the length of the name and the parent of each
		at := 0
		num := func(what string) uint64 {
			v, n := binary.Uvarint(b[at:])
			for _, k := range []uint64{0, 1, 2, 3, 5, 127, 128, 1 << 14, 1 << 16, 1 << 20, 1 << 24, 1 << 26, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 40, 1<<63 - 1, 1 << 63, 1<<64 - 1} {
				if k != v {
					put(append(binary.AppendUvarint(append([]byte{}, b[:at]...), k), b[at+n:]...), "%s is %d", what, k)
				}
			}
			at += n
			return v
		}
		n := num("number of entries")
		for i := uint64(0); i < n; i++ {
			at += int(num(fmt.Sprintf("length of name %d", i)))
			num(fmt.Sprintf("parent of %d", i))
		}
	}
	// another file of the index in its place
	_, all := s.files()
	for _, n := range all {
		if n != file {
			put([]byte(s.data(n)), "content of %s", n)
		}
	}
	return
}

// probe uses the index in every way: anything but a panic, an endless loop, or
// things left behind is accepted, and posts of other shards are not touched.
func (s *rotten) probe(c *C, x rot) {
	what := x.file + ": " + x.name
	if x.file == "cfg.json" {
		var g dupi.Config
		if json.Unmarshal(x.data, &g) == nil && g.NumShatters > 20 {
			return // more goroutines than the scheduler can watch
		}
	}
	c.Eval(1)
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	used := m.TotalAlloc
	defer func() {
		runtime.ReadMemStats(&m)
		if n := (m.TotalAlloc - used) >> 20; n > 512 {
			c.Fail("%s: %d MB of memory for an index of some kilobytes", what, n)
		}
	}()
	shard := -1
	if strings.HasSuffix(x.file, ".pos") || strings.HasSuffix(x.file, ".iix") {
		fmt.Sscanf(x.file, "b%d.", &shard)
	}
	res := ""
	read := func(first bool) {
		c.Call()
		y, e := dupi.OpenIndex(s.root)
		if e != nil {
			res += "e"
			return
		}
		res += "o"
		bad := 0
		for _, b := range append(s.r.blots(), s.r.absent()...) {
			if env.Scale > 0 && int(b)/y.NumShards() >= env.Scale {
				continue // no such blot in small tables
			}
			bl := &dupi.Blot{Blot: b}
			c.Call()
			e := y.StartQuery(dupi.QueryMaxBlot).Get(bl)
			if e != nil {
				bad++
			}
			if first && shard >= 0 && int(b)%s.f.Shards != shard {
				want := s.r.posts[b]
				ok := e == nil && len(bl.Docs) == len(want)
				for i := 0; ok && i < len(want); i++ {
					ok = s.r.isDoc(want[i], &bl.Docs[i])
				}
				if !ok {
					c.Fail("%s: lookup of blot %#x of shard %d: %v, %s, want %s", what, b, int(b)%s.f.Shards, e, recs(bl.Docs), s.r.want(want))
				}
			}
		}
		for _, room := range []int{1, 3} {
			q := y.StartQuery(dupi.QueryMaxBlot)
			for i, n := 0, 0; ; i++ {
				dst := make([]dupi.Blot, room)
				if room == 3 {
					dst[1].Docs = make([]dupi.Doc, 0, 2)
				}
				c.Call()
				k, e := q.Next(dst)
				n += k
				if e != nil {
					if e.Error() != "EOF" {
						bad++
					}
					break
				}
				if k < 0 || k > room {
					c.Fail("%s: extraction of %d gave %d", what, room, k)
				}
				if k == 0 || i > 5000 {
					c.Fail("%s: extraction does not end", what)
				}
			}
		}
		c.Call()
		if _, e := y.Stats(); e != nil {
			bad++
		}
		c.Call()
		y.Close()
		if first { // which blots the documents added later have depends on the size of the tables
			res += fmt.Sprint(bad)
		}
	}
	must(env.WriteFile(s.p(x.file), x.data))
	read(true)
	s.nothingHeld(c, what)
	c.Call()
	z, e := dupi.OpenIndexer(s.root)
	if e == nil {
		for i := 0; i < 2; i++ {
			z.Add(toDoc(doc(20+i, blotText(s.f.Shards, 0, 5, uint32(5*s.f.Shards), uint32(60+i)))))
		}
		c.Calls(3)
		if e := z.Close(); e == nil {
			res += "a"
		}
		s.nothingHeld(c, what)
		read(false)
		s.nothingHeld(c, what)
		s.restore()
	} else {
		s.nothingHeld(c, what)
		must(env.WriteFile(s.p(x.file), []byte(s.data(x.file))))
	}
	c.Note("%s %s", x.name, res)
}

func (s *rotten) nothingHeld(c *C, what string) {
	if n := env.OpenHandles(); n != 0 {
		c.Fail("%s: %d files are still open", what, n)
	}
	if l := env.LocksHeld(); l != "" || !env.LockFree(env.P(s.root+".lock")) {
		c.Fail("%s: the index is still locked", what)
	}
}

func c32(t *T) {
	// with tables of the real size only what the configuration asks for
	few := env.Inst && env.Scale == 0 && t.replay == "" && os.Getenv("VERIF_FALLBACK") == ""
	type world struct {
		f    Cf
		long bool
	}
	ws := []world{{cf(1, 1, 2, 1, 1), false}, {cf(2, 1, 16384, 1, 1), false}, {cf(1, 1, 16384, 1, 1), true}}
	if t.Thorough {
		ws = append(ws, world{cf(3, 2, 1, 1, 2), false}, world{cf(2, 2, 700, 1, 1), true})
	}
	for _, w := range ws {
		w := w
		files := []string{"cfg.json", "dmd", "files.fnm"}
		for i := 0; i < w.f.Shards; i++ {
			files = append(files, fmt.Sprintf("b%d.pos", i), fmt.Sprintf("b%d.pos.iix", i))
		}
		sort.Strings(files)
		for _, file := range files {
			if few && file != "cfg.json" {
				continue
			}
			blocks := 24
			for block := 0; block < blocks; block++ {
				file, block := file, block
				t.Case(fmt.Sprintf("%s, long lists %v, %s, block %d", w.f, w.long, file, block), func(c *C) {
					s := c.newRotten(w.f, w.long)
					n := 0
					for _, x := range s.rots(file, t.Thorough) {
						if int(fnv1(x.name)%uint32(blocks)) != block {
							continue
						}
						if !few || strings.HasPrefix(x.name, "NumShards") || strings.HasPrefix(x.name, "DocFlushRate") {
							s.probe(c, x)
							n++
						}
					}
					x := c.open(s.root)
					c.checkAll(x, s.r, env.P(s.root))
					c.closeIndex(x)
				})
			}
		}
		t.Space("%s, long lists %v: every file with one byte changed in up to 11 ways, left out or doubled, cut at every length, extended; every link, length, head, count and last id replaced by every place in the file and by extreme numbers; every record field replaced; files swapped", w.f, w.long)
	}
}
