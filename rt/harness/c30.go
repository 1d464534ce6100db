//go:build go1.21 && !zzinst

package main

import (
	"encoding/csv"
	"fmt"
	"os"
	"reflect"
	"strings"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/zz_verif/env"
)

func init() { checks["C30"] = c30 }

// csvRecords reads records of two fields as far as they are well-formed.
func csvRecords(s string) (recs [][]string, ok bool) {
	r := csv.NewReader(strings.NewReader(s))
	r.LazyQuotes = true
	r.FieldsPerRecord = 2
	recs, e := r.ReadAll()
	if e == nil {
		return recs, true
	}
	r = csv.NewReader(strings.NewReader(s))
	r.LazyQuotes = true
	r.FieldsPerRecord = 2
	recs = nil
	for {
		x, e := r.Read()
		if e != nil {
			return recs, false
		}
		recs = append(recs, x)
	}
}

func c30(t *T) {
	if canRead0() && os.Getenv("VERIF_ROOT") == "" {
		t.incomplete("running as root")
	}
	w := func(is ...int) string { return words(is...) }
	// messages as they are in the file
	msgs := []string{
		`"From: ` + w(7) + "\nTo: " + w(8) + "\n\n" + w(0, 1, 2, 3) + `"`, // headers and a body
		w(0, 1, 4), // no headers
		`"` + w(9) + "\n\n" + w(1, 2, 0) + "\n\n" + w(3, 1, 2) + `"`, // an empty line in the body
		`"` + "\n\n" + w(2, 2, 2, 2) + `"`,                           // no headers, but the empty line
		`"` + w(5) + "\n\n" + `"`,                                    // an empty body
		`"` + w(6) + "\n\n" + w(0) + ` ""` + w(1) + `"" ` + w(2, 3) + ", " + w(4) + `"`,
		`""`,
		`"` + w(6) + "\r\n\r\n" + w(3, 2, 1, 0) + "\r\n" + `"`,
		w(3) + ` "` + w(2, 1) + `" ` + w(0), // a bare quote
		`"` + w(4) + "\n\n\xff" + w(0, 1, 2, 3) + `"`,
	}
	bad := []string{"a", "a,b,c", "\"a\",\"b\",\"c\"\n", "a,b\nc\n", "a,b\nc,d,e\nf,g\n"}
	build := func(q []int, head bool) string {
		var b strings.Builder
		if head {
			b.WriteString("file,message\n")
		}
		for i, k := range q {
			fmt.Fprintf(&b, "\"%s/%d.\",%s\n", w(i), i, msgs[k])
		}
		return b.String()
	}
	cfs := []Cf{cf(1, 1, 1, 1, 1), cf(2, 1, 1, 2, 1), cf(4, 1, 1, 1, 1), cf(1, 1, 1, 3, 1)}
	for n := 0; n <= 3; n++ {
		combos(len(msgs), n, func(q []int) {
			q = append([]int(nil), q...)
			sum := n
			for i, k := range q {
				sum += (i + 1) * k
			}
			if n == 3 && !t.Thorough && sum%3 != 0 {
				return
			}
			t.Case(fmt.Sprintf("messages %v", q), func(c *C) {
				text := build(q, sum%2 == 1)
				recs, ok := csvRecords(text)
				if !ok {
					panic("harness: not well-formed")
				}
				must(env.WriteFile(env.P("m.csv"), []byte(text)))
				f := cfs[sum%len(cfs)]
				before := noLocks()
				r := newRef(f)
				for i, x := range recs {
					body := x[1]
					if k := strings.Index(body, "\n\n"); k >= 0 {
						body = body[k+2:]
					}
					r.add(rDoc{env.P("m.csv"), uint32(i), 0, body}, "")
				}
				res := c.cli(env.W(), nil, "-r", "idx", "-n", fmt.Sprint(f.Shards), "-s", fmt.Sprint(f.seq()), "m.csv")
				if res.code != 0 {
					c.Fail("exit status %d: %s", res.code, short(res.stderr, 300))
				}
				if l := changed(before, noLocks(), func(k string) bool { return strings.HasPrefix(k, env.P("idx")) }); len(l) > 0 {
					c.Fail("indexing changed %q", l)
				}
				x := c.open(env.P("idx"))
				st, e := x.Stats()
				if e != nil {
					c.Fail("statistics: %v", e)
				}
				if st.NumDocs != uint64(len(recs)) || st.NumPosts != uint64(r.nposts()) || x.NumShards() != f.Shards || x.SeqLen() != f.seq() {
					c.Fail("the index has %d documents, %d posts, %d shards, window %d; want %d messages, %d posts, %s", st.NumDocs, st.NumPosts, x.NumShards(), x.SeqLen(), len(recs), r.nposts(), f)
				}
				qu := x.StartQuery(dupi.QueryMaxBlot)
				for _, b := range r.blots() {
					bl := &dupi.Blot{Blot: b}
					if e := qu.Get(bl); e != nil {
						c.Fail("looking up %#x: %v", b, e)
					}
					if len(bl.Docs) != len(r.posts[b]) {
						c.Fail("blot %#x is in %d messages, want %d", b, len(bl.Docs), len(r.posts[b]))
					}
					for i := range bl.Docs {
						if bl.Docs[i].Path != env.P("m.csv") {
							c.Fail("blot %#x is in %s", b, bl.Docs[i].Path)
						}
					}
					c.Eval(1)
				}
				c.closeIndex(x)
				// an index is not overwritten
				before = noLocks()
				if res := c.cli(env.W(), nil, "-r", "idx", "m.csv"); res.code == 0 {
					c.Fail("indexing to an existing index: exit status 0")
				}
				if l := changed(before, noLocks(), func(string) bool { return false }); len(l) > 0 {
					c.Fail("indexing to an existing index changed %q", l)
				}
				// the first records
				for k := 0; k <= len(recs)+1; k++ {
					res := c.cli(env.W(), nil, "-o", "-n", fmt.Sprint(k), "m.csv")
					got, ok := csvRecords(res.out)
					want := recs[:min(k, len(recs))]
					if res.code != 0 || !ok || len(got) != len(want) || len(want) > 0 && !reflect.DeepEqual(got, want) {
						c.Fail("-o -n %d: exit status %d, %d records %q, want %q", k, res.code, len(got), got, want)
					}
					c.Eval(1)
				}
				c.Note("%d %d", len(recs), r.nposts())
			})
		})
	}
	t.Space("all sequences of 0..3 messages of %d kinds (3: %s), with and without a head line, in 4 configurations: indexed, refused again, and printed for every number of records", len(msgs), map[bool]string{true: "all", false: "a third"}[t.Thorough])
	for i, b := range bad {
		i, b := i, b
		t.Case(fmt.Sprintf("not well-formed %d", i), func(c *C) {
			must(env.WriteFile(env.P("m.csv"), []byte(b)))
			if res := c.cli(env.W(), nil, "-r", "idx", "-s", "1", "m.csv"); res.code == 0 {
				c.Fail("%q was indexed with exit status 0", b)
			}
			if x, e := dupi.OpenIndex(env.P("idx")); e == nil {
				x.Close()
				c.Fail("%q left an index that opens", b)
			}
			for k := 0; k < 4; k++ {
				recs, _ := csvRecords(b)
				res := c.cli(env.W(), nil, "-o", "-n", fmt.Sprint(k), "m.csv")
				if (res.code != 0) != (k > len(recs)) {
					c.Fail("-o -n %d of %q: exit status %d", k, b, res.code)
				}
				c.Eval(1)
			}
		})
	}
	for i, a := range []string{"nosuch.csv", "", "-r x", "-o", "-o nosuch.csv", "-n 0 m.csv", "-n -1 m.csv", "-s 0 m.csv", "-s -2 m.csv", "-n 65536 m.csv", "dir", "-o dir", "-nosuch m.csv"} {
		i, a := i, a
		t.Case(fmt.Sprintf("refused %d", i), func(c *C) {
			must(env.WriteFile(env.P("m.csv"), []byte(build([]int{0, 1}, false))))
			must(env.Mkdir(env.P("dir")))
			if res := c.cli(env.W(), nil, strings.Fields(a)...); res.code == 0 {
				c.Fail("dupenron %s: exit status 0", a)
			}
			for _, d := range []string{"dupi.idx", "x"} {
				if x, e := dupi.OpenIndex(env.P(d)); e == nil {
					x.Close()
					c.Fail("dupenron %s: left an index that opens", a)
				}
			}
			c.Eval(1)
		})
	}
	t.Space("%d files that are not well-formed and 13 refused command lines", len(bad))
	for _, n := range []int{100, 2000, 10001} {
		n := n
		t.Case(fmt.Sprintf("%d messages", n), func(c *C) {
			var b strings.Builder
			r := newRef(cf(2, 1, 1, 1, 1))
			for i := 0; i < n; i++ {
				body := w(i%7, i%5, i%3)
				fmt.Fprintf(&b, "m%d,\"Subject: %s\n\n%s\"\n", i, strings.Repeat(w(8)+" ", 20), body)
				r.add(rDoc{env.P("m.csv"), uint32(i), 0, body}, "")
			}
			must(env.WriteFile(env.P("m.csv"), []byte(b.String())))
			if res := c.cli(env.W(), nil, "-n", "2", "-s", "1", "m.csv"); res.code != 0 {
				c.Fail("exit status %d: %s", res.code, short(res.stderr, 300))
			}
			x := c.open(env.P("dupi.idx"))
			st, e := x.Stats()
			if e != nil || st.NumDocs != uint64(n) || st.NumPosts != uint64(r.nposts()) {
				c.Fail("statistics %+v, %v; want %d documents, %d posts", st, e, n, r.nposts())
			}
			c.closeIndex(x)
			for _, k := range []int{n - 1, n, n + 1} {
				res := c.cli(env.W(), nil, "-o", "-n", fmt.Sprint(k), "m.csv")
				got, ok := csvRecords(res.out)
				if res.code != 0 || !ok || len(got) != min(k, n) {
					c.Fail("-o -n %d: exit status %d, %d records", k, res.code, len(got))
				}
			}
		})
	}
	t.Space("100, 2000 and 10001 messages")
}
