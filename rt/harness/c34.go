//go:build go1.21

package main

import (
	"fmt"
	"strings"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/zz_verif/env"
)

func init() { checks["C34"] = c34 }

// A user is someone that uses an index of its own, in steps; no step needs
// another user's. Several users of one process work by turns, or at the same
// time.
type user struct {
	c     *C
	id    int
	root  string
	f     Cf
	r     *Ref
	texts []string // prepared before
	x     *dupi.Indexer
	y     *dupi.Index
	q     *dupi.Query
	got   []dupi.Blot
	n     int
}

// Steps of programs:
//
//	C create  a add  z close the indexer  o open the indexer
//	O open the index  g look everything up  n next results  e the rest of the
//	results  s statistics  Z close the index  R remove the index
func (u *user) step(p byte) {
	c := u.c
	switch p {
	case 'C':
		u.x, u.r = c.create(u.f, u.root), newRef(u.f)
	case 'a':
		c.add(u.x, u.r, rDoc{u.path(u.n), uint32(u.n + 1000*u.id), uint32(2000 + u.n), u.texts[u.n%len(u.texts)]})
		u.n++
	case 'z':
		c.closeIndexer(u.x)
	case 'o':
		u.x = c.reopen(u.root)
	case 'O':
		u.y = c.open(u.root)
	case 'g':
		for _, b := range append(u.r.blots(), u.r.absent()[0]) {
			c.checkGet(u.y, u.r, b)
		}
	case 'n', 'e':
		if u.q == nil {
			u.q, u.got = u.y.StartQuery(dupi.QueryMaxBlot), nil
		}
		for {
			d := make([]dupi.Blot, 1+u.n%2)
			c.Call()
			n, e := u.q.Next(d)
			u.got = append(u.got, d[:n]...)
			if e != nil && (e.Error() != "EOF" || n != 0) {
				c.Fail("extraction: %d, %v", n, e)
			}
			if e == nil && n == 0 || len(u.got) > 10000 {
				c.Fail("extraction returned nothing without reporting the end, or does not end")
			}
			if e != nil {
				c.checkExtract(u.r, u.got)
				u.q = nil
			}
			if e != nil || p == 'n' {
				break
			}
		}
	case 's':
		c.stats(u.y, u.r, u.y.Root())
	case 'Z':
		c.closeIndex(u.y)
		u.y, u.q = nil, nil
	case 'R':
		c.Call()
		if e := dupi.RemoveIndex(u.y); e != nil {
			c.Fail("removing the index: %v", e)
		}
		u.y, u.q, u.r = nil, nil, nil
	}
}

func (u *user) path(i int) string {
	// few paths, in another order for every user
	l := [][]string{{"/d/a", "/d/b", "/q/a", "rel"}, {"/q/a", "/d/a"}, {"/d", "/q/a/x", "/q/a"}}[u.id]
	return l[i%len(l)]
}

// end compares what is left with what the user did.
func (u *user) end() {
	if u.r == nil {
		if _, e := dupi.OpenIndex(u.root); e == nil {
			u.c.Fail("the index %s was removed, and can be opened", u.root)
		}
		return
	}
	x := u.c.open(u.root)
	u.c.checkAll(x, u.r, x.Root())
	u.c.closeIndex(x)
}

// a user of the k-th index, with texts that share blots with the others'
func newUser(c *C, k int, f Cf, prog string, naming int) *user {
	u := &user{c: c, id: k, root: fmt.Sprintf("idx%d", k), f: f}
	if naming%2 == 1 { // the same name in different directories
		if e := env.MkdirAll(env.P(fmt.Sprintf("dir%d", k))); e != nil {
			panic(e)
		}
		u.root = fmt.Sprintf("dir%d/idx", k)
	}
	n := f.Shards
	b := func(i int) uint32 { return jb(n, i%n, 7+3*i) }
	for i := 0; i < 4; i++ {
		t := []uint32{b(0), b(1 + (i+k)%2)}
		if i%2 == k%2 {
			t = append(t, b(4+i+k), b(0))
		}
		u.texts = append(u.texts, blotText(n, t...))
	}
	if f.seq() > 1 {
		u.texts = []string{"a b c d", "b c", "c d a b", []string{"b b a", "d c b a"}[k%2]}
	}
	wordFor(n, jb(n, 0, 1))
	if !strings.HasPrefix(prog, "C") { // an index that is there
		for _, p := range "Caaaz" {
			u.step(byte(p))
		}
	}
	return u
}

// byTurns: the users' steps in every order.
func byTurns(t *T, fs []Cf, progs ...string) {
	n := 0
	at := make([]int, len(progs))
	var order []byte
	var rec func()
	rec = func() {
		end := true
		for i, p := range progs {
			if at[i] < len(p) {
				end = false
				at[i]++
				order = append(order, byte('0'+i))
				rec()
				order = order[:len(order)-1]
				at[i]--
			}
		}
		if end {
			naming := n
			n++
			o := string(order)
			t.Case(fmt.Sprintf("by turns %s %s, order %s", strings.Join(progs, " "), fs[0], o), func(c *C) {
				var us []*user
				for i, p := range progs {
					us = append(us, newUser(c, i, fs[i%len(fs)], p, naming))
				}
				pos := make([]int, len(progs))
				for _, w := range []byte(o) {
					k := int(w - '0')
					us[k].step(progs[k][pos[k]])
					pos[k]++
				}
				for _, u := range us {
					u.end()
				}
			})
		}
	}
	rec()
	t.Space("the steps of users %s (of indexes %v) in all %d orders", strings.Join(progs, " and "), fs, n)
}

// together: the users at the same time, under all schedules.
func together(t *T, sc Sched, fs []Cf, progs ...string) {
	key := fmt.Sprintf("together %s %v, ", strings.Join(progs, " "), fs)
	if sc.DPOR {
		key += "all schedules"
	} else {
		key += fmt.Sprintf("%d preemptions", sc.Bound)
	}
	t.Explore(key, sc, func(c *C) {
		freeze()
		var us []*user
		for i, p := range progs {
			us = append(us, newUser(c, i, fs[i%len(fs)], p, len(key)))
		}
		unfreeze()
		var g Group
		for i := range progs {
			i := i
			g.Go(c, func() {
				for _, p := range []byte(progs[i]) {
					us[i].step(p)
				}
			})
		}
		g.Wait()
		freeze()
		for _, u := range us {
			u.end()
		}
	})
}

func c34(t *T) {
	a, b, m := cf(2, 1, 2, 1, 1), cf(1, 2, 1, 1, 1), cf(1, 1, 1, 1, 1)
	if !raceBuild {
		byTurns(t, []Cf{a, b}, "Caazoaz", "Caaz")
		byTurns(t, []Cf{b, a}, "Caaz", "OgneZoaz")
		byTurns(t, []Cf{a, a}, "oazOgZ", "OnneZ")
		byTurns(t, []Cf{a, b}, "ORCaaz", "oaazOsZ")
		byTurns(t, []Cf{a, b}, "OnesZ", "OngeZ")
		byTurns(t, []Cf{a, b, m}, "Caz", "oaz", "OnneZ")
		w, v := cf(1, 1, 2, 2, 1), cf(2, 1, 1, 2, 2)
		byTurns(t, []Cf{w, w}, "Caaz", "oaaz")
		byTurns(t, []Cf{v, w}, "Caaz", "oaaz")
		if t.Thorough {
			byTurns(t, []Cf{v, v}, "CaazOeZ", "oaazOsg")
			byTurns(t, []Cf{b, a}, "Caazoaz", "CaazOgZoaz")
			byTurns(t, []Cf{a, b}, "oazoazOeZ", "ORCaazOs")
			byTurns(t, []Cf{a, b, m}, "Caaz", "oaz", "OnneZ")
		}
	}
	// files of different indexes are independent, unless the code makes them
	// depend on one another
	d := Sched{DPOR: true, IO: true, Share: 0.5}
	d0 := Sched{DPOR: true, Share: 0.4}
	ab, us := []Cf{a, b}, []string{"oaz", "OgZ", "OneZ"}
	if raceBuild { // slower
		d, ab, us = d0, []Cf{a, m}, us[:2]
	}
	pb := func(n int) Sched { return Sched{Bound: n, IO: true, FS: true, Share: 0.4} }
	together(t, d, []Cf{m, m}, "oaz", "oaz")
	together(t, pb(1), []Cf{m, m}, "OgeZ", "OngZ")
	together(t, d0, ab, "Caz", "oaz")
	together(t, d, []Cf{m, a}, "oaz", "OgneZ")
	together(t, d, []Cf{m, m}, "Caz", "Caz")
	together(t, d, []Cf{m, m}, "oaz", "ORCaz")
	together(t, d, []Cf{b, m}, "oaz", "oaaz")
	together(t, d, []Cf{a, a}, "oaz", "OnsZ")
	together(t, d, []Cf{a, m, m}, us...)
	together(t, d0, []Cf{m, m, m}, "oaz", "Caz", "oz")
	together(t, pb(1), []Cf{m, m}, "OgZ", "OR")
	together(t, pb(1), []Cf{m, m}, "OR", "OR")
	together(t, d, []Cf{m, m}, "oaaz", "oaz")
	if t.Thorough {
		for _, p := range []string{"oaz", "Caz", "oaaz", "Caazoaz"} {
			for _, q := range []string{"oaz", "Caz", "OgneZ", "ORCaz", "oazOeZ"} {
				together(t, d, []Cf{m, a}, p, q)
				together(t, d, []Cf{b, m}, p, q)
			}
		}
		df := Sched{DPOR: true, IO: true, FS: true, Share: 0.3}
		together(t, df, []Cf{m, m}, "oz", "Cz")
		together(t, df, []Cf{m, m}, "oz", "OgZ")
		together(t, pb(1), []Cf{m, m}, "OgsZ", "ORCz")
		together(t, Sched{Bound: 1, Share: 0.3}, []Cf{m, m}, "oaz", "oaz")
		together(t, pb(3), []Cf{m, m}, "OgeZ", "OngZ")
		together(t, pb(2), []Cf{m, m, a}, "OgZ", "OnZ", "OsZ")
		together(t, d, []Cf{m, m, m}, "oaz", "oaz", "oaz")
		together(t, pb(0), []Cf{m, m}, "oaz", "oaz")
		together(t, Sched{Bound: 0, Share: 0.3}, []Cf{m, m}, "oaz", "oaz")
		together(t, Sched{Bound: 2, Share: 0.5}, []Cf{m, m}, "oaz", "Caz")
	}
}
