//go:build go1.21

package main

import (
	"fmt"
	"strings"
	"sync"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/lock"
	"github.com/go-air/dupi/zz_verif/env"
)

func init() { checks["C16"] = c16 }

// watch knows who has the index open.
type watch struct {
	mu        sync.Mutex // (not a scheduling point: the harness is not instrumented)
	f         Cf
	readers   int
	writers   int
	committed []rDoc // documents of the completed writing sessions
	exists    bool   // a creating session was completed
	creating  int    // creations that succeeded
	n         int
	texts     []string
	removes   bool // some remove the index
}

func (s *watch) ref() *Ref {
	r := newRef(s.f)
	for _, d := range s.committed {
		r.add(d, env.W())
	}
	return r
}

// quiet checks the contents without adding to the observation.
func (c *C) quiet(x *dupi.Index, r *Ref) {
	for _, b := range r.blots() {
		c.checkGet(x, r, b)
	}
	c.checkGet(x, r, r.absent()[0])
	c.checkStatsQuiet(x, r)
}

func (s *watch) read(c *C) {
	s.mu.Lock()
	had := s.exists
	s.mu.Unlock()
	c.Call()
	x, e := dupi.OpenIndex("idx")
	if e != nil {
		if had {
			c.Fail("opening the index for reading: %v", e)
		}
		return
	}
	s.mu.Lock()
	s.readers++
	w, r := s.writers, s.ref()
	ex := s.exists
	s.mu.Unlock()
	if w > 0 {
		c.Fail("the index was opened for reading while it is open for indexing")
	}
	if !ex {
		c.Fail("the index was opened for reading before the session creating it was over")
	}
	c.quiet(x, r)
	s.mu.Lock()
	s.readers--
	s.mu.Unlock()
	c.closeIndex(x)
}

func (s *watch) write(c *C, create bool, ndocs int) {
	s.mu.Lock()
	had := s.exists
	id := s.n
	s.n++
	s.mu.Unlock()
	c.Call()
	var x *dupi.Indexer
	var e error
	if create {
		x, e = dupi.IndexerFromConfig(s.f.config("idx"))
	} else {
		x, e = dupi.OpenIndexer("idx")
	}
	if e != nil {
		if had && !create {
			c.Fail("opening the index for appending: %v", e)
		}
		return
	}
	s.mu.Lock()
	r, w, ex := s.readers, s.writers, s.exists
	s.writers++
	if create {
		s.creating++
	}
	s.mu.Unlock()
	if r > 0 || w > 0 {
		c.Fail("the index was opened for indexing (create: %v) while %d readers and %d indexers have it open", create, r, w)
	}
	if create && ex {
		c.Fail("an index was created where one exists")
	}
	if !create && !ex {
		c.Fail("the index was opened for appending before the session creating it was over")
	}
	var ds []rDoc
	for i := 0; i < ndocs; i++ {
		d := doc(10*id+i+1, s.texts[(id+i)%len(s.texts)])
		c.add(x, nil, d)
		ds = append(ds, d)
	}
	s.mu.Lock()
	s.writers--
	s.exists = true
	s.committed = append(s.committed, ds...)
	s.mu.Unlock()
	c.closeIndexer(x)
}

// loose is a session among others that remove the index. The tree is removed
// when the index was closed, so what somebody else finds may be incomplete, and
// what he does may fail; but nobody has the index while somebody writes it.
func (s *watch) loose(c *C, p byte) {
	c.Call()
	var x *dupi.Indexer
	var y *dupi.Index
	var e error
	switch p {
	case 'C':
		x, e = dupi.IndexerFromConfig(s.f.config("idx"))
	case 'A', 'D':
		x, e = dupi.OpenIndexer("idx")
	case 'R', 'd':
		y, e = dupi.OpenIndex("idx")
	}
	if e != nil {
		return
	}
	s.mu.Lock()
	r, w := s.readers, s.writers
	if x != nil {
		s.writers++
	} else {
		s.readers++
	}
	id := s.n
	s.n++
	s.mu.Unlock()
	if w > 0 || x != nil && r > 0 {
		c.Fail("session %c opened the index while %d readers and %d indexers have it open", p, r, w)
	}
	if p == 'C' || p == 'A' {
		d := doc(10*id+1, s.texts[id%len(s.texts)])
		x.Add(&dupi.Doc{Path: d.path, Start: d.start, End: d.end, Dat: []byte(d.text)})
	}
	env.Lstat(env.P("idx")) // the others may go on while this one has the index
	s.mu.Lock()
	if x != nil {
		s.writers--
	} else {
		s.readers--
	}
	s.mu.Unlock()
	switch p {
	case 'C', 'A':
		x.Close()
	case 'R':
		y.Close()
	case 'D':
		dupi.RemoveIndexer(x)
	case 'd':
		dupi.RemoveIndex(y)
	}
}

func (s *watch) run(c *C, p byte) {
	if s.removes {
		s.loose(c, p)
		return
	}
	switch p {
	case 'R':
		s.read(c)
	case 'r': // two readers in one process, at the same time
		s.mu.Lock()
		had := s.exists
		s.mu.Unlock()
		x, e := dupi.OpenIndex("idx")
		if e != nil {
			if had {
				c.Fail("opening the index for reading: %v", e)
			}
			return
		}
		s.mu.Lock()
		s.readers++
		s.mu.Unlock()
		s.read(c)
		s.mu.Lock()
		s.readers--
		s.mu.Unlock()
		c.closeIndex(x)
	case 'A':
		s.write(c, false, 1)
	case 'a':
		s.write(c, false, 0)
	case 'C':
		s.write(c, true, 1)
	case 'c':
		s.write(c, true, 0)
	case '2':
		s.write(c, false, 2)
	}
}

// c16run runs the processes, each a sequence of sessions.
func c16run(c *C, f Cf, exists bool, procs string) {
	freeze()
	s := &watch{f: f, removes: strings.ContainsAny(procs, "Dd")}
	for i := 0; i < 6; i++ {
		s.texts = append(s.texts, pipeText(f, i, i%2))
	}
	if exists {
		x := c.create(f, "idx")
		d := doc(0, s.texts[5])
		c.add(x, nil, d)
		c.closeIndexer(x)
		s.exists, s.committed = true, []rDoc{d}
	}
	unfreeze()
	var g Group
	creators := 0
	for _, p := range strings.Split(procs, ",") {
		p := p
		creators += strings.Count(strings.ToLower(p), "c")
		g.GoProc(c, func() {
			for i := range p {
				s.run(c, p[i])
			}
		})
	}
	g.Wait()
	freeze()
	if s.removes {
		if !env.LockFree(env.P("idx.lock")) || env.LocksHeld() != "" {
			c.Fail("everything is closed, but the index is still locked")
		}
		return
	}
	if creators > 0 && !exists && s.creating == 0 {
		c.Fail("none of %d creations succeeded", creators)
	}
	if s.creating > 1 || exists && s.creating > 0 {
		c.Fail("%d creations succeeded", s.creating)
	}
	if !env.LockFree(env.P("idx.lock")) || env.LocksHeld() != "" {
		c.Fail("everything is closed, but the index is still locked")
	}
	if s.exists {
		y := c.open("idx")
		c.quiet(y, s.ref())
		c.closeIndex(y)
	}
}

// ---- lock files

// lockModel is flock for some handles.
type lockModel struct {
	held    []int // 0 none, 1 shared, 2 exclusive
	waiting []int
	closed  []bool
}

func (m *lockModel) free(h, kind int) bool {
	for i, k := range m.held {
		if i != h && (k == 2 || kind == 2 && k > 0) {
			return false
		}
	}
	return true
}

const lockOps = "XSUC"

func c16locks(c *C, handles int, seq []int) {
	m := &lockModel{make([]int, handles), make([]int, handles), make([]bool, handles)}
	var hs []*lock.File
	for i := 0; i < handles; i++ {
		h, e := lock.New(env.P("l"))
		if e != nil {
			c.Fail("lock.New: %v", e)
		}
		hs = append(hs, h)
	}
	state := make([]struct {
		mu   sync.Mutex
		done bool
		err  error
	}, handles)
	var g Group
	check := func(at string) {
		freeze() // the others come to rest
		for i := range hs {
			s := &state[i]
			s.mu.Lock()
			done, err := s.done, s.err
			s.mu.Unlock()
			if m.waiting[i] != 0 && done {
				c.Fail("%s: handle %d got its lock although others hold theirs: %v", at, i, m.held)
			}
			if m.waiting[i] == 0 && !done {
				c.Fail("%s: handle %d still waits though it could proceed: %v", at, i, m.held)
			}
			if done && err != nil {
				c.Fail("%s: handle %d: %v", at, i, err)
			}
		}
	}
	for i := range state {
		state[i].done = true
	}
	// settle lets a waiting handle that can proceed do so. (Which of several,
	// is up to the system; then the rest of the sequence says nothing.)
	settle := func() bool {
		n := 0
		for i, k := range m.waiting {
			if k != 0 && m.free(i, k) {
				n++
			}
		}
		if n > 1 {
			ex := false
			for i, k := range m.waiting {
				ex = ex || k == 2 && m.free(i, k)
			}
			if ex {
				return false
			}
		}
		for i, k := range m.waiting {
			if k != 0 && m.free(i, k) {
				m.held[i], m.waiting[i] = k, 0
			}
		}
		return true
	}
	waited := false
	for at, o := range seq {
		h, op := o/len(lockOps), lockOps[o%len(lockOps)]
		if m.waiting[h] != 0 || m.closed[h] {
			continue // busy: not possible
		}
		f := hs[h]
		kind := 0
		switch op {
		case 'X':
			kind = 2
		case 'S':
			kind = 1
		}
		m.held[h] = 0 // a conversion gives up the old lock first
		if kind != 0 && !m.free(h, kind) {
			if !env.Inst { // would have to wait for something not to happen
				for _, h := range hs {
					h.Close()
				}
				return
			}
			m.waiting[h] = kind
			waited = true
		} else {
			m.held[h] = kind
		}
		if !settle() {
			break
		}
		s := &state[h]
		s.mu.Lock()
		s.done, s.err = false, nil
		s.mu.Unlock()
		c.Call()
		do := func() {
			var e error
			switch op {
			case 'X':
				e = f.Lock()
			case 'S':
				e = f.LockShared()
			case 'U':
				e = f.Unlock()
			case 'C':
				e = f.Close()
			}
			s.mu.Lock()
			s.done, s.err = true, e
			s.mu.Unlock()
		}
		if op == 'C' {
			m.closed[h] = true
		}
		if env.Inst {
			g.Go(c, do)
		} else {
			do()
		}
		check(fmt.Sprintf("after %d of %s", at+1, lockSeq(seq)))
		c.Eval(1)
	}
	// release everything; then nobody waits
	for round := 0; round < handles; round++ {
		for i, h := range hs {
			s := &state[i]
			s.mu.Lock()
			done := s.done
			s.mu.Unlock()
			if done && !m.closed[i] {
				m.closed[i] = true
				if e := h.Close(); e != nil {
					c.Fail("closing handle %d: %v", i, e)
				}
			}
		}
		freeze()
	}
	g.Wait()
	if !env.LockFree(env.P("l")) {
		c.Fail("after %s and closing everything the file is still locked", lockSeq(seq))
	}
	if !waited {
		c.Note("%s %v", lockSeq(seq), m.held)
	}
}

func lockSeq(seq []int) string {
	s := ""
	for _, o := range seq {
		s += fmt.Sprintf("%c%d ", lockOps[o%len(lockOps)], o/len(lockOps))
	}
	return s
}

func c16(t *T) {
	type cs struct {
		f      Cf
		exists bool
		procs  string
		bound  int
		io     bool
	}
	var l []cs
	f1, f2 := cf(1, 1, 2, 1, 1), cf(2, 2, 1, 1, 1)
	ex := []string{"R,A", "A,A", "R,R", "r,A", "a,R", "R,C", "A,C", "AR,A", "RA,A", "AR,RA", "2,R", "R,A,A", "R,R,A", "a,A,R", "C,R,A"}
	no := []string{"C,R", "C,C", "C,A", "c,A", "C,r", "C,C,R", "C,R,A", "c,A,R", "CR,CR", "RC,A"}
	for _, p := range ex {
		l = append(l, cs{f1, true, p, 5 - strings.Count(p, ","), false})
	}
	for _, p := range no {
		l = append(l, cs{f1, false, p, 5 - strings.Count(p, ","), false})
	}
	for _, p := range []string{"R,A", "A,A", "RA,R"} {
		l = append(l, cs{f2, true, p, 1, false}, cs{f1, true, p, 1, true})
	}
	for _, p := range []string{"D,C,C", "D,A,C", "d,A,C", "D,C,R", "DC,A", "dC,C", "DC,C", "DC,DC"} {
		l = append(l, cs{f1, true, p, 4 - strings.Count(p, ","), false})
	}
	l = append(l, cs{f2, false, "C,RA", 1, false}, cs{f1, false, "C,R", 1, true})
	depth, depth3 := 4, 3
	if t.Thorough {
		depth, depth3 = 5, 4
		var q []cs
		for _, s := range l {
			s.bound++
			q = append(q, s)
		}
		l = append(l, q...)
		for _, p := range []string{"A,A,A", "R,A,R,A", "RAR,ARA", "A,A,R,R", "r,r,A", "2,2,r"} {
			l = append(l, cs{f1, true, p, 2, false})
		}
		for _, p := range []string{"C,C,C", "C,C,R,A", "CAR,CRA", "C,A,R,R"} {
			l = append(l, cs{f1, false, p, 2, false})
		}
	}
	for _, nd := range [][2]int{{2, depth}, {3, depth3}} {
		n, d := nd[0], nd[1]
		// one case for each first two operations
		for a := 0; a < n*len(lockOps); a++ {
			for b := 0; b < n*len(lockOps); b++ {
				a, b := a, b
				key := fmt.Sprintf("lock files: %d handles, %s first, %d operations", n, lockSeq([]int{a, b}), d)
				t.Case(key, func(c *C) {
					combos(n*len(lockOps), d-2, func(s []int) {
						seq := append([]int{a, b}, s...)
						// (a fresh file for each: they are all closed at the end)
						c16locks(c, n, seq)
					})
				})
			}
		}
		t.Space("lock files: all sequences of %d operations (exclusive, shared, unlock, close) on %d handles; who waits and who proceeds", d, n)
	}
	for _, s := range l {
		s := s
		key := fmt.Sprintf("%s index exists %v processes %s, %d preemptions io %v", s.f, s.exists, s.procs, s.bound, s.io)
		t.Explore(key, Sched{Bound: s.bound, FS: true, IO: s.io, Share: 0.5}, func(c *C) { c16run(c, s.f, s.exists, s.procs) })
	}
}
