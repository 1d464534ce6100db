//go:build go1.21 && zzinst

package main

import (
	"sort"
	"strings"

	"github.com/go-air/dupi/zz_verif/vos"
)

// closing notes how far the log is when a session is closed.
func (h ioHist) isClosing() {
	if h.closing != nil {
		linger()
		*h.closing = len(vos.FS.Log)
	}
}

// midKill makes the state h.mid of the last but one session.
func (h ioHist) midKill(c *C) {
	k := h
	k.mid, k.closing, k.docs = "", nil, h.docs[:len(h.docs)-1]
	var log []vos.Op
	var start *vos.FSys
	k.last(c, &log, &start, false)
	vos.FS = named(strings.TrimPrefix(h.mid, beforeClose), start, log)
}

const beforeClose = "before it closes, "

// killStates visits the states that a kill of the last session can leave.
func (h ioHist) killStates(start *vos.FSys, log []vos.Op, closing int, seen map[uint64]bool, every int, cuts bool, visit func(name func() string, hash uint64, fs func() *vos.FSys, early bool) bool) {
	a := vos.NewApplier(start.Clone())
	total := opTotals(log)
	counts := map[string]int{}
	state := func(hash uint64, early bool, cut int, file string, fs func() *vos.FSys) bool {
		if seen[hash] {
			return true
		}
		seen[hash] = true
		return visit(func() string {
			s := stateName(counts, total, cut, file)
			if early {
				s = beforeClose + s
			}
			return s
		}, hash, fs, early)
	}
	if !state(a.Hash, true, 0, "", func() *vos.FSys { return a.F.Clone() }) {
		return
	}
	for i := range log {
		op := &log[i]
		k := op.Key()
		n := counts[k]
		thin := strings.HasSuffix(op.File, ".iix") && n > 3 && total[k]-n > 3 && n%every != 0 ||
			strings.HasSuffix(op.File, "dmd") && n > 8 && total[k]-n > 8 && n&(n-1) != 0 && n%(every/2) != 0
		if op.Kind == 'w' && (i == 0 || !log[i-1].More) && !thin {
			for cut := 1; cut < len(op.Data); cut++ {
				if !cuts && cut > 1 && cut < len(op.Data)-1 && cut != len(op.Data)/2 {
					continue
				}
				if len(op.Data) > 64 && cut > 16 && cut < len(op.Data)-16 && cut%16 != 0 {
					continue
				}
				if !state(a.Hash*31+uint64(cut)+hashOf(op.File), i < closing, cut, k, func() *vos.FSys {
					b := vos.NewApplier(a.F.Clone())
					b.Apply(op, cut)
					return b.F
				}) {
					return
				}
			}
		}
		a.Apply(op, -1)
		counts[k]++
		if !op.More && !thin && !state(a.Hash, i < closing, 0, "", func() *vos.FSys { return a.F.Clone() }) {
			return
		}
	}
}

// recoveries checks what can be done with every state that a kill can leave.
func (t *T) recoveries(h ioHist) {
	p := h.String() + " killed: "
	if t.replay != "" {
		if strings.HasPrefix(t.replay, p) {
			name := t.replay[len(p):]
			t.Case(t.replay, func(c *C) {
				var log []vos.Op
				var start *vos.FSys
				h.last(c, &log, &start, false)
				vos.FS = named(strings.TrimPrefix(name, beforeClose), start, log)
				h.recovers(c, strings.HasPrefix(name, beforeClose) && len(h.docs) > 1, true)
			})
		}
		return
	}
	every := 64
	if t.Thorough {
		every = 8
	}
	t.kills(h, p, every, nil)
}

// kills checks all kill states of one session; each gets the names of the
// states that open.
func (t *T) kills(h ioHist, p string, every int, each func(name string)) {
	var log []vos.Op
	var start *vos.FSys
	n := -1
	h.closing = &n
	msg, _ := t.once(p, func(c *C) { h.last(c, &log, &start, false) })
	h.closing = nil
	if msg != "" {
		if h.mid == "" {
			t.incomplete(p + msg)
		}
		return
	}
	var bad []string
	states, opened := 0, 0
	h.killStates(start, log, n, map[uint64]bool{}, every, each == nil || t.Thorough || h.mid != "", func(name func() string, hash uint64, fs func() *vos.FSys, early bool) bool {
		if each == nil && int(hash%uint64(t.Of)) != t.Part {
			return true
		}
		states++
		f := fs()
		msg, _ := t.once(p, func(c *C) {
			vos.FS = f
			if h.recovers(c, early && len(h.docs) > 1, h.mid == "") {
				opened++
				if each != nil {
					each(name())
				}
			}
		})
		if msg != "" && len(bad) < 3 {
			bad = append(bad, name())
		}
		return !t.Stop() && len(bad) < 3
	})
	t.R.NStates += int64(states)
	t.Count("states checked", int64(states))
	t.Count("states that open for appending", int64(opened))
	for _, b := range bad {
		t.run(p+b, func(c *C) {
			h.last(c, &log, &start, false)
			vos.FS = named(strings.TrimPrefix(b, beforeClose), start, log)
			h.recovers(c, strings.HasPrefix(b, beforeClose) && len(h.docs) > 1, true)
		})
	}
	if each == nil {
		t.Space("%s: killed after each of %d modifications and in the middle of each write (of the blot tables every %d-th, of long record files fewer), then two sessions that append", h, len(log), every)
	}
}

// recoveries2: the session after the one that was killed is killed too.
func (t *T) recoveries2(h ioHist) {
	if len(h.docs) < 2 || !t.Thorough && (strings.Contains(h.name, "spill") || len(h.docs) > 2 || h.f.Shards > 2) && t.replay == "" {
		return
	}
	next := h
	next.docs = append(append([][]rDoc(nil), h.docs...), ioDocs(h.f, 1000, 2, 4))
	q := h.String() + " killed and "
	if t.replay != "" {
		if !strings.HasPrefix(t.replay, q) {
			return
		}
		i := strings.Index(t.replay, " and then killed: ")
		if i < 0 {
			return
		}
		next.mid = t.replay[len(q):i]
		name := t.replay[i+len(" and then killed: "):]
		t.Case(t.replay, func(c *C) {
			var log []vos.Op
			var start *vos.FSys
			next.last(c, &log, &start, false)
			vos.FS = named(strings.TrimPrefix(name, beforeClose), start, log)
			next.recovers(c, strings.HasPrefix(name, beforeClose), true)
		})
		return
	}
	var mids []string
	t.mute(func() {
		t.kills(h, h.String()+" killed", 1<<20, func(name string) { mids = append(mids, name) })
	})
	sort.Strings(mids)
	every := 1 << 20
	for i, m := range mids {
		if i%t.Of != t.Part || t.Stop() {
			continue
		}
		next.mid = m
		t.kills(next, q+m+" and then killed: ", every, func(string) {})
	}
	cuts := "cut at every length"
	if !t.Thorough {
		cuts = "cut after the first byte, before the last and in the middle"
	}
	t.Space("%s: in each of %d states of a kill that can be continued (writes "+cuts+"), the next session is killed after each modification and in the middle of each write (in the blot tables: near their ends)", h, len(mids))
}

// mute runs f without counting what it does.
func (t *T) mute(f func()) {
	r := t.R
	f()
	t.R = r
}
