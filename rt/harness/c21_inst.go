//go:build go1.21 && zzinst

package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/go-air/dupi/zz_verif/env"
	"github.com/go-air/dupi/zz_verif/vos"
	"github.com/go-air/dupi/zz_verif/vrt"
)

// last runs the sessions; the modifications of the last one are logged.
func (h ioHist) last(c *C, log *[]vos.Op, start **vos.FSys, io bool) {
	freeze()
	r := h.prep(c)
	unfreeze()
	*start = vos.FS.Clone()
	vos.FS.LogOn = true
	if e := h.session(c, r, len(h.docs)-1); e != nil {
		c.Fail("last session: %v", e)
	}
	vos.FS.LogOn = false
	*log = vos.FS.Log
}

// a state is named by how many of the logged operations on each file it has;
// the rest is counted from the end where that is shorter, so that the name has
// a meaning for tables of other sizes
func stateName(counts, total map[string]int, cut int, cutFile string) string {
	var ks []string
	for k := range total {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var s []string
	for _, k := range ks {
		n := counts[k]
		if n == 0 {
			continue
		}
		v := strconv.Itoa(n)
		if n == total[k] {
			v = "all"
		} else if n > total[k]/2 {
			v = strconv.Itoa(n - total[k])
		}
		if cut > 0 && cutFile == k {
			v += "~" + strconv.Itoa(cut)
		}
		s = append(s, k+"="+v)
	}
	if cut > 0 && counts[cutFile] == 0 {
		s = append(s, fmt.Sprintf("%s=0~%d", cutFile, cut))
	}
	return strings.Join(s, ",")
}

func opTotals(log []vos.Op) map[string]int {
	m := map[string]int{}
	for i := range log {
		m[log[i].Key()]++
	}
	return m
}

// named makes the state of that name.
func named(name string, start *vos.FSys, log []vos.Op) *vos.FSys {
	total := opTotals(log)
	left, cut := map[string]int{}, map[string]int{}
	if name != "" {
		for _, p := range strings.Split(name, ",") {
			i := strings.LastIndex(p, "=")
			k, v := p[:i], p[i+1:]
			if j := strings.Index(v, "~"); j >= 0 {
				cut[k], _ = strconv.Atoi(v[j+1:])
				v = v[:j]
			}
			if v == "all" {
				left[k] = total[k]
				continue
			}
			n, _ := strconv.Atoi(v)
			if n < 0 {
				n += total[k]
			}
			left[k] = n
		}
	}
	a := vos.NewApplier(start)
	for i := range log {
		k := log[i].Key()
		if left[k] > 0 {
			left[k]--
			a.Apply(&log[i], -1)
		} else if cut[k] > 0 {
			n := cut[k]
			if n > len(log[i].Data) {
				n = len(log[i].Data)
			}
			if log[i].Kind == 'w' {
				a.Apply(&log[i], n)
			}
			cut[k] = 0
		}
	}
	return a.F
}

// crashes checks every state that a kill can leave.
func (t *T) crashes(h ioHist, pass int) {
	p := h.String() + " killed: "
	if t.replay != "" {
		if pass > 0 || !strings.HasPrefix(t.replay, p) {
			return
		}
		t.Case(t.replay, func(c *C) {
			var log []vos.Op
			var start *vos.FSys
			h.last(c, &log, &start, false)
			vos.FS = named(t.replay[len(p):], start, log)
			h.survivor(c)
		})
		return
	}
	seen := map[uint64]bool{}
	var bad []string
	opened, states := 0, 0
	check := func(fs *vos.FSys, name func() string) {
		states++
		msg, _ := t.once(p, func(c *C) {
			vos.FS = fs
			if h.survivor(c) {
				opened++
			}
		})
		if msg != "" && len(bad) < 3 {
			bad = append(bad, name())
		}
	}
	// all states along one execution
	along := func(start *vos.FSys, log []vos.Op, mine func(hash uint64) bool) {
		a := vos.NewApplier(start.Clone())
		total := opTotals(log)
		counts := map[string]int{}
		visit := func(hash uint64, fs func() *vos.FSys, cut int, file string) {
			if seen[hash] {
				return
			}
			seen[hash] = true
			if !mine(hash) || t.Stop() {
				return
			}
			check(fs(), func() string { return stateName(counts, total, cut, file) })
		}
		whole := func() *vos.FSys { return a.F.Clone() }
		visit(a.Hash, whole, 0, "")
		for i := range log {
			op := &log[i]
			if op.Kind == 'w' && (i == 0 || !log[i-1].More) {
				for cut := 1; cut < len(op.Data); cut++ {
					if len(op.Data) > 64 && !t.Thorough && cut > 16 && cut < len(op.Data)-16 && cut%16 != 0 {
						continue
					}
					// (the hash is only that of this pair of state and cut)
					hash := a.Hash*31 + uint64(cut) + hashOf(op.File)
					visit(hash, func() *vos.FSys {
						b := vos.NewApplier(a.F.Clone())
						b.Apply(op, cut)
						return b.F
					}, cut, op.Key())
				}
			}
			a.Apply(op, -1)
			counts[op.Key()]++
			if !op.More {
				visit(a.Hash, whole, 0, "")
			}
		}
	}
	key := h.String() + " killed"
	var log []vos.Op
	var start *vos.FSys
	msg, _ := t.once(key, func(c *C) { h.last(c, &log, &start, false) })
	if msg != "" {
		return // reported as a case of its own
	}
	along(start, log, func(hash uint64) bool { return pass == 0 && int(hash%uint64(t.Of)) == t.Part })
	n := len(log)
	execs, bound := 0, pass+1
	if pass > 0 && env.Scale > 0 && (n < 2000 || t.Thorough) && !t.Stop() {
		// the same under all schedules with few preemptions at file operations
		// (not at every write to a blot table)
		vos.Thin = 128
		if t.Thorough {
			vos.Thin = 24
		}
		defer func() { vos.Thin = 0 }()
		var c *C
		cfg := vrt.Config{Mode: vrt.PB, Bound: bound, Delay: true, Part: t.Part, Of: t.Of}
		if !t.deadline.IsZero() {
			f := 0.9
			if t.Thorough {
				f = 0.2
			}
			cfg.Deadline = time.Now().Add(time.Duration(float64(time.Until(t.deadline)) * f))
		}
		st := vrt.Explore(cfg, func() {
			c = &C{t: t, key: key}
			env.Reset()
			vrt.IOPoints, vrt.FSPoints = true, false
			vrt.ResetLoops(env.LoopMax)
			c.guard(func(c *C) { h.last(c, &log, &start, true) })
		}, func(o *vrt.Outcome, schedule []int32) bool {
			collect()
			if o.Diverged != "" || c.msg != "" || env.Describe(o) != "" {
				// (that such a session works is another property)
				t.note("failed or diverged")
				return o.Diverged == ""
			}
			along(start, log, func(uint64) bool { return true })
			return !t.Stop() && len(bad) < 3
		})
		execs = st.Execs
		t.R.Execs += int64(st.Execs)
		t.R.Events += st.Events
		if !st.Complete {
			t.incomplete("schedules of " + key)
		}
	}
	t.R.NStates += int64(states)
	t.Count("states checked", int64(states))
	t.Count("states that open", int64(opened))
	for _, b := range bad {
		t.run(p+b, func(c *C) {
			h.last(c, &log, &start, false)
			vos.FS = named(b, start, log)
			h.survivor(c)
		})
	}
	sc := ""
	if execs > 0 {
		sc = fmt.Sprintf(" and under all schedules with %d departures from the default at file and channel operations (every %d-th write to a blot table)", bound, vos.Thin)
	}
	if pass > 0 && execs == 0 {
		return
	}
	t.Space("%s: killed after each of %d modifications and in the middle of each write, in the default schedule%s", h, n, sc)
}

func hashOf(s string) (h uint64) {
	for i := 0; i < len(s); i++ {
		h = h*131 + uint64(s[i])
	}
	return
}
