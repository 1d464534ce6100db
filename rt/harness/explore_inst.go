//go:build go1.21 && zzinst

package main

import (
	"fmt"
	"time"

	"github.com/go-air/dupi/internal/shard"
	"github.com/go-air/dupi/post"
	"github.com/go-air/dupi/zz_verif/env"
	"github.com/go-air/dupi/zz_verif/vos"
	"github.com/go-air/dupi/zz_verif/vrt"
)

// Sched says how the schedules of a case are explored.
type Sched struct {
	DPOR  bool
	Bound int // preemptions, if not DPOR
	IO    bool
	FS    bool
	Max   int     // executions
	Share float64 // of the remaining time
	Split int     // processes that share the space (PB): part t.Part of Split
}

// Explore runs the case under every schedule. Cases are distributed like other
// cases unless the space is split among all tasks.
func (t *T) Explore(key string, sc Sched, f func(c *C)) {
	if sc.Split > 1 {
		t.R.Total++
		if t.Stop() || t.replay != "" && t.replay != key || t.expect != nil {
			return
		}
	} else if !t.mine(key) {
		return
	}
	if t.progress != nil {
		t.progress.WriteAt([]byte(fmt.Sprintf("%-400.400s\n", key)), 0)
	}
	var c *C
	body := func() {
		c = &C{t: t, key: key}
		env.Reset()
		vrt.IOPoints, vrt.FSPoints = sc.IO, sc.FS
		vrt.ResetLoops(env.LoopMax)
		c.guard(f)
	}
	verdict := func(o *vrt.Outcome) string {
		if c.msg != "" {
			return c.msg
		}
		return env.Describe(o)
	}
	t.R.Cases++
	if t.schedule != nil {
		o := vrt.Run(&vrt.Fixed{Choices: t.schedule}, true, body)
		if m := verdict(o); m != "" && o.Diverged == "" {
			t.violation(key, m, t.schedule)
		}
		return
	}
	cfg := vrt.Config{Mode: vrt.PB, Bound: sc.Bound, MaxExec: sc.Max}
	if sc.DPOR {
		cfg.Mode = vrt.DPOR
	}
	if sc.Split > 1 {
		cfg.Part, cfg.Of = t.Part, t.Of
	}
	if !t.deadline.IsZero() {
		left := time.Until(t.deadline)
		if sc.Share > 0 {
			left = time.Duration(float64(left) * sc.Share)
		}
		cfg.Deadline = time.Now().Add(left)
	}
	fails := 0
	st := vrt.Explore(cfg, body, func(o *vrt.Outcome, schedule []int32) bool {
		collect()
		if o.Diverged != "" {
			t.incomplete("diverged: " + key + ": " + o.Diverged)
			t.note("diverged")
			return false
		}
		m := verdict(o)
		if m == "" {
			t.observe("", c)
			return true
		}
		// run the schedule again
		cp := append([]int32(nil), schedule...)
		o2 := vrt.Run(&vrt.Fixed{Choices: cp}, true, body)
		if m2 := verdict(o2); m2 == "" || o2.Diverged != "" {
			t.incomplete("unconfirmed failure: " + key + ": " + m)
			return true
		}
		t.violation(key, m, cp)
		fails++
		return fails < 2
	})
	env.Cleanup()
	t.R.Execs += int64(st.Execs)
	t.R.Events += st.Events
	t.R.NStates += st.Events
	if st.MaxEvents > t.R.MaxEvents {
		t.R.MaxEvents = st.MaxEvents
	}
	if st.MaxGs > t.R.MaxGs {
		t.R.MaxGs = st.MaxGs
	}
	t.Count("sleepcuts", int64(st.SleepCuts))
	mode := fmt.Sprintf("all schedules with at most %d preemptions", sc.Bound)
	if sc.DPOR {
		mode = "all schedules up to partial-order equivalence"
	}
	if !st.Complete {
		t.incomplete("schedules of " + key)
		mode += " (not finished)"
	}
	t.Space("%s: %s, %d executions", key, mode, st.Execs)
	if t.replay == "" && fails == 0 {
		// the default schedule's observation, for conformance
		msg, c := t.once(key, f)
		if msg == "" {
			t.observe(key, c)
		}
	}
}

func freeze()   { vrt.Freeze() }
func unfreeze() { vrt.Unfreeze() }

// spawn starts a goroutine of the harness.
func spawn(f func()) { vrt.Go(f) }

// Group waits for goroutines of the harness.
type Group struct{ wg vrt.WGState }

// Go runs f, which may use c.Fail.
func (g *Group) Go(c *C, f func()) {
	g.wg.Add(1)
	vrt.Go(func() {
		defer g.wg.Add(-1)
		c.guard(func(*C) { f() })
	})
}

// GoProc is Go for a goroutine that stands for a process of its own: the
// schedules vary only where processes can see each other.
func (g *Group) GoProc(c *C, f func()) {
	g.wg.Add(1)
	vrt.GoGroup(func() {
		defer g.wg.Add(-1)
		c.guard(func(*C) { f() })
	})
}
func (g *Group) Wait() { g.wg.Wait() }

// setFault makes an operation fail.
func setFault(x ioFault, n int) {
	vos.FS.Plan(vos.Call{Kind: x.kind, File: x.file}, n, x.all, x.short)
}

// noFault ends that and says how many operations failed.
func noFault() int { return vos.FS.NoPlan() }

func recordCalls() { vos.FS.Record = true }

// closeFaults: from now on closing is among the operations that can fail.
func closeFaults() { vos.FS.CloseFaults = true }

// recordedCalls are the fallible operations since recordCalls.
func recordedCalls() (res [][2]string) {
	for _, x := range vos.FS.Trace {
		res = append(res, [2]string{x.Kind, x.File})
	}
	vos.FS.Record, vos.FS.Trace = false, nil
	return
}

// serve starts the server of a shard; feed gives it posts and waits until it
// took them; endFeed ends it.
func serve(x *shard.Indexer) { vrt.Go(x.Serve) }
func feed(ch chan []post.T, ps []post.T) {
	vrt.Send(ch)(ps)
	vrt.Recv(ch)
}
func endFeed(ch chan []post.T) { vrt.Close(ch) }

// linger lets the other goroutines get as far as they can.
func linger() { vrt.Freeze(); vrt.Unfreeze() }
