//go:build go1.21

package vrt

import (
	"fmt"
	"time"
)

// Mode of exploration.
type Mode int

const (
	DPOR Mode = iota // dynamic partial-order reduction with sleep sets
	PB               // every schedule up to a preemption bound
)

// Config of an exploration.
type Config struct {
	Mode     Mode
	Bound    int // PB: preemptions
	MaxExec  int // 0: none
	Deadline time.Time
	Delay    bool // PB: count every deviation from the default policy
	Part, Of int  // PB: this process explores first deviations = Part mod Of
}

// Stats of an exploration.
type Stats struct {
	Execs     int
	SleepCuts int
	Events    int64
	MaxEvents int
	MaxGs     int
	Complete  bool
	Outcomes  map[string]int
}

type node struct {
	data      bool
	n         int32
	enabled   uint64
	choice    int32
	backtrack uint64
	done      uint64
	sleep     uint64
	pend      []PendOp
	prev      int32
	prevEn    bool
	nopt      bool
	cost      int // PB: preemptions before this node
}

type chooser struct {
	mode   Mode
	prefix [evCap]int32
	n      int
	// sleep set in force from step n on
	sleep    uint64
	sleepOps [MaxG]PendOp
	log      [evCap]uint64 // sleep set before each step
}

// dependent reports whether two operations of different goroutines do not
// commute (used for sleep sets and happens-before).
//
//go:norace
func dependent(a, b PendOp) bool {
	if a.Kind == KSelect && a.Obj2 < 0 || b.Kind == KSelect && b.Obj2 < 0 {
		return true // a poll: sees whether a sender has arrived
	}
	if a.Kind == KSelect || b.Kind == KSelect {
		return chanKind(a.Kind) && chanKind(b.Kind)
	}
	if a.Obj == 0 && a.Obj2 == 0 || b.Obj == 0 && b.Obj2 == 0 {
		return false
	}
	share := a.Obj != 0 && (a.Obj == b.Obj || a.Obj == b.Obj2) || a.Obj2 != 0 && (a.Obj2 == b.Obj || a.Obj2 == b.Obj2)
	if !share {
		return false
	}
	switch {
	case a.Kind == KAtomicR && b.Kind == KAtomicR,
		a.Kind == KIO && b.Kind == KIO,
		a.Kind == KWgDone && b.Kind == KWgDone,
		(a.Kind == KRLock || a.Kind == KRUnlock) && (b.Kind == KRLock || b.Kind == KRUnlock),
		a.Kind == KPark && b.Kind == KPark:
		return false
	}
	return true
}

//go:norace
func chanKind(k Kind) bool {
	switch k {
	case KPark, KSend, KBSend, KBRecv, KClose, KSelect:
		return true
	}
	return false
}

// racing reports whether executing b before a (a executed first) can lead to
// different behaviour and both may be enabled together.
func racing(a, b PendOp) bool {
	if !dependent(a, b) {
		return false
	}
	x, y := a.Kind, b.Kind
	switch {
	case (x == KUnlock || x == KRUnlock) && (y == KLock || y == KRLock):
		return false // b waits for it, or they commute
	case x == KCondWait && b.Kind == KLock:
		return false // the mutex is held during condwait
	case x == KPark && y == KSend:
		return false // the sender chooses among all waiting receivers
	case x == KWgDone && y == KWgWait:
		return false
	}
	return true
}

//go:norace
func (c *chooser) Thread(step int, enabled uint64, prev int32, prevEn bool, nopt bool, pend []PendOp) int32 {
	if step >= evCap {
		return -1
	}
	c.log[step] = c.sleep
	var t int32 = -1
	if step < c.n {
		t = c.prefix[step]
		if step < c.n-1 || c.mode == PB {
			return t
		}
		if t < 0 || t >= MaxG || enabled&(1<<uint(t)) == 0 {
			return t // divergence, reported by the scheduler
		}
		// the last prefix step: the sleep set was installed by the explorer
	} else {
		t = defaultPick(enabled&^c.sleep, prev, prevEn && c.sleep&(1<<uint(prev)) == 0)
		if t == -1 {
			return -1
		}
	}
	if c.mode == DPOR && c.sleep != 0 {
		var op PendOp
		sel := false
		for i := 0; i < len(pend); i++ {
			if pend[i].Tid == t {
				op = pend[i]
			}
			if pend[i].Kind == KSelect {
				sel = true
			}
		}
		sel = sel && chanKind(op.Kind) // may complete a select
		for i := int32(0); i < MaxG; i++ {
			if c.sleep&(1<<uint(i)) != 0 && (i == t || dependent(op, c.sleepOps[i]) || sel && (c.sleepOps[i].Kind == KSelect || chanKind(c.sleepOps[i].Kind))) {
				c.sleep &^= 1 << uint(i)
			}
		}
	}
	return t
}

//go:norace
func (c *chooser) Data(step int, n int32) int32 {
	c.log[step] = c.sleep
	if step < c.n {
		return c.prefix[step]
	}
	return 0
}

// Explore runs body under every schedule of the configuration. check is called
// after each complete execution with the schedule (choices) and returns false
// to stop.
func Explore(cfg Config, body func(), check func(o *Outcome, schedule []int32) bool) Stats {
	st := Stats{Outcomes: map[string]int{}, Complete: true}
	ch := &chooser{mode: cfg.Mode}
	var stack []node
	for {
		if cfg.MaxExec > 0 && st.Execs >= cfg.MaxExec || !cfg.Deadline.IsZero() && time.Now().After(cfg.Deadline) {
			st.Complete = false
			return st
		}
		// install prefix
		ch.n = len(stack)
		for i := range stack {
			ch.prefix[i] = stack[i].choice
		}
		ch.sleep = 0
		if len(stack) > 0 && cfg.Mode == DPOR {
			// sleep set in force at the last node, plus its explored siblings
			k := len(stack) - 1
			nd := &stack[k]
			if nd.data {
				ch.sleep = nd.sleep
				// ops of sleeping goroutines: from the nearest thread node
				for j := k - 1; j >= 0; j-- {
					if !stack[j].data {
						setOps(ch, stack[j].pend)
						break
					}
				}
			} else {
				ch.sleep = (nd.sleep | nd.done) &^ (1 << uint(nd.choice))
				setOps(ch, nd.pend)
			}
		}
		o := Run(ch, true, body)
		st.Execs++
		st.Events += int64(len(o.Events))
		if len(o.Events) > st.MaxEvents {
			st.MaxEvents = len(o.Events)
		}
		if o.NGs > st.MaxGs {
			st.MaxGs = o.NGs
		}
		if o.Diverged != "" {
			o.Diverged = "nondeterminism: " + o.Diverged
		}
		for i := range stack {
			if i < len(o.Events) && o.Events[i].Choice != stack[i].choice && o.Diverged == "" {
				o.Diverged = fmt.Sprintf("nondeterminism: step %d chose %d, expected %d", i, o.Events[i].Choice, stack[i].choice)
			}
		}
		if len(o.Events) < len(stack) && o.Diverged == "" && !o.SleepCut && o.Panic == "" && o.Limit == "" && !o.Deadlock {
			o.Diverged = fmt.Sprintf("nondeterminism: %d events, prefix %d", len(o.Events), len(stack))
		}
		// push new nodes
		base := len(stack)
		for i := base; i < len(o.Events); i++ {
			e := &o.Events[i]
			nd := node{data: e.Data, n: e.NAlt, choice: e.Choice, enabled: e.Enabled, prev: e.Prev, prevEn: e.RunEn, nopt: e.NoPt}
			nd.sleep = ch.log[i]
			if e.Data {
				nd.done = 1 << uint(e.Choice)
			} else {
				nd.done = 1 << uint(e.Choice)
				nd.backtrack = 1 << uint(e.Choice)
				if cfg.Mode == DPOR {
					nd.pend = append([]PendOp(nil), o.Pend[e.Pend:e.Pend+e.NAlt]...)
				}
			}
			if i > 0 {
				nd.cost = costAfter(&stack[i-1], cfg.Delay)
			}
			stack = append(stack, nd)
		}
		if o.SleepCut {
			st.SleepCuts++
		}
		if cfg.Mode == DPOR {
			addBacktracks(o, stack)
		}
		if !o.SleepCut {
			choices := make([]int32, len(o.Events))
			for i := range o.Events {
				choices[i] = o.Events[i].Choice
			}
			if !check(o, choices) {
				st.Complete = false
				return st
			}
		}
		if o.Diverged != "" {
			st.Complete = false
			return st
		}
		// next alternative
		found := false
		for len(stack) > 0 {
			k := len(stack) - 1
			nd := &stack[k]
			if nd.data {
				if nd.choice+1 < nd.n {
					nd.choice++
					found = true
				}
			} else if cfg.Mode == DPOR {
				todo := nd.backtrack &^ nd.done &^ nd.sleep
				if todo != 0 {
					for i := int32(0); i < MaxG; i++ {
						if todo&(1<<uint(i)) != 0 {
							nd.choice = i
							break
						}
					}
					found = true
				}
			} else {
				todo := nd.enabled &^ nd.done
				if nd.prevEn && (nd.nopt && cfg.Bound < 100 || nd.cost >= cfg.Bound) {
					todo = 0
				}
				if cfg.Delay && nd.cost >= cfg.Bound {
					todo = 0
				}
				if todo != 0 && cfg.Of > 1 && firstDeviation(stack, k) && k%cfg.Of != cfg.Part {
					todo = 0
				}
				for i := int32(0); todo != 0 && i < MaxG; i++ {
					if todo&(1<<uint(i)) != 0 {
						nd.choice = i
						found = true
						break
					}
				}
			}
			if found {
				break
			}
			stack = stack[:k]
		}
		if !found {
			return st
		}
		k := len(stack) - 1
		if !stack[k].data {
			stack[k].done |= 1 << uint(stack[k].choice)
		}
	}
}

// firstDeviation reports whether no node before k deviates from the default.
func firstDeviation(stack []node, k int) bool {
	for i := 0; i < k; i++ {
		nd := &stack[i]
		if nd.data {
			if nd.choice != 0 {
				return false
			}
			continue
		}
		if nd.choice != defaultPick(nd.enabled, nd.prev, nd.prevEn) {
			return false
		}
	}
	return true
}

func costAfter(nd *node, delay bool) int {
	if delay && !nd.data && nd.choice != defaultPick(nd.enabled, nd.prev, nd.prevEn) {
		return nd.cost + 1
	}
	if delay {
		return nd.cost
	}
	if nd.data || !nd.prevEn || nd.choice == nd.prev {
		return nd.cost
	}
	return nd.cost + 1
}

func setOps(ch *chooser, pend []PendOp) {
	for _, p := range pend {
		ch.sleepOps[p.Tid] = p
	}
}

// addBacktracks analyses the races of an execution (vector clocks) and extends
// the backtrack sets of the stack.
func addBacktracks(o *Outcome, stack []node) {
	type vc [MaxG]int32
	n := len(o.Events)
	clk := make([]vc, n)    // clock after event i
	var cur [MaxG]vc        // clock of each goroutine
	var cnt [MaxG]int32     // events per goroutine
	idx := make([]int32, n) // per-goroutine index of event i (1-based)
	join := func(a *vc, b *vc) {
		for k := 0; k < o.NGs && k < MaxG; k++ {
			if b[k] > a[k] {
				a[k] = b[k]
			}
		}
	}
	opOf := func(i int) PendOp {
		e := &o.Events[i]
		return PendOp{e.Tid, e.Kind, e.Obj, e.Obj2}
	}
	// the operation of the partner that an event completed along with its own
	peerOp := func(i int) (PendOp, bool) {
		e := &o.Events[i]
		if e.Peer < 0 || e.Kind != KSend && e.Kind != KSelect {
			return PendOp{}, false
		}
		for _, p := range o.Pend[e.Pend : e.Pend+e.NAlt] {
			if p.Tid == e.Peer {
				return p, true
			}
		}
		return PendOp{}, false
	}
	depEv := func(i int, op PendOp) bool {
		oi := opOf(i)
		if dependent(oi, op) && !(oi.Kind == KPark && op.Kind == KSend) {
			return true
		}
		po, ok := peerOp(i)
		return ok && dependent(po, op)
	}
	hb := func(i, k int) bool { return idx[i] <= clk[k][o.Events[i].Tid] }
	// analyse finds the races of operation op of p, executed as event j (or
	// pending at the end), with earlier events, and adds to each backtrack set
	// an initial of the sequence that reverses the race (source sets).
	var v []int
	analyse := func(j int, p int32, op PendOp) {
		var ce vc
		have := false
		for i := j - 1; i >= 0; i-- {
			e := &o.Events[i]
			if e.Data || e.Tid == p || e.Peer == p {
				continue
			}
			if !racing(opOf(i), op) {
				if po, ok := peerOp(i); !ok || !racing(po, op) {
					continue
				}
			}
			if idx[i] <= cur[p][e.Tid] {
				continue // happens before p's operation anyway
			}
			if !have {
				have = true
				ce = cur[p]
				for k := 0; k < j; k++ {
					ek := &o.Events[k]
					if !ek.Data && ek.Tid != p && idx[k] > ce[ek.Tid] && depEv(k, op) {
						join(&ce, &clk[k])
					}
				}
			}
			v = v[:0]
			for k := i + 1; k < j; k++ {
				ek := &o.Events[k]
				if ek.Data {
					continue
				}
				if !hb(i, k) {
					v = append(v, k)
				}
			}
			nd := &stack[i]
			var init, seen uint64
			for a, k := range v {
				q := uint64(1) << uint(o.Events[k].Tid)
				if seen&q != 0 {
					continue
				}
				seen |= q
				ok := true
				for _, m := range v[:a] {
					if hb(m, k) {
						ok = false
						break
					}
				}
				if ok {
					init |= q
				}
			}
			if seen&(1<<uint(p)) == 0 {
				ok := true
				for _, m := range v {
					if idx[m] <= ce[o.Events[m].Tid] {
						ok = false
						break
					}
				}
				if ok {
					init |= 1 << uint(p)
				}
			}
			if init&nd.backtrack != 0 {
				continue
			}
			E := init & nd.enabled
			switch {
			case E&(1<<uint(p)) != 0:
				nd.backtrack |= 1 << uint(p)
			case E != 0:
				nd.backtrack |= E & -E
			default:
				nd.backtrack |= nd.enabled
			}
		}
	}
	for j := 0; j < n; j++ {
		e := &o.Events[j]
		if e.Data {
			continue
		}
		op := opOf(j)
		analyse(j, e.Tid, op)
		p := e.Tid
		c := cur[p]
		pop, hasPeer := peerOp(j)
		if hasPeer {
			analyse(j, e.Peer, pop)
			if e.Enabled&(1<<uint(e.Peer)) != 0 {
				stack[j].backtrack |= 1 << uint(e.Peer)
			}
		}
		for i := 0; i < j; i++ {
			ei := &o.Events[i]
			if ei.Data || ei.Tid == p || idx[i] <= c[ei.Tid] {
				continue
			}
			if depEv(i, op) || hasPeer && depEv(i, pop) {
				join(&c, &clk[i])
			}
		}
		if (op.Kind == KSend || op.Kind == KSelect) && e.Peer >= 0 {
			join(&c, &cur[e.Peer])
		}
		cnt[p]++
		c[p] = cnt[p]
		idx[j] = cnt[p]
		clk[j] = c
		cur[p] = c
		if e.Peer >= 0 && (op.Kind == KSend || op.Kind == KSelect || op.Kind == KSignal) {
			join(&cur[e.Peer], &c)
		}
		if e.Kind == KStart {
			// nothing: the parent's clock was inherited below
		}
		// goroutines that appear for the first time after this event were
		// spawned by it (the segment that follows it)
		if j+1 < n {
			var known uint64
			for i := 0; i <= j; i++ {
				known |= o.Events[i].Enabled
			}
			nx := j + 1
			for nx < n && o.Events[nx].Data {
				nx++
			}
			if nx < n {
				for q := 0; q < MaxG; q++ {
					if o.Events[nx].Enabled&(1<<uint(q)) != 0 && known&(1<<uint(q)) == 0 {
						join(&cur[q], &c)
					}
				}
			}
		}
	}
	// operations still pending at the end
	for _, p := range o.Final {
		analyse(n, p.Tid, p)
	}
}

// Fixed replays a recorded schedule.
type Fixed struct {
	Choices []int32
}

//go:norace
func (f *Fixed) Thread(step int, enabled uint64, prev int32, prevEn bool, nopt bool, pend []PendOp) int32 {
	if step < len(f.Choices) {
		return f.Choices[step]
	}
	return FirstEnabled{}.Thread(step, enabled, prev, prevEn, nopt, pend)
}

//go:norace
func (f *Fixed) Data(step int, n int32) int32 {
	if step < len(f.Choices) {
		return f.Choices[step]
	}
	return 0
}
