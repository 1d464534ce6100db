//go:build go1.21

// Package vrt is the run-time of the instrumented code: a controlled
// scheduler in which exactly one goroutine runs at a time and every
// synchronization operation is a transition chosen by the explorer.
//
// All functions that touch scheduler state are go:norace and use neither
// append nor maps, so that in a race-detecting build the hand-offs between
// goroutines are invisible to the detector; the happens-before edges of the
// modelled operations are announced explicitly (race_on.go).
package vrt

import (
	"fmt"
	"reflect"
	"runtime/debug"
	"unsafe"
)

// Kind is the kind of a pending operation.
type Kind uint8

const (
	KNone Kind = iota
	KStart
	KResume
	KLock
	KUnlock
	KRLock
	KRUnlock
	KCondWait
	KSignal
	KBroadcast
	KWgAdd
	KWgDone
	KWgWait
	KPark // arrival of a receiver on an unbuffered channel
	KSend
	KBSend // buffered
	KBRecv
	KClose
	KSelect
	KAtomicR
	KAtomicW
	KIO  // access of a file object, read
	KIOW // access of a file object, write
	KFlock
	KFunlock
	KQuiesce
	KYield
	kWaiting // parked receiver / cond waiter: not schedulable
)

var kindNames = [...]string{"none", "start", "resume", "lock", "unlock", "rlock", "runlock", "condwait",
	"signal", "broadcast", "wgadd", "wgdone", "wgwait", "park", "send", "bsend", "brecv", "close", "select",
	"atomicR", "atomicW", "ior", "iow", "flock", "funlock", "quiesce", "yield", "waiting"}

func (k Kind) String() string { return kindNames[k] }

const (
	MaxG      = 64
	MaxEvents = 1 << 22
)

// G is a controlled goroutine.
type G struct {
	id                 int32
	wake               chan struct{}
	kind               Kind
	obj                int32 // primary object
	obj2               int32 // secondary object (0: none)
	ch                 *chanState
	mu                 *MutexState
	wg                 *WGState
	cond               *CondState
	en                 func() bool
	val                any
	ok                 bool
	sel                []SelCase
	selN               int
	selI               int
	selD               bool
	done               bool
	peer               int32
	waitNext           *G // cond queue
	condMu             *MutexState
	passive            bool // the operation was completed by the partner
	grp, grp0          int32
	unseen             bool   // all it did was while exploration was off
	sema, sema2, sema3 uint64 // race addresses
}

type chanState struct {
	key    unsafe.Pointer
	keep   any
	id     int32
	cap    int
	closed bool
	q      []any
	qh, qn int
	sync   uint64
}

// MutexState is the modelled state of a mutex or rwmutex.
type MutexState struct {
	epoch   uint32
	id      int32
	held    bool
	readers int
	sync    uint64
	rsync   uint64
}

type WGState struct {
	epoch uint32
	id    int32
	n     int
	sync  uint64
}

type CondState struct {
	epoch      uint32
	id         int32
	head, tail *G
}

type ObjState struct {
	epoch uint32
	id    int32
	sync  uint64
}

// Event is one executed transition.
type Event struct {
	Tid     int32
	Kind    Kind
	Obj     int32
	Obj2    int32
	Peer    int32  // rendezvous partner, -1 none
	Enabled uint64 // set of schedulable goroutines before the transition
	Pend    int32  // start in pendLog of the pending ops snapshot, -1 none
	Data    bool   // a data choice (receiver, select case), not a thread choice
	NAlt    int32
	Choice  int32 // data: alternative; thread: tid
	RunEn   bool  // the previously running goroutine was schedulable
	Prev    int32 // previously running goroutine
	NoPt    bool  // not a preemption point (release operation)
	Frozen  bool  // exploration switched off
}

// PendOp describes the pending operation of a goroutine at a choice point.
type PendOp struct {
	Tid       int32
	Kind      Kind
	Obj, Obj2 int32
}

// Outcome of an execution.
type Outcome struct {
	Deadlock bool
	SleepCut bool
	Diverged string
	Panic    string
	Limit    string
	Blocked  string
	Events   []Event
	Pend     []PendOp
	Final    []PendOp // pending at the end
	NGs      int
	Steps    int
}

// Chooser decides at choice points. It returns the chosen tid (thread choice)
// or alternative (data choice); -1 cuts the execution.
type Chooser interface {
	Thread(step int, enabled uint64, prev int32, prevEn bool, nopt bool, pend []PendOp) int32
	Data(step int, n int32) int32
}

type sched struct {
	gs       [MaxG]*G
	n        int32
	live     int32
	cur      *G
	events   []Event
	nev      int
	pend     []PendOp
	npend    int
	nobj     int32
	chans    []*chanState
	nchans   int
	addrs    []*addrObj
	naddr    int
	ch       Chooser
	record   bool
	finished chan struct{}
	abort    bool
	abortWhy string
	out      Outcome
	frozen   bool
	coarse   bool // the choice is among groups
	ngrp     int32
	maxEv    int
	nfinish  int32
	rootDone bool
	pbuf     [MaxG]PendOp
	final    [MaxG]PendOp
}

var (
	s     *sched // non-nil: controlled mode
	epoch uint32
	// Loops counts loop iterations of instrumented code.
	Loops    int64
	LoopMax  int64 = 1 << 62
	IOPoints bool  // file reads/writes are scheduling points
	FSPoints bool  // opens, locks, directory operations are scheduling points
)

// LoopLimit is the panic value when an execution exceeds its loop budget.
type LoopLimit struct{ N int64 }

func (l LoopLimit) Error() string { return fmt.Sprintf("loop budget of %d iterations exceeded", l.N) }

type abortT struct{}

//go:norace
func Loop() {
	Loops++
	if Loops > LoopMax {
		m := LoopMax
		if s != nil && s.abort {
			panic(abortT{})
		}
		LoopMax = 1 << 62
		panic(LoopLimit{m})
	}
}

// ResetLoops sets a new loop budget.
//
//go:norace
func ResetLoops(max int64) { Loops = 0; LoopMax = max }

// Controlled reports whether a controlled execution is running.
//
//go:norace
func Controlled() bool { return s != nil && !s.abort }

//go:norace
func Aborting() bool { return s != nil && s.abort }

// FirstEnabled is the default policy: keep running, else the lowest id.
type FirstEnabled struct{}

//go:norace
func (FirstEnabled) Thread(step int, enabled uint64, prev int32, prevEn bool, nopt bool, pend []PendOp) int32 {
	return defaultPick(enabled, prev, prevEn)
}

// defaultPick keeps the running goroutine, or takes the next one in turn.
//
//go:norace
func defaultPick(enabled uint64, prev int32, prevEn bool) int32 {
	if prevEn {
		return prev
	}
	for k := int32(1); k <= MaxG; k++ {
		i := (prev + k) % MaxG
		if enabled&(1<<uint(i)) != 0 {
			return i
		}
	}
	return -1
}

//go:norace
func (FirstEnabled) Data(step int, n int32) int32 { return 0 }

// Run executes body under the scheduler and returns the outcome.
func Run(ch Chooser, record bool, body func()) *Outcome {
	if !off() {
		panic("vrt: nested Run")
	}
	epoch++
	sc := &sched{ch: ch, record: record, finished: make(chan struct{}), maxEv: MaxEvents, chans: make([]*chanState, 1<<8)}
	if record {
		sc.events = evBuf[:]
		sc.pend = pendBuf[:]
	}
	sc.nobj = 1
	setSched(sc)
	g := newG(sc)
	sc.cur = g
	g.kind = KNone
	go rootMain(g, body)
	raceDisable()
	<-sc.finished
	raceEnable()
	raceAcquireAddr(&endSync)
	sc.out.NGs = int(sc.n)
	sc.out.Steps = sc.nev
	if record {
		sc.out.Events = sc.events[:sc.nev]
		sc.out.Pend = sc.pend[:sc.npend]
	}
	setSched(nil)
	return &sc.out
}

// endSync orders everything in a run before the runs after it.
var endSync uint64

// off reports whether no run is going on. (Its own accesses must not count as
// accesses of the program under the race detector.)
//
//go:norace
func off() bool { return s == nil }

//go:norace
func setSched(x *sched) { s = x }

const evCap = 1 << 16

var evBuf [evCap]Event
var pendBuf [evCap * 8]PendOp

const tooMany = "vrt: too many goroutines"

//go:norace
func newG(sc *sched) *G {
	// the slot of a goroutine that came and went unobserved can be used again
	if sc.n >= MaxG || sc.frozen {
		for i := int32(1); i < sc.n; i++ {
			if o := sc.gs[i]; o.done && (o.unseen || !sc.record) {
				g := &G{id: i, wake: make(chan struct{}, 1), kind: KStart, peer: -1, unseen: sc.frozen, grp: sc.cur.grp}
				sc.gs[i] = g
				sc.live++
				return g
			}
		}
		if sc.n >= MaxG {
			panic(tooMany)
		}
	}
	g := &G{id: sc.n, wake: make(chan struct{}, 1), kind: KStart, peer: -1, unseen: sc.frozen}
	if sc.cur != nil {
		g.grp = sc.cur.grp
	}
	sc.gs[sc.n] = g
	sc.n++
	sc.live++
	return g
}

func rootMain(g *G, body func()) {
	runBody(g, body)
	finish(g, true)
}

func goMain(g *G, f func()) {
	waitWake(g)
	if !Aborting() {
		runBody(g, f)
	}
	finish(g, false)
}

func runBody(g *G, f func()) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if _, ok := r.(abortT); ok {
			return
		}
		notePanic(g, r, debug.Stack())
	}()
	f()
}

//go:norace
func notePanic(g *G, r any, stack []byte) {
	if s.out.Panic == "" && s.out.Limit == "" {
		if r == tooMany {
			s.out.Diverged = tooMany
		} else if l, ok := r.(LoopLimit); ok {
			s.out.Limit = l.Error()
		} else if b, ok := r.(Blocked); ok {
			s.out.Blocked = b.Why
		} else {
			s.out.Panic = fmt.Sprintf("goroutine %d: %v\n%s", g.id, r, stack)
		}
	}
	s.abort = true
}

// Blocked is the panic value of an operation that can never proceed.
type Blocked struct{ Why string }

//go:norace
func waitWake(g *G) {
	raceDisable()
	<-g.wake
	raceEnable()
}

//go:norace
func handOff(g *G) {
	raceDisable()
	g.wake <- struct{}{}
	raceEnable()
}

//go:norace
func finish(g *G, root bool) {
	raceReleaseAddr(&g.sema)
	raceReleaseMergeAddr(&endSync)
	g.done = true
	g.unseen = g.unseen && s.frozen
	g.kind = KNone
	s.live--
	if root {
		s.rootDone = true
		snapFinal()
		// drain: the others run until they block, by the default policy
		s.frozen = true
	}
	if s.abort {
		// every remaining goroutine is woken in turn and unwinds
		for i := int32(0); i < s.n; i++ {
			o := s.gs[i]
			if !o.done && o != g {
				s.cur = o
				handOff(o)
				return
			}
		}
		raceDisable()
		close(s.finished)
		raceEnable()
		return
	}
	next := pick(g)
	if next == nil {
		if s.live > 0 {
			if !s.rootDone && !s.abort {
				s.out.Deadlock = true
				s.out.Blocked = describe()
				snapFinal()
			}
			s.abort = true
			for i := int32(0); i < s.n; i++ {
				o := s.gs[i]
				if !o.done {
					s.cur = o
					handOff(o)
					return
				}
			}
		}
		raceDisable()
		close(s.finished)
		raceEnable()
		return
	}
	s.cur = next
	handOff(next)
}

// Go starts f as a controlled goroutine (or a plain one outside Run).
func Go(f func()) {
	if off() {
		go f()
		return
	}
	if Aborting() {
		panic(abortT{})
	}
	g := newG(s)
	noteSpawn(g)
	go goMain(g, f)
}

//go:norace
func noteSpawn(g *G) {
	g.peer = s.cur.id
}

// GoCall implements "go fn(args...)": arguments are already evaluated.
func GoCall(fn any, args ...any) { goCall(fn, false, args) }

// GoCallV is GoCall for a call with a final "...".
func GoCallV(fn any, args ...any) { goCall(fn, true, args) }

func goCall(fn any, slice bool, args []any) {
	if f, ok := fn.(func()); ok && len(args) == 0 {
		Go(f)
		return
	}
	fv := reflect.ValueOf(fn)
	ft := fv.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		if ft.IsVariadic() && !slice && i >= ft.NumIn()-1 {
			pt = ft.In(ft.NumIn() - 1).Elem()
		} else {
			pt = ft.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
			continue
		}
		v := reflect.ValueOf(a)
		if !v.Type().AssignableTo(pt) {
			v = v.Convert(pt)
		}
		in[i] = v
	}
	Go(func() {
		if slice {
			fv.CallSlice(in)
		} else {
			fv.Call(in)
		}
	})
}

//go:norace
func enabled(g *G) bool {
	switch g.kind {
	case KNone, kWaiting:
		return false
	case KLock:
		return !g.mu.held && g.mu.readers == 0
	case KRLock:
		return !g.mu.held
	case KWgWait:
		return g.wg.n == 0
	case KSend:
		if g.ch == nil {
			return false
		}
		return g.ch.closed || parked(g, g.ch, nil) > 0
	case KBSend:
		return g.ch.closed || g.ch.qn < g.ch.cap
	case KBRecv:
		return g.ch.closed || g.ch.qn > 0
	case KPark:
		return g.ch != nil
	case KSelect:
		return g.selD || selReady(g, nil) > 0
	case KFlock:
		return g.en()
	case KQuiesce:
		for i := int32(0); i < s.n; i++ {
			o := s.gs[i]
			if o != g && !o.done && o.kind != KQuiesce && enabled(o) {
				return false
			}
		}
		return true
	}
	return true
}

// parked counts receivers waiting on c (plain or in a select), optionally
// collecting them.
//
//go:norace
func parked(from *G, c *chanState, dst *[MaxG]*G) int {
	n := 0
	for i := int32(0); i < s.n; i++ {
		o := s.gs[i]
		if o.done || o == from {
			continue
		}
		if o.kind == kWaiting && o.ch == c {
			if dst != nil {
				dst[n] = o
			}
			n++
		} else if o.kind == KSelect {
			for j := 0; j < o.selN; j++ {
				if !o.sel[j].send && o.sel[j].c == c {
					if dst != nil {
						dst[n] = o
					}
					n++
					break
				}
			}
		}
	}
	return n
}

//go:norace
func selReady(g *G, dst *[64]int) int {
	n := 0
	for j := 0; j < g.selN; j++ {
		sc := &g.sel[j]
		if sc.c == nil {
			continue
		}
		r := false
		if sc.send {
			if sc.c.closed {
				r = true
			} else if sc.c.cap > 0 {
				r = sc.c.qn < sc.c.cap
			} else {
				for i := int32(0); i < s.n; i++ {
					o := s.gs[i]
					if o != g && !o.done && o.kind == kWaiting && o.ch == sc.c {
						r = true
					}
				}
			}
		} else {
			if sc.c.closed || sc.c.qn > 0 {
				r = true
			} else if sc.c.cap == 0 {
				for i := int32(0); i < s.n; i++ {
					o := s.gs[i]
					if o != g && !o.done && o.kind == KSend && o.ch == sc.c {
						r = true
					}
				}
			}
		}
		if r {
			if dst != nil {
				dst[n] = j
			}
			n++
		}
	}
	return n
}

// pick chooses the next transition after cur posted its operation (or
// finished) and performs its effect. It returns nil if nothing is enabled.
//
//go:norace
func pick(cur *G) *G {
	var en uint64
	for i := int32(0); i < s.n; i++ {
		g := s.gs[i]
		if !g.done && enabled(g) {
			en |= 1 << uint(i)
		}
	}
	if en == 0 {
		return nil
	}
	prevEn := !cur.done && en&(1<<uint(cur.id)) != 0
	nopt := false
	if s.coarse {
		en, cur, prevEn = groups(en, cur, prevEn)
	}
	if prevEn && cur.kind == KYield && en != 1<<uint(cur.id) {
		prevEn = false // it gives way
	}
	if prevEn {
		switch cur.kind {
		case KUnlock, KRUnlock, KWgDone, KFunlock, KResume:
			nopt = true
		}
	}
	var t int32
	var ev *Event
	if s.record && !s.frozen {
		if s.nev >= evCap-2 || s.npend+MaxG >= len(s.pend) {
			s.out.Limit = "event buffer full"
			s.abort = true
			return nil
		}
		ev = &s.events[s.nev]
		*ev = Event{Enabled: en, Prev: cur.id, RunEn: prevEn, NoPt: nopt, Peer: -1, Pend: int32(s.npend)}
		np := 0
		for i := int32(0); i < s.n; i++ {
			g := s.gs[i]
			if !g.done && g.kind != KNone && g.kind != kWaiting {
				s.pend[s.npend] = PendOp{i, g.kind, g.obj, g.obj2}
				s.pbuf[np] = s.pend[s.npend]
				np++
				s.npend++
			}
		}
		ev.NAlt = int32(np)
		t = s.ch.Thread(s.nev, en, cur.id, prevEn, nopt, s.pbuf[:np])
		if t == -1 {
			snapFinal()
			s.out.SleepCut = true
			s.abort = true
			return nil
		}
		if t < 0 || t >= MaxG || en&(1<<uint(t)) == 0 {
			s.out.Diverged = fmt.Sprintf("step %d: chosen goroutine %d not enabled (%x)", s.nev, t, en)
			s.abort = true
			return nil
		}
		g := s.gs[t]
		ev.Tid, ev.Kind, ev.Obj, ev.Obj2, ev.Choice = t, g.kind, g.obj, g.obj2, t
		s.nev++
	} else {
		t = FirstEnabled{}.Thread(0, en, cur.id, prevEn, nopt, nil)
		s.out.Steps++
		if s.out.Steps > 1<<28 {
			s.out.Limit = "step limit"
			s.abort = true
			return nil
		}
	}
	g := s.gs[t]
	effect(g, ev)
	if s.abort {
		return nil
	}
	return g
}

// groups restricts the choice: inside a group of goroutines the order is fixed
// (the running one, else the first), and other groups come in only at
// operations that are visible outside of the group, or if it has to wait.
//
//go:norace
func groups(en uint64, cur *G, curEn bool) (uint64, *G, bool) {
	var reps uint64
	var own *G
	if curEn {
		own = cur
		reps = 1 << uint(cur.id)
	}
	var seen uint64 // groups that have one
	if curEn {
		seen = 1 << uint(cur.grp)
	}
	for i := int32(0); i < s.n; i++ {
		g := s.gs[i]
		if en&(1<<uint(i)) == 0 || seen&(1<<uint(g.grp)) != 0 {
			continue
		}
		seen |= 1 << uint(g.grp)
		reps |= 1 << uint(i)
		if g.grp == cur.grp {
			own = g
		}
	}
	if own == nil {
		return reps, cur, false
	}
	switch own.kind {
	case KIO, KIOW, KFlock, KFunlock:
	default:
		reps = 1 << uint(own.id)
	}
	return reps, own, true
}

// GoGroup starts f as a goroutine of a new group and makes the scheduler
// choose among groups only.
func GoGroup(f func()) {
	if off() {
		go f()
		return
	}
	newGroup()
	Go(f)
	backGroup()
}

//go:norace
func newGroup() {
	s.coarse = true
	s.ngrp++
	s.cur.grp0, s.cur.grp = s.cur.grp, s.ngrp
}

//go:norace
func backGroup() { s.cur.grp = s.cur.grp0 }

//go:norace
func dataChoice(n int) int {
	if n <= 1 {
		return 0
	}
	if !s.record || s.frozen {
		return 0
	}
	c := s.ch.Data(s.nev, int32(n))
	if c < 0 || int(c) >= n {
		s.out.Diverged = fmt.Sprintf("step %d: data choice %d of %d", s.nev, c, n)
		s.abort = true
		return 0
	}
	ev := &s.events[s.nev]
	*ev = Event{Data: true, NAlt: int32(n), Choice: c, Peer: -1, Tid: s.cur.id, Pend: -1}
	s.nev++
	return int(c)
}

// effect performs the chosen operation of g on the modelled state.
//
//go:norace
func effect(g *G, ev *Event) {
	switch g.kind {
	case KLock:
		g.mu.held = true
	case KUnlock:
		g.mu.held = false
	case KRLock:
		g.mu.readers++
	case KRUnlock:
		g.mu.readers--
	case KCondWait:
		g.condMu.held = false
		g.kind = kWaiting
		g.ch = nil
		g.waitNext = nil
		if g.cond.tail == nil {
			g.cond.head = g
		} else {
			g.cond.tail.waitNext = g
		}
		g.cond.tail = g
		return
	case KSignal, KBroadcast:
		for g.cond.head != nil {
			w := g.cond.head
			g.cond.head = w.waitNext
			if g.cond.head == nil {
				g.cond.tail = nil
			}
			w.kind = KLock
			w.mu = w.condMu
			w.obj = w.condMu.id
			w.obj2 = 0
			w.peer = g.id
			if g.kind == KSignal {
				if ev != nil {
					ev.Peer = w.id
				}
				break
			}
			if ev != nil {
				ev.Peer = -2
			}
		}
	case KWgAdd, KWgDone:
		g.wg.n += g.selI
	case KPark:
		if g.ch.closed {
			g.val, g.ok = nil, false
			g.kind = KNone
			return
		}
		// a select-send may be waiting for a receiver
		g.kind = kWaiting
		return
	case KSend:
		if g.ch.closed {
			g.ok = false
			return
		}
		var rs [MaxG]*G
		n := parked(g, g.ch, &rs)
		r := rs[dataChoice(n)]
		if s.abort {
			return
		}
		deliver(g, r, g.ch, g.val)
		g.ok = true
		if ev != nil {
			ev.Peer = r.id
		}
	case KBSend:
		if g.ch.closed {
			g.ok = false
			return
		}
		c := g.ch
		c.q[(c.qh+c.qn)%c.cap] = g.val
		c.qn++
		g.ok = true
	case KBRecv:
		c := g.ch
		if c.qn > 0 {
			g.val, g.ok = c.q[c.qh], true
			c.q[c.qh] = nil
			c.qh = (c.qh + 1) % c.cap
			c.qn--
		} else {
			g.val, g.ok = nil, false
		}
	case KClose:
		c := g.ch
		g.ok = !c.closed
		c.closed = true
		for i := int32(0); i < s.n; i++ {
			o := s.gs[i]
			if !o.done && o.kind == kWaiting && o.ch == c {
				o.kind = KResume
				o.val, o.ok = nil, false
				o.obj, o.obj2 = 0, 0
				o.peer = -1
			}
		}
		if ev != nil {
			ev.Peer = -2
		}
	case KSelect:
		var rd [64]int
		n := selReady(g, &rd)
		if n == 0 {
			g.selI = -1
			return
		}
		j := rd[dataChoice(n)]
		if s.abort {
			return
		}
		g.selI = j
		sc := &g.sel[j]
		c := sc.c
		if sc.send {
			if c.closed {
				g.ok = false
			} else if c.cap > 0 {
				c.q[(c.qh+c.qn)%c.cap] = sc.val
				c.qn++
				g.ok = true
			} else {
				for i := int32(0); i < s.n; i++ {
					o := s.gs[i]
					if o != g && !o.done && o.kind == kWaiting && o.ch == c {
						deliver(g, o, c, sc.val)
						g.ok = true
						if ev != nil {
							ev.Peer = o.id
						}
						break
					}
				}
			}
			return
		}
		if c.qn > 0 {
			g.val, g.ok = c.q[c.qh], true
			c.q[c.qh] = nil
			c.qh = (c.qh + 1) % c.cap
			c.qn--
		} else if c.closed {
			g.val, g.ok = nil, false
		} else {
			for i := int32(0); i < s.n; i++ {
				o := s.gs[i]
				if o != g && !o.done && o.kind == KSend && o.ch == c {
					g.val, g.ok = o.val, true
					o.ok = true
					o.kind = KResume
					o.obj, o.obj2 = 0, 0
					o.peer = g.id
					o.passive = true
					g.peer = o.id
					if ev != nil {
						ev.Peer = o.id
					}
					break
				}
			}
		}
	}
}

// deliver hands v from g to the waiting receiver r.
//
//go:norace
func deliver(g, r *G, c *chanState, v any) {
	if r.kind == KSelect {
		for j := 0; j < r.selN; j++ {
			if !r.sel[j].send && r.sel[j].c == c {
				r.selI = j
				break
			}
		}
	}
	r.val, r.ok = v, true
	r.kind = KResume
	r.obj, r.obj2 = 0, 0
	r.peer = g.id
	r.passive = true
	g.peer = r.id
}

// yield posts the pending operation of the running goroutine and returns when
// it has been performed.
//
//go:norace
func yield(g *G) {
	if s.abort {
		panic(abortT{})
	}
	first := true
	for {
		next := pick(g)
		if next == nil {
			if !s.abort {
				s.out.Deadlock = true
				s.out.Blocked = describe()
				snapFinal()
				s.abort = true
			}
			panic(abortT{})
		}
		s.cur = next
		if next != g {
			handOff(next)
			waitWake(g)
			if s.abort {
				panic(abortT{})
			}
		}
		// g runs: either its operation is complete, or it has just begun to wait
		if g.kind == kWaiting && first {
			first = false
			continue
		}
		g.kind = KNone
		return
	}
}

//go:norace
func snapFinal() {
	if !s.record || s.frozen || s.abort {
		return
	}
	np := 0
	for i := int32(0); i < s.n; i++ {
		g := s.gs[i]
		if !g.done && g.kind != KNone && g.kind != kWaiting {
			s.final[np] = PendOp{i, g.kind, g.obj, g.obj2}
			np++
		}
	}
	s.out.Final = s.final[:np]
}

//go:norace
func describe() string {
	d := ""
	for i := int32(0); i < s.n; i++ {
		g := s.gs[i]
		if !g.done {
			d += fmt.Sprintf("g%d:%s(obj %d) ", g.id, g.kind, g.obj)
		}
	}
	return d
}

//go:norace
func newID() int32 {
	s.nobj++
	return s.nobj
}

// Freeze switches exploration off for the rest of the execution, after all
// other goroutines have come to rest.
//
//go:norace
func Freeze() {
	if off() {
		return
	}
	s.frozen = true
	g := s.cur
	g.kind, g.obj, g.obj2 = KQuiesce, 0, 0
	yield(g)
	// acquire everything that happened in the other goroutines
	raceAcquireAddr(&endSync)
	for i := int32(0); i < s.n; i++ {
		raceAcquireAddr(&s.gs[i].sema)
	}
}

// Live is the number of goroutines that have not ended.
//
//go:norace
func Live() int {
	if off() {
		return 0
	}
	return int(s.live)
}

// Unfreeze switches exploration on again.
//
//go:norace
func Unfreeze() {
	if !off() {
		s.frozen = false
	}
}

// Self returns the id of the running goroutine.
//
//go:norace
func Self() int32 {
	if off() {
		return -1
	}
	return s.cur.id
}

// Step is the number of transitions so far, a logical clock.
//
//go:norace
func Step() int {
	if off() {
		return 0
	}
	return s.nev
}
