//go:build go1.21

package vrt

import (
	"time"
	"unsafe"
)

// Mutex operations (vsync.Mutex and RWMutex).

//go:norace
func (m *MutexState) init() {
	if m.epoch != epoch {
		*m = MutexState{epoch: epoch, id: newID()}
	}
}

//go:norace
func (m *MutexState) Lock() {
	if s.abort {
		panic(abortT{})
	}
	m.init()
	g := s.cur
	g.kind, g.mu, g.obj, g.obj2 = KLock, m, m.id, 0
	yield(g)
	raceAcquireAddr(&m.sync)
	raceAcquireAddr(&m.rsync)
}

//go:norace
func (m *MutexState) TryLock() bool {
	if s.abort {
		panic(abortT{})
	}
	m.init()
	g := s.cur
	g.kind, g.obj, g.obj2 = KAtomicW, m.id, 0
	yield(g)
	if m.held || m.readers > 0 {
		return false
	}
	m.held = true
	raceAcquireAddr(&m.sync)
	raceAcquireAddr(&m.rsync)
	return true
}

//go:norace
func (m *MutexState) Unlock() {
	if s.abort {
		return
	}
	m.init()
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	raceReleaseAddr(&m.sync)
	g := s.cur
	g.kind, g.mu, g.obj, g.obj2 = KUnlock, m, m.id, 0
	yield(g)
}

//go:norace
func (m *MutexState) RLock() {
	if s.abort {
		panic(abortT{})
	}
	m.init()
	g := s.cur
	g.kind, g.mu, g.obj, g.obj2 = KRLock, m, m.id, 0
	yield(g)
	raceAcquireAddr(&m.sync)
}

//go:norace
func (m *MutexState) RUnlock() {
	if s.abort {
		return
	}
	m.init()
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	raceReleaseMergeAddr(&m.rsync)
	g := s.cur
	g.kind, g.mu, g.obj, g.obj2 = KRUnlock, m, m.id, 0
	yield(g)
}

//go:norace
func (c *CondState) init() {
	if c.epoch != epoch {
		*c = CondState{epoch: epoch, id: newID()}
	}
}

// Wait releases m, waits for a signal and acquires m again.
//
//go:norace
func (c *CondState) Wait(m *MutexState) {
	if s.abort {
		panic(abortT{})
	}
	c.init()
	m.init()
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	raceReleaseAddr(&m.sync)
	g := s.cur
	g.kind, g.cond, g.condMu, g.obj, g.obj2 = KCondWait, c, m, c.id, m.id
	yield(g)
	raceAcquireAddr(&m.sync)
}

//go:norace
func (c *CondState) Signal(all bool) {
	if s.abort {
		return
	}
	c.init()
	g := s.cur
	g.kind, g.cond, g.obj, g.obj2 = KSignal, c, c.id, 0
	if all {
		g.kind = KBroadcast
	}
	yield(g)
}

//go:norace
func (w *WGState) init() {
	if w.epoch != epoch {
		*w = WGState{epoch: epoch, id: newID()}
	}
}

//go:norace
func (w *WGState) Add(n int) {
	if s.abort {
		return
	}
	w.init()
	g := s.cur
	if n < 0 {
		raceReleaseMergeAddr(&w.sync)
		g.kind = KWgDone
	} else {
		g.kind = KWgAdd
	}
	g.wg, g.obj, g.obj2, g.selI = w, w.id, 0, n
	yield(g)
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

//go:norace
func (w *WGState) Wait() {
	if s.abort {
		panic(abortT{})
	}
	w.init()
	g := s.cur
	g.kind, g.wg, g.obj, g.obj2 = KWgWait, w, w.id, 0
	yield(g)
	raceAcquireAddr(&w.sync)
}

// Channels.

//go:norace
func chanOf(p unsafe.Pointer, c any, capacity int) *chanState {
	if p == nil {
		return nil
	}
	size := uintptr(len(s.chans))
	if s.nchans*2 > len(s.chans) {
		size *= 2
		nw := make([]*chanState, size)
		for _, o := range s.chans {
			if o == nil {
				continue
			}
			h := chanHash(o.key) % size
			for nw[h] != nil {
				h = (h + 1) % size
			}
			nw[h] = o
		}
		s.chans = nw
	}
	h := chanHash(p) % size
	for {
		st := s.chans[h]
		if st == nil {
			s.nchans++
			st = &chanState{key: p, keep: c, id: newID(), cap: capacity}
			if capacity > 0 {
				st.q = make([]any, capacity)
			}
			s.chans[h] = st
			return st
		}
		if st.key == p {
			return st
		}
		h = (h + 1) % size
	}
}

//go:norace
func chanHash(p unsafe.Pointer) uintptr { return (uintptr(p) >> 4) * 0x9E3779B1 >> 7 }

func ptrOf[C any](c C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

// Send is "c <- v", curried so that v is converted to the element type.
func Send[C ~chan T | ~chan<- T, T any](c C) func(v T) {
	return func(v T) {
		if off() {
			c <- v
			return
		}
		send(ptrOf(c), c, cap(c), v)
	}
}

//go:norace
func send(p unsafe.Pointer, c any, capacity int, v any) {
	if s.abort {
		panic(abortT{})
	}
	st := chanOf(p, c, capacity)
	g := s.cur
	g.ch, g.val, g.obj2 = st, v, 0
	if st == nil {
		g.kind, g.obj = KSend, 0
		yield(g)
		panic("unreachable")
	}
	g.obj = st.id
	if capacity > 0 {
		g.kind = KBSend
		raceAcquireAddr(&st.sync)
		raceReleaseMergeAddr(&st.sync)
	} else {
		g.kind = KSend
		raceReleaseAddr(&g.sema2)
	}
	g.peer, g.passive = -1, false
	yield(g)
	g.val = nil
	if !g.ok {
		panic("send on closed channel")
	}
	if capacity == 0 {
		syncPeer(g)
	}
}

// syncPeer announces the two happens-before edges of a rendezvous.
//
//go:norace
func syncPeer(g *G) {
	if g.passive {
		raceAcquireAddr(&g.sema3)
		g.passive = false
	} else if g.peer >= 0 {
		raceAcquireAddr(&s.gs[g.peer].sema2)
		raceReleaseAddr(&s.gs[g.peer].sema3)
	}
}

func Recv[C ~chan T | ~<-chan T, T any](c C) T {
	v, _ := Recv2(c)
	return v
}

func Recv2[C ~chan T | ~<-chan T, T any](c C) (T, bool) {
	if off() {
		v, ok := <-c
		return v, ok
	}
	a, ok := recv(ptrOf(c), c, cap(c))
	if !ok || a == nil {
		var z T
		return z, ok
	}
	return a.(T), ok
}

//go:norace
func recv(p unsafe.Pointer, c any, capacity int) (any, bool) {
	if s.abort {
		panic(abortT{})
	}
	st := chanOf(p, c, capacity)
	g := s.cur
	g.ch, g.obj2, g.val = st, 0, nil
	if st == nil {
		g.kind, g.obj = KPark, 0
		yield(g)
		panic("unreachable")
	}
	g.obj = st.id
	g.peer, g.passive = -1, false
	if capacity > 0 {
		g.kind = KBRecv
		yield(g)
		raceAcquireAddr(&st.sync)
	} else {
		g.kind = KPark
		raceReleaseAddr(&g.sema2)
		yield(g)
		if g.passive {
			syncPeer(g)
		} else {
			raceAcquireAddr(&st.sync) // closed
		}
	}
	v := g.val
	g.val = nil
	return v, g.ok
}

func Close[C ~chan T | ~chan<- T, T any](c C) {
	if off() {
		close(c)
		return
	}
	closeCh(ptrOf(c), c, cap(c))
}

//go:norace
func closeCh(p unsafe.Pointer, c any, capacity int) {
	if s.abort {
		return
	}
	if p == nil {
		panic("close of nil channel")
	}
	st := chanOf(p, c, capacity)
	g := s.cur
	raceReleaseMergeAddr(&st.sync)
	raceReleaseAddr(&g.sema2)
	g.kind, g.ch, g.obj, g.obj2 = KClose, st, st.id, 0
	yield(g)
	if !g.ok {
		panic("close of closed channel")
	}
}

// Len is len of a channel.
func Len[C ~chan T | ~chan<- T | ~<-chan T, T any](c C) int {
	if off() {
		return len(c)
	}
	return lenCh(ptrOf(c), c, cap(c))
}

//go:norace
func lenCh(p unsafe.Pointer, c any, capacity int) int {
	if p == nil {
		return 0
	}
	if s.abort {
		panic(abortT{})
	}
	st := chanOf(p, c, capacity)
	g := s.cur
	g.kind, g.obj, g.obj2 = KAtomicR, st.id, 0
	yield(g)
	return st.qn
}

// RangeCh supports "for v := range c".
type Ranger[T any] struct {
	c chan T
	r <-chan T
	V T
}

func RangeCh[C ~chan T | ~<-chan T, T any](c C) *Ranger[T] {
	return &Ranger[T]{r: (<-chan T)(c)}
}

func (r *Ranger[T]) Next() bool {
	v, ok := Recv2(r.r)
	r.V = v
	return ok
}

// SelCase is one case of a select.
type SelCase struct {
	send bool
	c    *chanState
	val  any
	free func(block bool) // used outside Run
	rv   any
}

type SelResult struct {
	I   int
	val any
	ok  bool
}

func CaseRecv[C ~chan T | ~<-chan T, T any](c C) SelCase {
	if off() {
		panic("vrt: select outside Run")
	}
	return selCase(false, ptrOf(c), c, cap(c), nil)
}

func CaseSend[C ~chan T | ~chan<- T, T any](c C) func(v T) SelCase {
	return func(v T) SelCase {
		if off() {
			panic("vrt: select outside Run")
		}
		return selCase(true, ptrOf(c), c, cap(c), v)
	}
}

//go:norace
func selCase(send bool, p unsafe.Pointer, c any, capacity int, v any) SelCase {
	return SelCase{send: send, c: chanOf(p, c, capacity), val: v}
}

//go:norace
func Select(hasDefault bool, cases ...SelCase) *SelResult {
	if s.abort {
		panic(abortT{})
	}
	g := s.cur
	g.sel, g.selN, g.selD = cases, len(cases), hasDefault
	g.kind, g.obj, g.obj2 = KSelect, 0, 0
	if len(cases) > 0 && cases[0].c != nil {
		g.obj = cases[0].c.id
	}
	if len(cases) > 1 && cases[1].c != nil {
		g.obj2 = cases[1].c.id
	}
	if hasDefault {
		g.obj2 = -1
	}
	g.peer, g.passive = -1, false
	raceReleaseAddr(&g.sema2)
	for i := range cases {
		if cases[i].c != nil && cases[i].send {
			raceReleaseMergeAddr(&cases[i].c.sync)
		}
	}
	yield(g)
	r := &SelResult{I: g.selI, val: g.val, ok: g.ok}
	g.val = nil
	if r.I >= 0 {
		raceAcquireAddr(&cases[r.I].c.sync)
		syncPeer(g)
		if cases[r.I].send && !r.ok {
			panic("send on closed channel")
		}
	}
	return r
}

func SelVal[C ~chan T | ~<-chan T, T any](c C, r *SelResult) T {
	v, _ := SelVal2(c, r)
	return v
}

func SelVal2[C ~chan T | ~<-chan T, T any](c C, r *SelResult) (T, bool) {
	if !r.ok || r.val == nil {
		var z T
		return z, r.ok
	}
	return r.val.(T), true
}

// Objects for atomics and files.

//go:norace
func (o *ObjState) ID() int32 {
	if o.epoch != epoch {
		*o = ObjState{epoch: epoch, id: newID()}
	}
	return o.id
}

// Access is a scheduling point that accesses o.
//
//go:norace
func (o *ObjState) Access(write bool) {
	if off() {
		return
	}
	if s.abort {
		panic(abortT{})
	}
	g := s.cur
	g.kind, g.obj, g.obj2 = KIO, o.ID(), 0
	if write {
		g.kind = KIOW
	}
	yield(g)
}

// Atomic is the scheduling point of an atomic operation on o.
//
//go:norace
func (o *ObjState) Atomic(write bool) {
	if off() {
		return
	}
	if s.abort {
		panic(abortT{})
	}
	g := s.cur
	g.kind, g.obj, g.obj2 = KAtomicR, o.ID(), 0
	if write {
		g.kind = KAtomicW
	}
	yield(g)
	raceAcquireAddr(&o.sync)
	raceReleaseMergeAddr(&o.sync)
}

// WaitFor blocks until en holds; an access of o. Used for file locks.
//
//go:norace
func (o *ObjState) WaitFor(en func() bool, why string) {
	if off() {
		if !en() {
			panic(Blocked{why})
		}
		return
	}
	if s.abort {
		panic(abortT{})
	}
	g := s.cur
	g.kind, g.obj, g.obj2, g.en = KFlock, o.ID(), 0, en
	yield(g)
}

// Release is a release-type access of o (file unlock).
//
//go:norace
func (o *ObjState) Release() {
	if s == nil || s.abort {
		return
	}
	g := s.cur
	g.kind, g.obj, g.obj2 = KFunlock, o.ID(), 0
	yield(g)
}

// Gosched is a scheduling point without an object.
//
//go:norace
func Gosched() {
	if s == nil || s.abort {
		return
	}
	g := s.cur
	g.kind, g.obj, g.obj2 = KYield, 0, 0
	yield(g)
}

// Running reports whether the caller is inside a controlled execution.
//
//go:norace
func Running() bool { return s != nil }

//go:norace
func (m *MutexState) TryRLock() bool {
	if s.abort {
		panic(abortT{})
	}
	m.init()
	g := s.cur
	g.kind, g.obj, g.obj2 = KAtomicW, m.id, 0
	yield(g)
	if m.held {
		return false
	}
	m.readers++
	raceAcquireAddr(&m.sync)
	return true
}

type addrObj struct {
	key unsafe.Pointer
	o   ObjState
}

// AtomicAt is the scheduling point of an atomic operation on *p.
//
//go:norace
func AtomicAt(p unsafe.Pointer, write bool) {
	if off() {
		return
	}
	for i := 0; i < s.naddr; i++ {
		if s.addrs[i].key == p {
			s.addrs[i].o.Atomic(write)
			return
		}
	}
	if s.naddr == len(s.addrs) {
		nw := make([]*addrObj, 2*len(s.addrs)+16)
		for i := 0; i < s.naddr; i++ {
			nw[i] = s.addrs[i]
		}
		s.addrs = nw
	}
	a := &addrObj{key: p}
	s.addrs[s.naddr] = a
	s.naddr++
	a.o.Atomic(write)
}

// Sleep replaces time.Sleep: time is not modelled, sleeping only lets others run.
func Sleep(time.Duration) { Gosched() }
