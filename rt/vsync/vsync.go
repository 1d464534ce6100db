//go:build go1.21

// Package vsync replaces sync in instrumented code.
package vsync

import (
	"sync"

	"github.com/go-air/dupi/zz_verif/vrt"
)

type Locker = sync.Locker
type Map = sync.Map
type Pool struct {
	New func() any
	mu  Mutex
	l   []any
}

func (p *Pool) Get() any {
	p.mu.Lock()
	defer p.mu.Unlock()
	if n := len(p.l); n > 0 {
		v := p.l[n-1]
		p.l = p.l[:n-1]
		return v
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(v any) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.l = append(p.l, v)
}

type Mutex struct {
	st   vrt.MutexState
	real sync.Mutex
}

func (m *Mutex) Lock() {
	if vrt.Running() {
		m.st.Lock()
		return
	}
	m.real.Lock()
}

func (m *Mutex) Unlock() {
	if vrt.Running() {
		m.st.Unlock()
		return
	}
	m.real.Unlock()
}

func (m *Mutex) TryLock() bool {
	if vrt.Running() {
		return m.st.TryLock()
	}
	return m.real.TryLock()
}

type RWMutex struct {
	st   vrt.MutexState
	real sync.RWMutex
}

func (m *RWMutex) Lock() {
	if vrt.Running() {
		m.st.Lock()
		return
	}
	m.real.Lock()
}

func (m *RWMutex) Unlock() {
	if vrt.Running() {
		m.st.Unlock()
		return
	}
	m.real.Unlock()
}

func (m *RWMutex) RLock() {
	if vrt.Running() {
		m.st.RLock()
		return
	}
	m.real.RLock()
}

func (m *RWMutex) RUnlock() {
	if vrt.Running() {
		m.st.RUnlock()
		return
	}
	m.real.RUnlock()
}

func (m *RWMutex) TryLock() bool {
	if vrt.Running() {
		return m.st.TryLock()
	}
	return m.real.TryLock()
}

func (m *RWMutex) TryRLock() bool {
	if vrt.Running() {
		return m.st.TryRLock()
	}
	return m.real.TryRLock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Cond struct {
	L    Locker
	st   vrt.CondState
	once sync.Once
	real *sync.Cond
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) r() *sync.Cond {
	c.once.Do(func() { c.real = sync.NewCond(c.L) })
	return c.real
}

func (c *Cond) Wait() {
	if vrt.Running() {
		switch m := c.L.(type) {
		case *Mutex:
			c.st.Wait(&m.st)
		case *RWMutex:
			c.st.Wait(&m.st)
		default:
			panic("vsync: unsupported Locker in Cond")
		}
		return
	}
	c.r().Wait()
}

func (c *Cond) Signal() {
	if vrt.Running() {
		c.st.Signal(false)
		return
	}
	c.r().Signal()
}

func (c *Cond) Broadcast() {
	if vrt.Running() {
		c.st.Signal(true)
		return
	}
	c.r().Broadcast()
}

type WaitGroup struct {
	st   vrt.WGState
	real sync.WaitGroup
}

func (w *WaitGroup) Add(n int) {
	if vrt.Running() {
		w.st.Add(n)
		return
	}
	w.real.Add(n)
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if vrt.Running() {
		w.st.Wait()
		return
	}
	w.real.Wait()
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vrt.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}
