//go:build go1.21 && !zzinst

package main

import (
	"sync"
	"time"

	"github.com/go-air/dupi/internal/shard"
	"github.com/go-air/dupi/post"
)

// Sched is ignored in the plain build.
type Sched struct {
	DPOR   bool
	Bound  int
	IO, FS bool
	Max    int
	Share  float64
	Split  int
}

// Explore runs the case once, on the real scheduler.
func (t *T) Explore(key string, sc Sched, f func(c *C)) {
	if t.schedule != nil || !t.mine(key) {
		return
	}
	t.run(key, f)
}

func freeze()   {}
func unfreeze() {}

func spawn(f func()) { go f() }

type Group struct{ wg sync.WaitGroup }

// Go runs f, which may use c.Fail.
func (g *Group) Go(c *C, f func()) {
	g.wg.Add(1)
	go func() {
		defer g.wg.Done()
		c.guard(func(*C) { f() })
	}()
}
func (g *Group) GoProc(c *C, f func()) { g.Go(c, f) }
func (g *Group) Wait()                 { g.wg.Wait() }

func serve(x *shard.Indexer) { go x.Serve() }
func feed(ch chan []post.T, ps []post.T) {
	ch <- ps
	<-ch
}
func endFeed(ch chan []post.T) { close(ch) }

func setFault(x ioFault, n int)         {}
func noFault() int                      { return 0 }
func closeFaults()                      {}
func recordCalls()                      {}
func recordedCalls() (r [][2]string)    { return nil }
func (t *T) crashes(h ioHist, pass int) {}
func (t *T) recoveries(h ioHist)        {}
func (t *T) recoveries2(h ioHist)       {}
func (h ioHist) isClosing()             {}
func (h ioHist) midKill(c *C)           {}

// linger lets the other goroutines get as far as they can.
func linger() { time.Sleep(30 * time.Millisecond) }
