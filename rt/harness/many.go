//go:build go1.21

package main

import (
	"fmt"
	"os"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/zz_verif/env"
)

// lowWords gives words whose blots are below 256 in their shards, for each of
// n shards some of them, by shard.
func lowWords(n int) [][]string {
	ws := make([][]string, n)
	left := n
	for j := 0; left > 0; j++ {
		w := nthWord(j)
		b := fnv1(w) % (uint32(n) << 16)
		s := int(b % uint32(n))
		if b/uint32(n) < 256 && len(ws[s]) < 3 {
			ws[s] = append(ws[s], w)
			if len(ws[s]) == 1 {
				left--
			}
		}
	}
	return ws
}

// withMany adds the spaces of many shards, on real goroutines, to a check.
func withMany(f func(t *T), check func(c *C, x *dupi.Index, r *Ref)) func(t *T) {
	return func(t *T) {
		if !env.Inst && (env.Scale > 0 || t.replay != "" || os.Getenv("VERIF_FALLBACK") != "") {
			manyShards(t, check)
		}
		if env.Inst || env.Scale == 0 {
			f(t)
		}
	}
}

func manyShards(t *T, check func(c *C, x *dupi.Index, r *Ref)) {
	ns := []int{5, 6, 7, 9, 10, 11, 12, 13, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 99, 100, 101, 127, 128, 129, 192, 255, 256, 257, 300}
	if t.Thorough || t.replay != "" {
		ns = append(ns, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2048, 4095, 4096, 4097)
	}
	if os.Getenv("VERIF_FALLBACK") != "" {
		ns = ns[:16] // with real tables
	}
	t.Space("indexes with %v shards, two sessions of 3 documents, words of every shard, on real goroutines", ns)
	for _, n := range ns {
		for split := 0; split < 2; split++ {
			n, split := n, split
			f := cf(n, 1+n%3, 1+2*split, 1, 1)
			t.Case(fmt.Sprintf("many shards, split %d, %s", split, f), func(c *C) {
				ws := lowWords(n)
				r := newRef(f)
				x := c.create(f, "idx")
				for d := 0; d < 6; d++ {
					text := "zero"
					for s := range ws {
						for k, w := range ws[s] {
							if (s+d*(k+1))%4 != 0 {
								text += " " + w
							}
						}
					}
					if d == 1+2*split {
						c.closeIndexer(x)
						x = c.reopen("idx")
					}
					c.add(x, r, doc(d, text))
				}
				c.closeIndexer(x)
				y := c.open("idx")
				if y.NumShards() != n {
					c.Fail("the index has %d shards, want %d", y.NumShards(), n)
				}
				check(c, y, r)
				c.closeIndex(y)
			})
		}
	}
}
