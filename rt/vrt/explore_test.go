package vrt

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

// The reduction is validated against plain enumeration: on random small
// programs both must see the same set of outcomes.

type op struct{ k, a, b int }

func gen(r *rand.Rand) [][]op {
	nt := 2 + r.Intn(2)
	p := make([][]op, nt)
	left := 7
	if nt == 2 {
		left = 8
	}
	kinds := [][]int{
		{0, 1, 2, 3}, {0, 1, 4, 5}, {6, 7, 0}, {4, 5, 6, 7, 8}, {0, 1, 9, 10, 11}, {12, 13, 14, 0, 1}, {6, 15, 4, 5, 8, 7}, {2, 3, 16, 17, 0}, {14, 12, 13, 6, 7},
	}[r.Intn(9)]
	for i := range p {
		n := 1 + r.Intn(3)
		if i == nt-1 || n > left {
			n = min(left, 3)
		}
		left -= n
		for j := 0; j < n; j++ {
			p[i] = append(p[i], op{kinds[r.Intn(len(kinds))], r.Intn(2), r.Intn(2)})
		}
	}
	return p
}

func runProg(p [][]op, res *string) func() {
	return func() {
		var mu [2]MutexState
		var cond CondState
		var wg WGState
		var obj [2]ObjState
		var vars, mv [2]int
		un := [2]chan int{make(chan int), make(chan int)}
		bf := [2]chan int{make(chan int, 1), make(chan int, 2)}
		logs := make([]string, len(p))
		exec := func(t int) {
			l := &logs[t]
			*l += "S"
			for i, o := range p[t] {
				switch o.k {
				case 0:
					obj[o.a].Access(true)
					vars[o.a] = vars[o.a]*10 + t*3 + i + 1
				case 1:
					obj[o.a].Access(false)
					*l += fmt.Sprintf("r%d ", vars[o.a])
				case 2:
					mu[o.a].Lock()
					v := mv[o.a]
					mu[o.a].Unlock()
					mu[o.a].Lock()
					mv[o.a] = v*10 + t + 1
					mu[o.a].Unlock()
				case 3:
					mu[o.a].RLock()
					*l += fmt.Sprintf("q%d ", mv[o.a])
					mu[o.a].RUnlock()
				case 4:
					Send(un[o.a])(t*10 + i)
				case 5:
					*l += fmt.Sprintf("u%d ", Recv(un[o.a]))
				case 6:
					Send(bf[o.a])(t*10 + i)
				case 7:
					*l += fmt.Sprintf("b%d ", Recv(bf[o.a]))
				case 8:
					c1 := CaseRecv(un[o.a])
					c2 := CaseRecv(bf[o.b])
					s := Select(o.b == 1, c1, c2)
					*l += fmt.Sprintf("s%d,%v ", s.I, s.val)
				case 9:
					wg.Add(1)
				case 10:
					wg.Wait()
				case 11:
					wg.Add(1)
					obj[0].Access(true)
					vars[0]++
					wg.Add(-1)
				case 12:
					mu[0].Lock()
					cond.Wait(&mu[0])
					*l += fmt.Sprintf("w%d ", mv[0])
					mu[0].Unlock()
				case 13:
					mu[0].Lock()
					mv[0]++
					cond.Signal(o.b == 1)
					mu[0].Unlock()
				case 14:
					cond.Signal(o.a == 1)
				case 15:
					s := Select(o.a == 1, CaseSend(un[o.a])(i), CaseSend(bf[o.b])(7))
					*l += fmt.Sprintf("S%d ", s.I)
				case 16:
					*l += fmt.Sprintf("t%v ", func() bool {
						if mu[o.a].TryLock() {
							mu[o.a].Unlock()
							return true
						}
						return false
					}())
				case 17:
					mu[0].Lock()
					mu[1].Lock()
					mv[0] = mv[0]*10 + 5 + t
					mu[1].Unlock()
					mu[0].Unlock()
				}
			}
			*l += "E"
		}
		defer func() { *res = fmt.Sprint(logs, vars, mv) }()
		var fin WGState
		for t := 1; t < len(p); t++ {
			fin.Add(1)
			t := t
			Go(func() { exec(t); fin.Add(-1) })
		}
		exec(0)
		fin.Wait()
	}
}

func outcomes(t *testing.T, p [][]op, mode Mode, max int) (map[string]bool, Stats) {
	m := map[string]bool{}
	var res string
	st := Explore(Config{Mode: mode, Bound: 1000, MaxExec: max}, runProg(p, &res), func(o *Outcome, _ []int32) bool {
		if o.Diverged != "" || o.Limit != "" {
			t.Fatal(p, o.Diverged, o.Limit)
		}
		k := fmt.Sprint(res, o.Deadlock, o.Panic != "")
		m[k] = true
		return true
	})
	return m, st
}

func seed() int64 {
	n, _ := strconv.Atoi(os.Getenv("VRT_SEED"))
	return int64(n + 1)
}

func TestDPOR(t *testing.T) {
	r := rand.New(rand.NewSource(seed()))
	var fe, de, done, dl int
	for n := 0; n < 3000 && done < 400; n++ {
		p := gen(r)
		full, s1 := outcomes(t, p, PB, 20000)
		if !s1.Complete {
			continue
		}
		red, s2 := outcomes(t, p, DPOR, 0)
		done++
		fe += s1.Execs
		de += s2.Execs
		for k := range full {
			if !red[k] {
				t.Fatalf("program %v: outcome %s missed (%d of %d found; %d vs %d executions)", p, k, len(red), len(full), s2.Execs, s1.Execs)
			}
		}
		for k := range red {
			if !full[k] {
				t.Fatalf("program %v: outcome %s only with reduction", p, k)
			}
		}
		if len(full) > 1 {
			dl++
		}
	}
	t.Logf("%d programs (%d with several outcomes), %d executions in full, %d reduced", done, dl, fe, de)
}
