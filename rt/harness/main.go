//go:build go1.21

// Command harness enumerates the cases of one property check and compares
// every execution with a reference model.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"github.com/go-air/dupi/zz_verif/env"
)

// Violation of a property.
type Violation struct {
	Key      string  `json:"key"`
	Msg      string  `json:"msg"`
	Schedule []int32 `json:"schedule,omitempty"`
}

// Report of one task.
type Report struct {
	Part        int               `json:"part"`
	Cases       int64             `json:"cases"`      // cases run by this task
	Total       int64             `json:"total"`      // cases enumerated (all parts)
	Evals       int64             `json:"evals"`      // inner evaluations
	Execs       int64             `json:"execs"`      // schedules executed
	Events      int64             `json:"events"`     // transitions: scheduler events and API calls
	States      map[string]int    `json:"-"`          //
	NStates     int64             `json:"states"`     // distinct observations and schedule nodes
	Distinct    int64             `json:"distinct"`   // distinct observations
	Samples     []string          `json:"samples"`    //
	Violations  []Violation       `json:"violations"` //
	Complete    bool              `json:"complete"`   //
	Why         []string          `json:"why"`        // why it is not complete
	Obs         map[string]string `json:"obs"`        // observations for conformance
	Validated   int64             `json:"validated"`  // cases whose expected observation matched
	Mismatch    []string          `json:"mismatch"`   // conformance mismatches
	Notes       map[string]int64  `json:"notes"`
	Spaces      []string          `json:"spaces"` // description of each enumerated space
	MaxEvents   int               `json:"maxevents"`
	MaxGs       int               `json:"maxgs"`
	Replayed    bool              `json:"replayed"`
	InstEnv     bool              `json:"inst"`
	WallSeconds float64           `json:"wall"`
}

// T runs a check.
type T struct {
	R        Report
	Tier     string
	Thorough bool
	Part, Of int
	deadline time.Time
	replay   string
	schedule []int32
	expect   map[string]string // plain build: observations to compare
	progress *os.File
	stop     bool
	sampleN  int64
}

// C is the context of one case.
type C struct {
	t    *T
	key  string
	msg  string
	obs  uint64
	log  []string // observation, kept short
	long int
	n    int
	mute bool // Note does nothing

	stale map[string]string // C24: files that change before the queries
}

type failT struct{}

// Fail records a violation and ends the case.
//
//go:norace
func (c *C) Fail(f string, a ...any) {
	if c.msg == "" {
		c.msg = env.Norm(fmt.Sprintf(f, a...))
	}
	panic(failT{})
}

// Note adds to the observation of the case.
func (c *C) Note(f string, a ...any) {
	if c.mute {
		return
	}
	s := env.Norm(fmt.Sprintf(f, a...))
	h := fnv.New64a()
	var b [8]byte
	for i := range b {
		b[i] = byte(c.obs >> (8 * i))
	}
	h.Write(b[:])
	io.WriteString(h, s)
	c.obs = h.Sum64()
	if c.long < 400 {
		c.log = append(c.log, s)
		c.long += len(s)
	}
}

// Call counts a call of the code under test. (Several goroutines may do so; the
// race detector must not take that for a race of the program.)
//
//go:norace
func (c *C) Call() { c.t.R.Events++ }

// Calls counts several calls.
//
//go:norace
func (c *C) Calls(n int) { c.t.R.Events += int64(n) }

// Eval counts inner evaluations.
//
//go:norace
func (c *C) Eval(n int) { c.t.R.Evals += int64(n) }

// Space describes an enumerated space.
func (t *T) Space(f string, a ...any) { t.R.Spaces = append(t.R.Spaces, fmt.Sprintf(f, a...)) }

// Stop reports whether the task has to end.
func (t *T) Stop() bool {
	if t.stop {
		return true
	}
	if !t.deadline.IsZero() && time.Now().After(t.deadline) {
		t.incomplete("time")
		t.stop = true
	}
	return t.stop
}

func (t *T) incomplete(why string) {
	t.R.Complete = false
	for _, w := range t.R.Why {
		if w == why {
			return
		}
	}
	t.R.Why = append(t.R.Why, why)
}

// mine reports whether this task runs the case.
func (t *T) mine(key string) bool {
	t.R.Total++
	if t.Stop() {
		return false
	}
	if t.replay != "" {
		return key == t.replay
	}
	if t.expect != nil {
		if _, ok := t.expect[key]; !ok {
			return false
		}
		h := fnv.New32a()
		io.WriteString(h, key)
		return int(h.Sum32()%uint32(t.Of)) == t.Part
	}
	return int(t.R.Total%int64(t.Of)) == t.Part
}

// Case runs one case under the default schedule.
func (t *T) Case(key string, f func(c *C)) {
	if !t.mine(key) {
		return
	}
	t.run(key, f)
}

func (t *T) run(key string, f func(c *C)) {
	msg, c := t.once(key, f)
	t.R.Cases++
	if strings.HasPrefix(msg, "diverged: ") { // a limit of the machinery
		t.note("limit")
		t.incomplete(key + ": " + msg)
		return
	}
	if msg != "" {
		// believe only what happens again
		again, _ := t.once(key, f)
		if again == "" {
			t.note("unconfirmed")
			t.incomplete("unconfirmed failure: " + key + ": " + msg)
			return
		}
		t.violation(key, msg, nil)
		return
	}
	t.observe(key, c)
}

func (t *T) note(k string) {
	if t.R.Notes == nil {
		t.R.Notes = map[string]int64{}
	}
	t.R.Notes[k]++
}

// Count adds to a named counter of the report.
func (t *T) Count(k string, n int64) {
	if t.R.Notes == nil {
		t.R.Notes = map[string]int64{}
	}
	t.R.Notes[k] += n
}

func (t *T) observe(key string, c *C) {
	o := fmt.Sprintf("%016x", c.obs)
	if t.R.States == nil {
		t.R.States = map[string]int{}
	}
	if t.R.States[o]++; t.R.States[o] == 1 {
		t.R.Distinct++
		t.R.NStates++
	}
	t.sampleN++
	if n := len(t.R.Samples); n < 6 && (t.sampleN&(t.sampleN-1)) == 0 {
		s := strings.Join(c.log, "; ")
		if len(s) > 300 {
			s = s[:300] + "..."
		}
		t.R.Samples = append(t.R.Samples, key+" => "+s)
	}
	if t.expect != nil {
		if e := t.expect[key]; e != "" {
			if e == o {
				t.R.Validated++
			} else {
				t.R.Mismatch = append(t.R.Mismatch, fmt.Sprintf("%s: model %s, real %s: %s", key, e, o, strings.Join(c.log, "; ")))
			}
		}
		return
	}
	if t.R.Obs == nil {
		t.R.Obs = map[string]string{}
	}
	if len(t.R.Obs) < 20000 {
		t.R.Obs[key] = o
	}
}

func (t *T) once(key string, f func(c *C)) (string, *C) {
	c := &C{t: t, key: key}
	if t.progress != nil {
		t.progress.WriteAt([]byte(fmt.Sprintf("%-400.400s\n", key)), 0)
	}
	env.Reset()
	end := env.Run(func() { c.guard(f) })
	msg := c.msg
	if msg == "" {
		msg = end
	}
	if i := strings.Index(msg, "\n\ngoroutine"); i > 0 && len(msg) > i+1500 {
		msg = msg[:i+1500]
	}
	msg = env.Norm(msg)
	env.Cleanup()
	collect()
	return msg, c
}

func (c *C) guard(f func(c *C)) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(failT); ok {
				return
			}
			panic(r)
		}
	}()
	f(c)
}

func (t *T) violation(key, msg string, sched []int32) {
	t.R.Violations = append(t.R.Violations, Violation{key, msg, sched})
	if len(t.R.Violations) >= 4 {
		t.stop = true
		t.incomplete("stopped after several violations")
	}
}

// the shards allocate tens of megabytes each; collect by hand
var sinceGC int

func collect() {
	var m runtime.MemStats
	if sinceGC++; sinceGC%4 != 0 {
		return
	}
	runtime.ReadMemStats(&m)
	if m.HeapAlloc > 700<<20 {
		runtime.GC()
	}
}

var checks = map[string]func(t *T){}

func main() {
	log.SetOutput(io.Discard)
	debug.SetMaxStack(256 << 20)
	debug.SetMemoryLimit(2 << 30)
	id := flag.String("check", "", "")
	part := flag.String("part", "0/1", "")
	out := flag.String("out", "", "")
	tier := flag.String("tier", "quick", "")
	budget := flag.Float64("budget", 60, "seconds")
	replay := flag.String("replay", "", "key of the case to run")
	sched := flag.String("schedule", "", "schedule of the case (JSON)")
	expect := flag.String("expect", "", "file with observations to compare with")
	progress := flag.String("progress", "", "")
	prof := flag.String("cpuprofile", "", "")
	list := flag.Bool("list", false, "")
	flag.Parse()
	if *list {
		var k []string
		for c := range checks {
			k = append(k, c)
		}
		sort.Strings(k)
		fmt.Println(strings.Join(k, " "))
		return
	}
	t := &T{Tier: *tier, Thorough: *tier == "thorough", replay: *replay}
	t.R.InstEnv = env.Inst
	fmt.Sscanf(*part, "%d/%d", &t.Part, &t.Of)
	t.R.Part = t.Part
	t.R.Complete = true
	start := time.Now()
	if *budget > 0 {
		t.deadline = start.Add(time.Duration(*budget * float64(time.Second)))
	}
	if *sched != "" {
		if e := json.Unmarshal([]byte(*sched), &t.schedule); e != nil {
			panic(e)
		}
	}
	if *expect != "" {
		b, e := os.ReadFile(*expect)
		if e == nil {
			e = json.Unmarshal(b, &t.expect)
		}
		if e != nil {
			panic(e)
		}
	}
	if *progress != "" {
		t.progress, _ = os.Create(*progress)
	}
	f := checks[*id]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no such check:", *id)
		os.Exit(3)
	}
	if *prof != "" {
		w, _ := os.Create(*prof)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	f(t)
	t.R.WallSeconds = time.Since(start).Seconds()
	b, e := json.Marshal(&t.R)
	if e != nil {
		panic(e)
	}
	if *out == "" {
		os.Stdout.Write(append(b, '\n'))
		return
	}
	if e := os.WriteFile(*out, b, 0644); e != nil {
		panic(e)
	}
}
