// Package core is the monitoring framework: it executes seeded cases of a
// property against the real library, records what the monitors observed and
// turns monitor alarms, panics, hangs and memory blow-ups into verdicts.
package core

import (
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Check is the monitor of one property.
type Check struct {
	ID   string
	Rule string // how cases are made and what makes one non-trivial
	// Quick and Thorough are the fixed numbers of cases of the tiers
	Quick, Thorough int
	// Run executes one case
	Run func(c *Case)
	// MinEvents lists the least number of events the whole (quick) run must have observed for a pass to mean anything
	MinEvents map[string]int64
	// Serial cases use their own goroutines, so only one runs at a time
	Serial bool
	// Assumptions are copied to the evidence
	Assumptions []string
}

// Case is one execution
type Case struct {
	Idx  int
	Tier string
	Seed uint64
	R    *Rng

	check     *Check
	res       *shard
	artifacts map[string]string
	fails     int
	notes     []string
}

// Failure is a violation seen by a monitor
type Failure struct {
	Case      int               `json:"case"`
	Sig       string            `json:"sig"`
	Message   string            `json:"message"`
	Artifacts map[string]string `json:"artifacts,omitempty"`
}

// Result of a worker
type Result struct {
	Cases    int              `json:"cases"`
	Events   map[string]int64 `json:"events"`
	Skips    map[string]int64 `json:"skips"`
	Distinct int              `json:"distinct"`
	Samples  []string         `json:"samples"`
	Failures []Failure        `json:"failures"`
	Suspects []int            `json:"suspects"` // cases that were running when the watchdog fired
	Watchdog string           `json:"watchdog"`
	Done     bool             `json:"done"`
}

type shard struct {
	mu       sync.Mutex
	events   map[string]int64
	skips    map[string]int64
	sigs     map[uint64]struct{}
	samples  map[int]string
	failures []Failure
	nFail    int
}

func newShard() *shard {
	return &shard{events: map[string]int64{}, skips: map[string]int64{}, sigs: map[uint64]struct{}{}, samples: map[int]string{}}
}

// Event counts something a monitor observed
func (c *Case) Event(name string, n int) {
	c.res.mu.Lock()
	c.res.events[name] += int64(n)
	c.res.mu.Unlock()
}

// Skip counts a comparison that was not decided (an ambiguous threshold, say)
func (c *Case) Skip(name string) {
	c.res.mu.Lock()
	c.res.skips[name]++
	c.res.mu.Unlock()
}

// Sig marks the case as non-trivial, with a signature of what it exercised; distinct signatures are counted
func (c *Case) Sig(parts ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	c.res.mu.Lock()
	c.res.sigs[h.Sum64()] = struct{}{}
	c.res.mu.Unlock()
	if c.Idx < 40 {
		t := ""
		for _, p := range parts {
			if b, ok := p.([]byte); ok {
				t += fmt.Sprintf("%q ", b)
			} else {
				t += fmt.Sprintf("%+v ", p)
			}
		}
		if len(t) > 1500 {
			t = t[:1500] + "..."
		}
		c.Sample("%s", t)
	}
}

// Sample keeps the description of a case for the evidence
func (c *Case) Sample(format string, a ...any) {
	if c.Idx > 4000 {
		return
	}
	c.res.mu.Lock()
	if len(c.res.samples) < 2 {
		c.res.samples[c.Idx] = fmt.Sprintf(format, a...)
	}
	c.res.mu.Unlock()
}

// Artifact attaches the input of the case to its failures
func (c *Case) Artifact(name, content string) {
	if c.artifacts == nil {
		c.artifacts = map[string]string{}
	}
	c.artifacts[name] = content
}

// Failf reports a violation
func (c *Case) Failf(sig, format string, a ...any) {
	c.fails++
	c.res.mu.Lock()
	defer c.res.mu.Unlock()
	c.res.nFail++
	if len(c.res.failures) < 5 && c.fails <= 2 {
		arts := map[string]string{}
		for k, v := range c.artifacts {
			arts[k] = v
		}
		c.res.failures = append(c.res.failures, Failure{Case: c.Idx, Sig: sig, Message: fmt.Sprintf(format, a...), Artifacts: arts})
	}
}

// Failed tells whether the case has reported a violation
func (c *Case) Failed() bool { return c.fails > 0 }

func hashSeed(id string, seed uint64, idx int) (uint64, uint64) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", id, seed, idx)
	a := h.Sum64()
	fmt.Fprint(h, "/b")
	return a, h.Sum64()
}

// Options of a worker run
type Options struct {
	Tier    string
	Seed    uint64
	Only    int // -1: all
	Workers int
	// CPULimit is how much processor time one case may use, in seconds, before it counts as hanging
	CPULimit float64
	// MemLimit is how many bytes of heap the worker may use
	MemLimit uint64
	Journal  string
	Scale    float64
}

type slot struct {
	tid   atomic.Int64
	idx   atomic.Int64
	start atomic.Uint64 // thread cpu ns at the start of the case
}

func threadCPU(tid int64) uint64 {
	b, err := os.ReadFile("/proc/self/task/" + strconv.FormatInt(tid, 10) + "/schedstat")
	if err == nil {
		f := strings.Fields(string(b))
		if len(f) > 0 {
			v, err := strconv.ParseUint(f[0], 10, 64)
			if err == nil && v > 0 {
				return v
			}
		}
	}
	b, err = os.ReadFile("/proc/self/task/" + strconv.FormatInt(tid, 10) + "/stat")
	if err != nil {
		return 0
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndexByte(s, ')')+1:])
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseUint(f[11], 10, 64)
	k, _ := strconv.ParseUint(f[12], 10, 64)
	return (u + k) * 10_000_000
}

// processCPU is the processor time all threads have used, in seconds
func processCPU() float64 {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return float64(u.Utime.Sec+u.Stime.Sec) + float64(u.Utime.Usec+u.Stime.Usec)/1e6
}

// idleTicks is for how many looks of the watchdog a run may make no progress and use next to no processor time
// before it counts as deadlocked
const idleTicks = 240

// quickTime ends quick runs on slow machines: no new case is started after it. What was observed until then counts.
const quickTime = 400 * time.Second

// RunWorker executes the cases of a check and returns what was observed.
// onAbort is called (from the watchdog) when a case hangs or memory runs out; it must not return.
func RunWorker(ch *Check, opt Options, onAbort func(Result)) Result {
	began := time.Now()
	n := ch.Quick
	if opt.Tier == "thorough" {
		n = ch.Thorough
	}
	if opt.Scale > 0 {
		n = int(float64(n) * opt.Scale)
	}

	first := 0
	if opt.Only >= 0 {
		first, n = opt.Only, opt.Only+1
	}

	workers := opt.Workers
	if ch.Serial {
		workers = 1
	}

	shards := make([]*shard, workers)
	slots := make([]*slot, workers)
	for i := range shards {
		shards[i] = newShard()
		slots[i] = &slot{}
		slots[i].idx.Store(-1)
	}

	var journal *os.File
	if opt.Journal != "" {
		journal, _ = os.OpenFile(opt.Journal, os.O_CREATE|os.O_RDWR, 0o644)
	}

	var done atomic.Int64
	next := atomic.Int64{}
	next.Store(int64(first))

	merge := func(suspects []int, why string) Result {
		res := Result{Cases: int(done.Load()), Events: map[string]int64{}, Skips: map[string]int64{}, Suspects: suspects, Watchdog: why}
		sigs := map[uint64]struct{}{}
		type smp struct {
			i int
			s string
		}
		var samples []smp
		for _, s := range shards {
			s.mu.Lock()
			for k, v := range s.events {
				res.Events[k] += v
			}
			for k, v := range s.skips {
				res.Skips[k] += v
			}
			for k := range s.sigs {
				sigs[k] = struct{}{}
			}
			for i, t := range s.samples {
				samples = append(samples, smp{i, t})
			}
			res.Failures = append(res.Failures, s.failures...)
			s.mu.Unlock()
		}
		sort.Slice(samples, func(i, j int) bool { return samples[i].i < samples[j].i })
		for i, s := range samples {
			if i < 6 {
				res.Samples = append(res.Samples, fmt.Sprintf("case %d: %s", s.i, s.s))
			}
		}
		sort.SliceStable(res.Failures, func(i, j int) bool { return res.Failures[i].Case < res.Failures[j].Case })
		res.Distinct = len(sigs)
		return res
	}

	var finished atomic.Bool
	go func() {
		var ms runtime.MemStats
		ticks, since, cases := 0, processCPU(), done.Load()
		current, atStart := int64(-1), 0.0
		for {
			time.Sleep(500 * time.Millisecond)
			if finished.Load() {
				return
			}
			var stuck []int
			for _, s := range slots {
				idx, start := s.idx.Load(), s.start.Load()
				if idx < 0 {
					continue
				}
				used := threadCPU(s.tid.Load())
				if s.idx.Load() == idx && used > start && float64(used-start)/1e9 > opt.CPULimit {
					stuck = append(stuck, int(idx))
				}
			}
			if ch.Serial { // the goroutines of the case run on other threads
				now := processCPU()
				if idx := slots[0].idx.Load(); idx != current {
					current, atStart = idx, now
				} else if idx >= 0 && now-atStart > 2*opt.CPULimit {
					stuck = []int{int(idx)}
				}
			}
			if len(stuck) > 0 {
				onAbort(merge(stuck, fmt.Sprintf("a case used more than %.0f s of processor time", opt.CPULimit)))
			}
			if ticks++; done.Load() != cases || processCPU()-since > 1 {
				ticks, since, cases = 0, processCPU(), done.Load()
			} else if ticks >= idleTicks {
				for _, s := range slots {
					if i := s.idx.Load(); i >= 0 {
						stuck = append(stuck, int(i))
					}
				}
				onAbort(merge(stuck, "a case waits forever"))
			}
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > opt.MemLimit {
				var all []int
				for _, s := range slots {
					if i := s.idx.Load(); i >= 0 {
						all = append(all, int(i))
					}
				}
				onAbort(merge(all, fmt.Sprintf("the heap grew beyond %d MB", opt.MemLimit>>20)))
			}
		}
	}()

	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			runtime.LockOSThread()
			sl := slots[w]
			sl.tid.Store(int64(syscall.Gettid()))
			for {
				i := int(next.Add(1) - 1)
				if i >= n || opt.Tier == "quick" && opt.Only < 0 && time.Since(began) > quickTime {
					break
				}
				shards[w].mu.Lock()
				nf := shards[w].nFail
				shards[w].mu.Unlock()
				if nf > 40 {
					break // enough evidence
				}
				sl.start.Store(threadCPU(sl.tid.Load()))
				sl.idx.Store(int64(i))
				if journal != nil {
					journal.WriteAt([]byte(fmt.Sprintf("%-15d\n", i)), int64(w*16))
				}
				runCase(ch, opt, i, shards[w])
				sl.idx.Store(-1)
				done.Add(1)
			}
			if journal != nil {
				journal.WriteAt([]byte(fmt.Sprintf("%-15d\n", -1)), int64(w*16))
			}
		}(w)
	}
	wg.Wait()
	finished.Store(true)
	r := merge(nil, "")
	r.Done = true
	return r
}

func runCase(ch *Check, opt Options, i int, sh *shard) {
	a, b := hashSeed(ch.ID, opt.Seed, i)
	c := &Case{Idx: i, Tier: opt.Tier, Seed: opt.Seed, R: &Rng{rand.New(rand.NewPCG(a, b))}, check: ch, res: sh}
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			c.Artifact("stack", st)
			c.Failf("panic:"+panicSite(st), "panic: %v (at %s)", p, panicSite(st))
		}
	}()
	ch.Run(c)
}

// panicSite finds the innermost function of the library on the stack
func panicSite(st string) string {
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "github.com/Wieku/gosu-pp/") {
			if k := strings.LastIndexByte(l, '('); k > 0 {
				l = l[:k]
			}
			return strings.TrimPrefix(l, "github.com/Wieku/gosu-pp/")
		}
	}
	return "harness"
}

// Rng adds helpers to the generator of a case
type Rng struct{ *rand.Rand }

// Int returns a number in [lo, hi]
func (r *Rng) Int(lo, hi int) int { return lo + r.IntN(hi-lo+1) }

// F returns a number in [lo, hi)
func (r *Rng) F(lo, hi float64) float64 { return lo + (hi-lo)*r.Float64() }

// P is true with probability p
func (r *Rng) P(p float64) bool { return r.Float64() < p }

// Pick returns one of the values
func Pick[T any](r *Rng, v ...T) T { return v[r.IntN(len(v))] }
