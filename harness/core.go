// Package main is the runtime-monitoring harness for zhiqiangxu/qrpc.
//
//	qv check  <prop>              supervise all jobs of a property (used by check.sh)
//	qv worker <prop> <job> <k>    run one job in this process (used by the supervisor)
//	qv list                       list properties and jobs
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"net"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------------------------------------------------------------- registry

// JobSpec is one workload+oracle; it is run Seeds times with different PRNG states,
// each time in a process of its own.
type JobSpec struct {
	Name    string
	Quick   int // number of seeds in the quick tier
	Deep    int // number of seeds in the thorough tier
	Timeout time.Duration
	Alone   bool // do not run other jobs at the same time (memory/timing sensitive)
	NoRace  bool // not a workload for the race detector
	Fn      func(c *C)
}

// Prop is one property with the jobs that decide it.
type Prop struct {
	ID    string
	Rule  string // how cases are made and what makes one distinct and non-trivial
	MinEv int64  // fewer evaluations than this is not a verdict
	Race  bool
	Par   int // processes at a time, 0: the default
	Jobs  []JobSpec
	Notes []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// ---------------------------------------------------------------- job context

// Viol is one violation with its witness.
type Viol struct {
	Sig    string
	Detail string
}

// Result is what a worker hands to the supervisor.
type Result struct {
	Prop, Job    string
	K            int
	Seed         int64
	Viols        []Viol
	Counters     map[string]int64
	Distinct     []string
	DistinctN    int64
	Samples      []string
	Inconclusive string
	Done         bool
	WallMS       int64
}

// C is the context of one job.
type C struct {
	Prop, Job string
	K         int
	Seed      int64
	Tier      string
	Rng       *Rng

	mu       sync.Mutex
	viols    []Viol
	counters map[string]int64
	distinct map[uint64]struct{}
	keys     []string
	samples  []string
	log      []string
	incon    string
	start    time.Time
	outFile  string
	written  bool
	raceStop bool
	raceOnly bool  // violations of other kinds are not this job's business
	closing  int32 // closing of connections or servers has begun
}

// Rng is a goroutine-safe seeded PRNG.
type Rng struct {
	mu sync.Mutex
	r  *rand.Rand
}

// NewRng makes a PRNG from a seed.
func NewRng(seed int64) *Rng { return &Rng{r: rand.New(rand.NewSource(seed))} }

// Intn is rand.Intn.
func (r *Rng) Intn(n int) int { r.mu.Lock(); defer r.mu.Unlock(); return r.r.Intn(n) }

// Uint64 is rand.Uint64.
func (r *Rng) Uint64() uint64 { r.mu.Lock(); defer r.mu.Unlock(); return r.r.Uint64() }

// P is true with probability num/den.
func (r *Rng) P(num, den int) bool { return r.Intn(den) < num }

// Range is in [lo,hi].
func (r *Rng) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }

// Perm is rand.Perm.
func (r *Rng) Perm(n int) []int { r.mu.Lock(); defer r.mu.Unlock(); return r.r.Perm(n) }

// Fork derives an independent PRNG.
func (r *Rng) Fork() *Rng { return NewRng(int64(r.Uint64() >> 1)) }

// Pick returns one of the ints.
func (r *Rng) Pick(v ...int) int { return v[r.Intn(len(v))] }

// Bytes fills n random bytes.
func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	r.mu.Lock()
	r.r.Read(b)
	r.mu.Unlock()
	return b
}

func hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

func jobSeed(base int64, prop, job string, k int) int64 {
	return int64(hash64(fmt.Sprint(base), prop, job, fmt.Sprint(k)) >> 1)
}

// Violate records a violation. sig identifies what failed independent of the run.
func (c *C) Violate(sig, format string, args ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.raceOnly {
		c.counters["other_violations_ignored"]++
		c.raceStop = true
		return
	}
	if len(c.viols) < 20 {
		c.viols = append(c.viols, Viol{Sig: sig, Detail: fmt.Sprintf(format, args...)})
	}
}

// Violated tells whether a violation was recorded.
func (c *C) Violated() bool { c.mu.Lock(); defer c.mu.Unlock(); return len(c.viols) > 0 || c.raceStop }

// Count adds to a named measured counter.
func (c *C) Count(name string, n int64) { c.mu.Lock(); c.counters[name] += n; c.mu.Unlock() }

// Eval counts one evaluated case; key != "" says it is a non-trivial case with that identity.
func (c *C) Eval(key string) {
	c.mu.Lock()
	c.counters["evaluations"]++
	if key != "" {
		h := hash64(key)
		if _, ok := c.distinct[h]; !ok && len(c.keys) < 3 {
			c.keys = append(c.keys, "case evaluated: "+key)
		}
		c.distinct[h] = struct{}{}
	}
	c.mu.Unlock()
}

// Sample keeps a few actual cases for the evidence file.
func (c *C) Sample(format string, args ...interface{}) {
	c.mu.Lock()
	if len(c.samples) < 3 {
		c.samples = append(c.samples, fmt.Sprintf(format, args...))
	}
	c.mu.Unlock()
}

// Logf keeps a bounded history that is part of the replay file.
func (c *C) Logf(format string, args ...interface{}) {
	c.mu.Lock()
	if len(c.log) < 5000 {
		c.log = append(c.log, fmt.Sprintf("%9dus ", time.Since(c.start).Microseconds())+fmt.Sprintf(format, args...))
	}
	c.mu.Unlock()
}

// finish writes the result file; later calls do nothing.
func (c *C) finish(done bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.written {
		return
	}
	c.written = true
	r := Result{Prop: c.Prop, Job: c.Job, K: c.K, Seed: c.Seed, Viols: c.viols, Counters: c.counters,
		Samples: append(c.keys, c.samples...), Inconclusive: c.incon, Done: done, DistinctN: int64(len(c.distinct)),
		WallMS: time.Since(c.start).Milliseconds()}
	keys := make([]string, 0, len(c.distinct))
	for k := range c.distinct {
		keys = append(keys, fmt.Sprintf("%x", k))
	}
	sort.Strings(keys)
	r.Distinct = keys
	if len(c.viols) > 0 {
		for _, l := range c.log {
			r.Viols[0].Detail += "\n  " + l
		}
	}
	b, _ := json.Marshal(r)
	if c.outFile != "" {
		os.WriteFile(c.outFile+".tmp", b, 0o644)
		os.Rename(c.outFile+".tmp", c.outFile)
	} else {
		os.Stdout.Write(append(b, '\n'))
	}
}

// Abort ends the job at once with what was recorded.
func (c *C) Abort() {
	c.finish(true)
	os.Exit(0)
}

// ---------------------------------------------------------------- bounded progress

// control counts round trips over a loopback socket that has nothing to do with the code under test: it
// is the logical clock against which "no progress" is judged, so a stalled machine is not a violation.
var controlTicks int64

func startControl() {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return
	}
	go func() {
		s, err := ln.Accept()
		if err != nil {
			return
		}
		b := make([]byte, 1)
		for {
			if _, err := s.Read(b); err != nil {
				return
			}
			if _, err := s.Write(b); err != nil {
				return
			}
		}
	}()
	cl, err := netDial(ln.Addr().String(), 10*time.Second)
	if err != nil {
		return
	}
	go func() {
		b := make([]byte, 1)
		for {
			if _, err := cl.Write(b); err != nil {
				return
			}
			if _, err := cl.Read(b); err != nil {
				return
			}
			atomic.AddInt64(&controlTicks, 1)
			time.Sleep(5 * time.Millisecond)
		}
	}()
}

const (
	stallWall  = 12 * time.Second
	stallTicks = 1000
	stallGive  = 120 * time.Second
)

// Wait waits for done. It returns false if there was no progress: the wall bound has passed while the
// control completed stallTicks round trips.
func (c *C) Wait(done <-chan struct{}) bool { return c.waitAtLeast(done, stallWall, stallTicks) }

func (c *C) waitAtLeast(done <-chan struct{}, wall time.Duration, ticks int64) bool {
	begin := time.Now()
	t0 := atomic.LoadInt64(&controlTicks)
	tk := time.NewTicker(100 * time.Millisecond)
	defer tk.Stop()
	for {
		select {
		case <-done:
			return true
		case <-tk.C:
			el := time.Since(begin)
			if el > wall && atomic.LoadInt64(&controlTicks)-t0 >= ticks {
				select {
				case <-done:
					return true
				default:
				}
				return false
			}
			if el > stallGive {
				c.mu.Lock()
				c.incon = "control made no progress: machine stalled"
				c.mu.Unlock()
				c.Abort()
			}
		}
	}
}

// Must waits for done; no progress is a violation and ends the job.
func (c *C) Must(what string, done <-chan struct{}) {
	if c.Wait(done) {
		return
	}
	c.StallAbort(what)
}

// StallAbort records a no-progress violation with all goroutines and ends the job.
func (c *C) StallAbort(what string) {
	c.Violate("stall:"+sigOf(what), "no progress: %s still pending after %v and %d control round trips\n%s", what, stallWall, stallTicks, dumpQrpc())
	c.Abort()
}

func sigOf(s string) string {
	if i := strings.IndexByte(s, ' '); i > 0 {
		return s[:i]
	}
	return s
}

// Do runs f under Must.
func (c *C) Do(what string, f func()) {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	c.Must(what, done)
}

// Until polls cond under the stall rule and returns whether it became true.
func (c *C) Until(cond func() bool) bool {
	begin := time.Now()
	t0 := atomic.LoadInt64(&controlTicks)
	d := 200 * time.Microsecond
	for !cond() {
		time.Sleep(d)
		if d < 10*time.Millisecond {
			d *= 2
		}
		el := time.Since(begin)
		if el > stallWall && atomic.LoadInt64(&controlTicks)-t0 >= stallTicks {
			return cond()
		}
		if el > stallGive {
			c.mu.Lock()
			c.incon = "control made no progress: machine stalled"
			c.mu.Unlock()
			c.Abort()
		}
	}
	return true
}

// MustUntil is Until with a violation.
func (c *C) MustUntil(what string, cond func() bool) {
	if !c.Until(cond) {
		c.StallAbort(what)
	}
}

// Settle waits n control round trips: a logical "long enough" for something that must not happen.
func (c *C) Settle(n int64) {
	t0 := atomic.LoadInt64(&controlTicks)
	for atomic.LoadInt64(&controlTicks)-t0 < n {
		time.Sleep(time.Millisecond)
	}
}

func allStacks() string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			return string(buf[:n])
		}
		buf = make([]byte, 2*len(buf))
	}
}

// dumpQrpc returns the stacks of goroutines that are inside the code under test.
func dumpQrpc() string {
	var out []string
	seen := map[string]int{}
	for _, g := range strings.Split(allStacks(), "\n\n") {
		if strings.Contains(g, "zhiqiangxu/qrpc") {
			if i := strings.IndexByte(g, '\n'); i > 0 {
				body := g[i:]
				seen[body]++
				if seen[body] > 2 {
					continue
				}
			}
			out = append(out, g)
		}
		if len(out) > 40 {
			break
		}
	}
	return strings.Join(out, "\n\n")
}
