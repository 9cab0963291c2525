package mcrt

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// Config is one configuration of a scenario.
type Config struct {
	Name        string
	P           map[string]int // scenario parameters
	EarlyTimers bool           // timers may fire while threads can still run (deviation)
	Horizon     time.Duration  // virtual time limit (0: 24h)
	MaxBound    int            // highest deviation bound for this configuration (-1: tier default)
	MaxSteps    int
	Calm        bool  // choosing among several ready select cases costs a deviation
	Policies    []int // default thread orders to explore (nil: {0})
	KnownID     string
}

// Get returns a parameter.
func (c *Config) Get(k string) int { return c.P[k] }

// Scenario is a closed system around the code under test.
type Scenario struct {
	Prop    string
	Name    string
	Configs func(thorough bool) []Config
	Run     func(c *Config)
}

// Scenarios is the registry.
var Scenarios []*Scenario

// Register adds a scenario.
//
// Package initialisers run again before every execution, those of the
// scenario packages included, so later registrations are ignored.
func Register(sc *Scenario) {
	if sealed {
		return
	}
	Scenarios = append(Scenarios, sc)
}

var sealed bool

type explorer struct {
	sc       *Scenario
	cfg      *Config
	policy   int
	bound    int
	promoted map[int]bool
	pending  map[int]bool
	dirty    bool // promoted set changed
	seen     *table
	tracing  bool
}

func (e *explorer) horizon() time.Duration {
	if e.cfg.Horizon > 0 {
		return e.cfg.Horizon
	}
	return 24 * time.Hour
}

func (e *explorer) promote(cls int) {
	if !e.promoted[cls] {
		if e.pending == nil {
			e.pending = map[int]bool{}
		}
		e.pending[cls] = true // takes effect from the next execution on
		e.dirty = true
	}
}

// visit returns false if the state was already explored with this budget.
func (e *explorer) visit(sig uint64, rem int) bool {
	if e.seen == nil {
		return true
	}
	return e.seen.put(sig, uint8(rem)+1)
}

// table is an open-addressing hash table sig -> best remaining budget.
type table struct {
	k []uint64
	v []uint8
	n int
}

func newTable() *table { return &table{k: make([]uint64, 1<<12), v: make([]uint8, 1<<12)} }

func (t *table) put(sig uint64, b uint8) bool {
	if t.n*4 > len(t.k)*3 {
		o := *t
		t.k, t.v, t.n = make([]uint64, len(o.k)*2), make([]uint8, len(o.k)*2), 0
		for i, v := range o.v {
			if v != 0 {
				t.put(o.k[i], v)
			}
		}
	}
	m := uint64(len(t.k) - 1)
	for i := sig & m; ; i = (i + 1) & m {
		if t.v[i] == 0 {
			t.k[i], t.v[i] = sig, b
			t.n++
			return true
		}
		if t.k[i] == sig {
			if t.v[i] >= b {
				return false
			}
			t.v[i] = b
			return true
		}
	}
}

// UnitResult is the outcome of exploring one (scenario, config, policy) unit.
type UnitResult struct {
	Prop, Scenario, Config string
	Policy                 int
	Bound                  int // completed deviation bound (-1: none)
	Target                 int
	Complete               bool // target bound completed
	Execs                  int64
	Pruned                 int64
	Steps                  int64
	States                 int64
	Decisions              int64
	MaxThreads             int
	Outcomes               map[string]int
	Promoted               []string
	Violation              string
	Choices                []int
	Ops                    []string
	Seconds                float64
	Sample                 string
}

var runCount int64

// runOne executes the scenario once.
func (e *explorer) runOne(prefix []decision) *sched {
	epoch++
	runCount++
	sealed = true
	for _, f := range resets {
		f()
	}
	x := &sched{ack: make(chan struct{}), prefix: prefix, ex: e, maxStep: e.cfg.MaxSteps,
		chans: map[uintptr]*chanState{}, shadows: map[uintptr]*shadow{}, maps: map[uintptr]*shadow{}, keyIDs: map[interface{}]int{}}
	if x.maxStep == 0 {
		x.maxStep = 20000
	}
	s = x
	cfg := *e.cfg
	m := x.newThread(nil, "main", func() { e.sc.Run(&cfg) })
	x.cur = m
	m.gate <- struct{}{}
	<-x.ack
	for len(x.live) > 0 {
		t := x.live[len(x.live)-1]
		x.cur = t
		t.gate <- struct{}{}
		<-x.ack
	}
	s = nil
	return x
}

var lastGC runtime.MemStats
var gcEvery = 0
var gcLimit uint64 = 400 << 20

func maybeGC() {
	gcEvery++
	if gcEvery%64 == 0 {
		runtime.ReadMemStats(&lastGC)
		if lastGC.HeapAlloc > gcLimit {
			runtime.GC()
			runtime.ReadMemStats(&lastGC)
			if gcLimit = 2 * lastGC.HeapAlloc; gcLimit < 400<<20 {
				gcLimit = 400 << 20
			}
		}
	}
}

// Explore explores one unit within the time limit.
func Explore(sc *Scenario, cfg *Config, policy, minBound, maxBound int, promoted []string, deadline time.Time, maxExecs int64) *UnitResult {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(3 << 30)
	start := time.Now()
	r := &UnitResult{Prop: sc.Prop, Scenario: sc.Name, Config: cfg.Name, Policy: policy, Bound: minBound - 1, Target: maxBound, Outcomes: map[string]int{}}
	e := &explorer{sc: sc, cfg: cfg, policy: policy, promoted: map[int]bool{}, tracing: traceAll}
	for _, p := range promoted {
		for i, n := range ClassNames {
			if n == p {
				e.promoted[i] = true
			}
		}
	}
	defer watch(func(msg string, tr []decision) {
		r.Violation = msg
		r.Choices = choices(tr)
		r.finish(e, start)
		if HangHook != nil {
			HangHook(r)
		}
	})()
	timeUp := false
	for e.bound = minBound; e.bound <= maxBound && !timeUp; e.bound++ {
	restart:
		e.seen = newTable()
		var prefix []decision
		for {
			e.dirty = false
			x := e.runOne(prefix)
			if traceAll {
				lastOps = x.ops
			}
			maybeGC()
			r.Execs++
			r.Steps += int64(x.steps)
			r.Decisions += int64(len(x.trace))
			if len(x.threads) > r.MaxThreads {
				r.MaxThreads = len(x.threads)
			}
			if e.dirty { // new racy variable: explore again with it as a scheduling point
				for c := range e.pending {
					e.promoted[c] = true
				}
				e.pending = nil
				goto restart
			}
			switch x.end {
			case endPruned:
				if r.Pruned++; len(prefix) == 0 {
					internalErr("the first execution visits a state twice: %s %s", sc.Name, cfg.Name)
				}
			case endViolation:
				r.Violation = x.msg
				r.Choices = choices(x.trace)
				r.finish(e, start)
				return r
			case endNormal:
				o := strings.Join(x.outcome, "; ")
				if len(r.Outcomes) < 5000 || r.Outcomes[o] > 0 {
					r.Outcomes[o]++
				}
				if r.Sample == "" || len(x.trace) > 0 && r.Execs%997 == 1 {
					r.Sample = fmt.Sprintf("choices=%v outcome=%q", nonzero(x.trace), o)
				}
			}
			// backtrack
			tr := x.trace
			i := len(tr) - 1
			used := 0
			costs := make([]int, len(tr)+1)
			for j, d := range tr {
				costs[j] = used
				if d.chosen > 0 && !d.free {
					used++
				}
			}
			for ; i >= 0; i-- {
				d := tr[i]
				if d.chosen+1 >= d.n {
					continue
				}
				if !d.free && costs[i]+1 > e.bound {
					continue
				}
				break
			}
			if i < 0 {
				break
			}
			prefix = append(prefix[:0:0], tr[:i+1]...)
			prefix[i].chosen++
			if time.Now().After(deadline) || maxExecs > 0 && r.Execs > maxExecs {
				timeUp = true
				break
			}
		}
		if r.States < int64(e.seen.n) {
			r.States = int64(e.seen.n)
		}
		if !timeUp {
			r.Bound = e.bound
		}
	}
	r.Complete = r.Bound >= maxBound
	r.finish(e, start)
	return r
}

func (r *UnitResult) finish(e *explorer, start time.Time) {
	if e.seen != nil && r.States < int64(e.seen.n) {
		r.States = int64(e.seen.n)
	}
	for c := range e.promoted {
		r.Promoted = append(r.Promoted, className(c))
	}
	sort.Strings(r.Promoted)
	r.Seconds = time.Since(start).Seconds()
}

func choices(tr []decision) []int {
	c := make([]int, len(tr))
	for i, d := range tr {
		c[i] = d.chosen
	}
	return c
}

func nonzero(tr []decision) string {
	var b strings.Builder
	for i, d := range tr {
		if d.chosen != 0 {
			fmt.Fprintf(&b, "%d:%d/%d ", i, d.chosen, d.n)
		}
	}
	return strings.TrimSpace(b.String())
}

// HangHook is called when one step runs for too long without reaching a scheduling point.
var HangHook func(r *UnitResult)

// watch calls f and ends the process if no scheduling point is reached for a long time before the returned function is called.
func watch(f func(msg string, tr []decision)) func() {
	done := make(chan struct{})
	go func() {
		last := atomic.LoadInt64(&heartbeat)
		stuck, used := 0, cpuTime()
		tick := time.NewTicker(5 * time.Second)
		defer tick.Stop()
		for {
			select {
			case <-done:
				return
			case <-tick.C:
			}
			n := atomic.LoadInt64(&heartbeat)
			if n != last {
				stuck, last, used = 0, n, cpuTime()
				continue
			}
			// by the processor time used, or much later: the machine may be
			// overloaded or have stood still
			if stuck++; stuck < 6 || stuck < 30 && cpuTime()-used < 20*time.Second {
				continue
			}
			if os.Getenv("MC_DUMP") != "" {
				if f, e := os.Create(os.Getenv("MC_DUMP")); e == nil {
					pprof.Lookup("goroutine").WriteTo(f, 2)
				}
			}
			var tr []decision
			if x := s; x != nil {
				tr = x.trace
			}
			f(hangMsg, tr)
			os.Exit(5)
		}
	}()
	return func() { close(done) }
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

const hangMsg = "hang: one step ran for 30 s without reaching a scheduling point"

// ReplayHang is called when a replay hangs.
var ReplayHang func(msg string)

// Replay runs one recorded choice sequence with tracing.
func Replay(sc *Scenario, cfg *Config, policy int, promoted []string, ch []int, tracing bool) (viol string, ops []string, log []string) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(3 << 30)
	e := &explorer{sc: sc, cfg: cfg, policy: policy, promoted: map[int]bool{}, bound: 1 << 20, tracing: tracing}
	for _, p := range promoted {
		for i, n := range ClassNames {
			if n == p {
				e.promoted[i] = true
			}
		}
	}
	defer watch(func(msg string, tr []decision) {
		if ReplayHang != nil {
			ReplayHang(msg)
		}
	})()
	x := e.replay(ch)
	return x.msg, x.ops, x.log
}

func (e *explorer) replay(ch []int) *sched {
	epoch++
	sealed = true
	for _, f := range resets {
		f()
	}
	x := &sched{ack: make(chan struct{}), ex: e, maxStep: e.cfg.MaxSteps,
		chans: map[uintptr]*chanState{}, shadows: map[uintptr]*shadow{}, maps: map[uintptr]*shadow{}, keyIDs: map[interface{}]int{}}
	if x.maxStep == 0 {
		x.maxStep = 20000
	}
	x.forced = ch
	s = x
	cfg := *e.cfg
	m := x.newThread(nil, "main", func() { e.sc.Run(&cfg) })
	x.cur = m
	m.gate <- struct{}{}
	<-x.ack
	for len(x.live) > 0 {
		t := x.live[len(x.live)-1]
		x.cur = t
		t.gate <- struct{}{}
		<-x.ack
	}
	s = nil
	return x
}
