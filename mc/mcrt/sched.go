// Package mcrt is a controlled runtime for stateless model checking of Go
// code. The rewriter sends every concurrency-relevant operation of the code
// under test here. Exactly one thread runs at a time; at every visible
// operation the scheduler decides, from an explicit choice sequence, which
// thread (or timer) goes next. See explore.go for the search.
package mcrt

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
)

// VC is a vector clock indexed by thread number.
type VC []uint32

func (v VC) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *VC) join(o VC) {
	if len(o) > len(*v) {
		n := make(VC, len(o), len(o)+4)
		copy(n, *v)
		*v = n
	}
	w := *v
	for i, x := range o {
		if x > w[i] {
			w[i] = x
		}
	}
}

func (v VC) clone() VC {
	n := make(VC, len(v), len(v)+2)
	copy(n, v)
	return n
}

func mix(a, b uint64) uint64 {
	h := a ^ (b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2))
	h ^= h >> 31
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 29
	h *= 0x94d049bb133111eb
	h ^= h >> 32
	return h
}

func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// Thread is one controlled goroutine.
type Thread struct {
	id     int // creation number in this execution
	path   []int32
	phash  uint64
	kids   int32
	name   string
	gate   chan struct{}
	vc     VC
	hash   uint64
	done   bool
	start  bool // has not run yet
	desc   string
	enable func() bool // nil: always enabled
	idle   int         // 1: waits for quiescence
	low    int         // > 0: demoted, runs only when no other thread can
	yield  bool

	// pending channel operation
	chops  []*chop
	chDone int
	chVal  interface{}
	chOK   bool
	hasDef bool
}

func lessPath(a, b []int32) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

func (t *Thread) tick() {
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.id]++
}

// obj is the scheduler-side state of a synchronisation object.
type obj struct {
	hash uint64
	vc   VC
}

// touch: t performs an operation that reads and changes o.
func (s *sched) touch(t *Thread, o *obj, kind uint64) {
	t.hash = mix(mix(t.hash, o.hash), kind)
	o.hash = mix(t.hash, t.phash)
}

func (t *Thread) acquire(o *obj) { t.vc.join(o.vc) }
func (t *Thread) release(o *obj) { o.vc.join(t.vc); t.tick() }

type endKind int

const (
	endNone endKind = iota
	endNormal
	endPruned
	endViolation
	endInternal
)

type decision struct {
	n      int
	chosen int
	free   bool
	sig    uint64
}

type sched struct {
	threads []*Thread // live and finished, creation order
	live    []*Thread // not finished, path order
	cur     *Thread
	dead    bool
	end     endKind
	msg     string
	ack     chan struct{}
	steps   int
	maxStep int

	now     int64
	timers  []*timerEnt
	clockH  uint64
	clockVC VC
	early   int // early timer firings so far

	forced []int
	prefix []decision
	trace  []decision
	used   int
	ex     *explorer

	chans   map[uintptr]*chanState
	shadows map[uintptr]*shadow
	maps    map[uintptr]*shadow
	keyIDs  map[interface{}]int
	nextKey int
	randN   int
	lows    int    // demotions so far
	lowH    uint64 // their history

	logObj  obj
	log     []string
	outcome []string

	ops      []string // textual trace (replay only)
	registry map[string]*Listener
	sawRace  bool
	leakSeq  int
}

var (
	s *sched // nil outside executions
	// ClassNames names the instrumented variable classes.
	ClassNames []string
	resets     []func()
	heartbeat  int64
)

// RegisterReset registers a function that re-initialises package variables.
func RegisterReset(f func()) { resets = append(resets, f) }

// Zero sets a variable to its zero value.
func Zero[T any](p *T) { var z T; *p = z }

func (s *sched) newThread(parent *Thread, name string, f func()) *Thread {
	t := &Thread{id: len(s.threads), gate: make(chan struct{}, 1), name: name, start: true, desc: "start", chDone: -1}
	if parent != nil {
		t.path = append(append([]int32{}, parent.path...), parent.kids)
		t.phash = mix(parent.phash, uint64(parent.kids)+77)
		parent.kids++
		t.vc = parent.vc.clone()
		parent.tick()
		t.hash = mix(t.phash, parent.hash)
	} else {
		t.phash = 1
	}
	s.addThread(t, f)
	return t
}

func (s *sched) addThread(t *Thread, f func()) {
	if len(s.threads) >= 400+s.maxStep/50 {
		s.fail("too many threads (runaway goroutine creation)")
	}
	t.id = len(s.threads)
	t.tick()
	s.threads = append(s.threads, t)
	i := sort.Search(len(s.live), func(i int) bool { return lessPath(t.path, s.live[i].path) })
	s.live = append(s.live, nil)
	copy(s.live[i+1:], s.live[i:])
	s.live[i] = t
	go func() {
		<-t.gate
		defer s.threadEnd(t)
		if s.dead {
			return
		}
		t.start = false
		f()
	}()
}

func (s *sched) threadEnd(t *Thread) {
	r := recover()
	t.done = true
	for i, x := range s.live {
		if x == t {
			s.live = append(s.live[:i], s.live[i+1:]...)
			break
		}
	}
	if s.dead {
		s.ack <- struct{}{}
		return
	}
	if r != nil {
		buf := make([]byte, 16<<10)
		buf = buf[:runtime.Stack(buf, false)]
		s.setEnd(endViolation, fmt.Sprintf("crash: unrecovered panic in goroutine %s: %v\n%s", t.name, r, trimStack(string(buf))))
		s.dead = true
		s.ack <- struct{}{}
		return
	}
	if t.id == 0 {
		s.setEnd(endNormal, "")
		s.dead = true
		s.ack <- struct{}{}
		return
	}
	t.hash = mix(t.hash, 0xdead)
	n := s.pick(nil)
	if n == nil {
		s.dead = true
		s.ack <- struct{}{}
		return
	}
	s.cur = n
	n.gate <- struct{}{}
}

func trimStack(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "mcrt.") || strings.Contains(l, "/mcrt/") {
			continue
		}
		out = append(out, l)
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (s *sched) setEnd(k endKind, msg string) {
	if s.end == endNone {
		s.end, s.msg = k, msg
	}
}

// fail records a violation and ends the execution.
func (s *sched) fail(msg string) {
	s.setEnd(endViolation, msg)
	s.dead = true
	runtime.Goexit()
}

func internalErr(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "mcrt internal error: "+f+"\n", a...)
	os.Exit(4)
}

func (s *sched) sig() uint64 {
	h := mix(s.clockH, uint64(s.now)) + s.lowH
	for _, t := range s.threads {
		h += mix(t.phash, t.hash)
	}
	return h
}

func (s *sched) enabled(t *Thread) bool {
	if t.chops != nil || t.hasDef {
		return s.chEnabled(t)
	}
	if t.enable != nil {
		return t.enable()
	}
	return true
}

// decide takes a choice among n alternatives; -1 means the execution ends here.
func (s *sched) decide(n int, free bool, tag uint64) int {
	if n <= 1 {
		return 0
	}
	i := len(s.trace)
	sg := mix(s.sig(), tag)
	c := 0
	if s.forced != nil {
		if i < len(s.forced) {
			c = s.forced[i]
			if c >= n {
				internalErr("replay: choice out of range at %d", i)
			}
		}
	} else if i < len(s.prefix) {
		p := s.prefix[i]
		if p.n != n || p.sig != sg || p.free != free {
			if lastOps != nil {
				for j := range s.ops {
					if j >= len(lastOps) || s.ops[j] != lastOps[j] {
						fmt.Fprintf(os.Stderr, "first difference at %d:\n now  %s\n then %s\n", j, s.ops[j], lastOps[j])
						break
					}
				}
			}
			internalErr("nondeterministic replay at decision %d: n=%d/%d sig=%x/%x\n%s", i, n, p.n, sg, p.sig, strings.Join(s.ops, "\n"))
		}
		c = p.chosen
		if c >= n {
			internalErr("choice out of range")
		}
	} else if s.ex != nil && !s.ex.visit(sg, s.ex.bound-s.used) {
		s.setEnd(endPruned, "")
		return -1
	}
	if c > 0 && !free {
		s.used++
	}
	s.trace = append(s.trace, decision{n, c, free, sg})
	return c
}

// pick chooses the next thread to run. t is the running thread (nil when it
// has just finished). nil: the execution has ended.
func (s *sched) pick(t *Thread) *Thread {
	atomic.AddInt64(&heartbeat, 1)
	for {
		s.steps++
		if s.steps > s.maxStep {
			s.setEnd(endViolation, fmt.Sprintf("livelock: no end after %d steps\n%s", s.maxStep, s.describe()))
			return nil
		}
		var opts [24]*Thread
		n := 0
		// default first: the running thread, else policy order
		pol := s.ex.policyOf()
		curOK := t != nil && t.idle == 0 && !t.yield && s.enabled(t)
		if curOK {
			opts[0] = t
			n = 1
		}
		L := len(s.live)
		add := func(x *Thread) {
			if x == t && curOK || x.idle != 0 {
				return
			}
			if n < len(opts) && s.enabled(x) {
				opts[n] = x
				n++
			}
		}
		switch pol % 10 {
		case 1: // newest path first
			for i := L - 1; i >= 0; i-- {
				add(s.live[i])
			}
		case 2: // round robin after the current one
			k := 0
			if s.cur != nil {
				k = sort.Search(L, func(i int) bool { return lessPath(s.cur.path, s.live[i].path) })
			}
			for i := 0; i < L; i++ {
				add(s.live[(k+i)%L])
			}
		default:
			for i := 0; i < L; i++ {
				add(s.live[i])
			}
		}
		// a yielding thread goes last
		for i := 0; i+1 < n; i++ {
			if opts[i].yield {
				y := opts[i]
				copy(opts[i:n-1], opts[i+1:n])
				opts[n-1] = y
				break
			}
		}
		if pol >= 10 && n > 1 {
			byPriority(opts[:n])
		}
		nt := 0
		if k := s.overdue(); k > 0 {
			// their time has come: before or after anything else that happens now
			nt = k
		} else if n == 0 {
			// quiescent: an idle waiter goes on
			for _, x := range s.live {
				if x.idle == 1 {
					opts[0] = x
					n = 1
					nt = -1
					break
				}
			}
		} else if s.ex != nil && !s.ex.cfg.EarlyTimers {
			nt = -1
		}
		if nt == 0 {
			nt = s.dueTimers()
		}
		if nt < 0 {
			nt = 0
		}
		if n == 0 && nt == 0 {
			for _, x := range s.live {
				if x.idle == 2 {
					opts[0] = x
					n = 1
					break
				}
			}
		}
		if n == 0 && nt == 0 {
			if len(s.live) == 0 {
				internalErr("no live thread")
			}
			s.setEnd(endViolation, "deadlock: nothing can run any more\n"+s.describe())
			return nil
		}
		var ch uint64
		if s.cur != nil {
			ch = s.cur.phash
		}
		if t == nil {
			ch = mix(ch, 5)
		}
		if pol >= 10 && n > 1 {
			// either the thread with the highest priority goes on, or it is
			// demoted, or a timer fires
			c := s.decide(2+nt, false, ch)
			switch {
			case c < 0:
				return nil
			case c == 0:
				opts[0].yield = false
				return opts[0]
			case c == 1:
				s.lows++
				opts[0].low = s.lows
				s.lowH = mix(s.lowH, opts[0].phash)
			default:
				s.fireEarly(c - 2)
			}
			continue
		}
		c := s.decide(n+nt, false, ch)
		if c < 0 {
			return nil
		}
		if c < n {
			x := opts[c]
			x.yield = false
			return x
		}
		if n > 0 {
			s.fireEarly(c - n)
		} else {
			s.fire(c - n)
		}
	}
}

// byPriority sorts stably: demoted threads last, in the order of demotion, and
// yielding ones behind them.
func byPriority(o []*Thread) {
	less := func(a, b *Thread) bool {
		if a.yield != b.yield {
			return b.yield
		}
		return a.low < b.low
	}
	for i := 1; i < len(o); i++ {
		for j := i; j > 0 && less(o[j], o[j-1]); j-- {
			o[j], o[j-1] = o[j-1], o[j]
		}
	}
}

func (e *explorer) policyOf() int {
	if e == nil {
		return 0
	}
	return e.policy
}

func (s *sched) describe() string {
	var b strings.Builder
	for _, t := range s.live {
		fmt.Fprintf(&b, "  %s: %s\n", t.name, t.desc)
	}
	return b.String()
}

// point is a scheduling point of the running thread; on return the thread has
// been chosen and enable() holds.
func point(desc string, enable func() bool) *Thread {
	if s == nil {
		if enable != nil && !enable() {
			panic("mcrt: blocking operation outside an execution: " + desc)
		}
		return nil
	}
	if s.dead {
		runtime.Goexit()
	}
	t := s.cur
	t.desc, t.enable = desc, enable
	s.sw(t)
	t.enable = nil
	t.hash = mix(t.hash, 0x5e9) // having been here is part of the state
	if s.ex != nil && s.ex.tracing {
		s.op(t, desc)
	}
	return t
}

func (s *sched) sw(t *Thread) {
	n := s.pick(t)
	if n == nil {
		s.dead = true
		runtime.Goexit()
	}
	if n != t {
		s.cur = n
		n.gate <- struct{}{}
		<-t.gate
		if s.dead {
			runtime.Goexit()
		}
	}
}

// for debugging the checker itself: MC_TRACE keeps the operations of the
// previous execution to compare with when a replay goes astray
var lastOps []string
var traceAll = os.Getenv("MC_TRACE") != ""

func (s *sched) op(t *Thread, desc string) {
	where := ""
	var pcs [24]uintptr
	k := runtime.Callers(2, pcs[:])
	fr := runtime.CallersFrames(pcs[:k])
	for {
		f, more := fr.Next()
		if !strings.Contains(f.Function, "/mcrt.") && !strings.HasPrefix(f.Function, "runtime.") {
			p := f.File
			if i := strings.LastIndex(p, "/"); i >= 0 {
				p = p[i+1:]
			}
			fn := f.Function
			if i := strings.LastIndex(fn, "/"); i >= 0 {
				fn = fn[i+1:]
			}
			where = fmt.Sprintf("%s (%s:%d)", fn, p, f.Line)
			break
		}
		if !more {
			break
		}
	}
	s.ops = append(s.ops, fmt.Sprintf("t=%-8v %-10s %-28s %s", s.now, t.name, desc, where))
	if lastOps != nil || traceAll {
		x := ""
		for _, u := range s.threads {
			x += fmt.Sprintf(" %s:%x", u.name, u.hash&0xffff)
		}
		s.ops[len(s.ops)-1] += x
	}
}

// Go starts a controlled goroutine.
func Go(f func()) {
	if s == nil {
		panic("mcrt.Go outside an execution")
	}
	if s.dead {
		return
	}
	if f == nil {
		panic("go of nil func value")
	}
	p := s.cur
	name := fmt.Sprintf("%s.%d", p.name, p.kids)
	p.hash = mix(p.hash, 0x60)
	s.newThread(p, name, f)
	if s.ex != nil && s.ex.tracing {
		s.op(p, "go "+name)
	}
}

// Gosched yields.
func Gosched() {
	if s == nil || s.dead {
		return
	}
	s.cur.yield = true
	point("gosched", nil)
}

// NumGoroutine counts live controlled goroutines.
func NumGoroutine() int {
	if s == nil {
		return 1
	}
	return len(s.live)
}

// BlockForever is select{}.
func BlockForever() { point("select{}", func() bool { return false }) }
