package mcrt

import (
	"context"
	"runtime"
	"sort"
	"time"
)

type timerEnt struct {
	when   int64
	ord    uint64 // tie break: stable identity
	path   []int32
	phash  uint64
	vc     VC
	active bool
	f      func(te *timerEnt) // runs atomically at firing
}

var baseTime = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)

// Now is the virtual clock.
func Now() time.Time {
	if s == nil {
		return baseTime
	}
	return baseTime.Add(time.Duration(s.now))
}

// Since is time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until is time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func (s *sched) addTimer(d time.Duration, f func(*timerEnt)) *timerEnt {
	t := s.cur
	te := &timerEnt{f: f}
	te.path = append(append([]int32{}, t.path...), t.kids)
	te.phash = mix(t.phash, uint64(t.kids)+77)
	t.kids++
	s.arm(te, d)
	return te
}

func (s *sched) arm(te *timerEnt, d time.Duration) {
	if d < 0 {
		d = 0
	}
	te.when = s.now + int64(d)
	if te.when < s.now { // overflow
		te.when = 1<<63 - 1
	}
	te.vc = s.cur.vc.clone()
	s.cur.tick()
	te.active = true
	i := sort.Search(len(s.timers), func(i int) bool {
		o := s.timers[i]
		return o.when > te.when || o.when == te.when && lessPath(te.path, o.path)
	})
	s.timers = append(s.timers, nil)
	copy(s.timers[i+1:], s.timers[i:])
	s.timers[i] = te
}

func (s *sched) disarm(te *timerEnt) bool {
	if !te.active {
		return false
	}
	te.active = false
	for i, o := range s.timers {
		if o == te {
			s.timers = append(s.timers[:i], s.timers[i+1:]...)
			break
		}
	}
	return true
}

// dueTimers counts the timers that may fire next (equal earliest deadline).
func (s *sched) dueTimers() int {
	n := 0
	for _, te := range s.timers {
		if te.when != s.timers[0].when || te.when == 1<<63-1 {
			break
		}
		if s.ex != nil && te.when > int64(s.ex.horizon()) {
			break
		}
		n++
	}
	return n
}

// overdue counts the timers whose time has come.
func (s *sched) overdue() int {
	n := 0
	for n < len(s.timers) && s.timers[n].when <= s.now {
		n++
	}
	return n
}

// fireEarly fires a timer while threads can still run.
func (s *sched) fireEarly(i int) {
	if s.timers[i].when > s.now {
		s.early++
	}
	s.fire(i)
}

func (s *sched) fire(i int) {
	te := s.timers[i]
	s.timers = append(s.timers[:i:i], s.timers[i+1:]...)
	te.active = false
	if te.when > s.now {
		s.now = te.when
	}
	s.clockH = mix(s.clockH, te.phash)
	if s.ex != nil && s.ex.tracing {
		s.ops = append(s.ops, "t="+time.Duration(s.now).String()+" timer fires")
	}
	te.f(te)
}

// Timer replaces time.Timer (channel semantics of Go before 1.23).
type Timer struct {
	C  <-chan time.Time
	te *timerEnt
}

func (te *timerEnt) sendTime(ch chan time.Time) {
	if len(ch) == 0 {
		st := stateOf((<-chan time.Time)(ch))
		sl := &st.slots[st.sx%len(st.slots)]
		st.sx++
		sl.join(te.vc)
		st.hash = mix(st.hash, te.phash)
		ch <- Now()
	}
}

// NewTimer is time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	ch := make(chan time.Time, 1)
	t := &Timer{C: ch}
	if s == nil || s.dead {
		return t
	}
	t.te = s.addTimer(d, func(te *timerEnt) { te.sendTime(ch) })
	return t
}

// AfterFunc is time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{}
	if s == nil || s.dead {
		return t
	}
	t.te = s.addTimer(d, func(te *timerEnt) { s.spawnTimer(te, f) })
	return t
}

// spawnTimer starts the function of a fired timer in its own thread.
func (s *sched) spawnTimer(te *timerEnt, f func()) {
	te.ord++
	n := &Thread{gate: make(chan struct{}, 1), name: "timer", start: true, desc: "start (timer)", chDone: -1}
	n.path = append(append([]int32{}, te.path...), int32(te.ord))
	n.phash = mix(te.phash, te.ord+0x7133)
	n.vc = te.vc.clone()
	n.hash = mix(n.phash, s.clockH)
	s.addThread(n, f)
}

// Stop stops the timer.
func (t *Timer) Stop() bool {
	if s == nil || s.dead || t.te == nil {
		return false
	}
	th := point("Timer.Stop", nil)
	ok := s.disarm(t.te)
	b := uint64(0)
	if ok {
		b = 1
	}
	th.hash = mix(th.hash, 0x570b+b)
	return ok
}

// Reset re-arms the timer.
func (t *Timer) Reset(d time.Duration) bool {
	if s == nil || s.dead {
		return false
	}
	if t.te == nil {
		panic("time: Reset called on uninitialized Timer")
	}
	th := point("Timer.Reset", nil)
	ok := s.disarm(t.te)
	b := uint64(0)
	if ok {
		b = 1
	}
	th.hash = mix(th.hash, 0x5e50+b)
	s.arm(t.te, d)
	return ok
}

// After is time.After.
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Sleep is time.Sleep.
func Sleep(d time.Duration) {
	if s == nil {
		return
	}
	if s.dead {
		runtime.Goexit()
	}
	if d <= 0 {
		Gosched()
		return
	}
	fired := false
	t := s.cur
	s.addTimer(d, func(te *timerEnt) { fired = true; t.hash = mix(t.hash, 0x51ee) })
	point("Sleep", func() bool { return fired })
}

// Ticker replaces time.Ticker.
type Ticker struct {
	C  <-chan time.Time
	te *timerEnt
	d  time.Duration
}

// NewTicker is time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	ch := make(chan time.Time, 1)
	t := &Ticker{C: ch, d: d}
	if s == nil || s.dead {
		return t
	}
	t.te = s.addTimer(d, func(te *timerEnt) {
		te.sendTime(ch)
		te.when = s.now + int64(t.d)
		te.active = true
		i := sort.Search(len(s.timers), func(i int) bool { return s.timers[i].when > te.when })
		s.timers = append(s.timers, nil)
		copy(s.timers[i+1:], s.timers[i:])
		s.timers[i] = te
	})
	return t
}

// Stop stops the ticker.
func (t *Ticker) Stop() {
	if s == nil || s.dead || t.te == nil {
		return
	}
	point("Ticker.Stop", nil)
	s.disarm(t.te)
}

// Reset resets the ticker.
func (t *Ticker) Reset(d time.Duration) {
	if s == nil || s.dead || t.te == nil {
		return
	}
	point("Ticker.Reset", nil)
	s.disarm(t.te)
	t.d = d
	s.arm(t.te, d)
}

// Tick is time.Tick.
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

// ---------------------------------------------------------------- context

type ctxKey struct{}

type mctx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	cause    error
	deadline int64
	hasDL    bool
	kids     []*mctx
	after    []func()
	te       *timerEnt
}

func (c *mctx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return baseTime.Add(time.Duration(c.deadline)), true
	}
	return c.parent.Deadline()
}
func (c *mctx) Done() <-chan struct{} { return c.done }
func (c *mctx) Err() error {
	if s != nil && !s.dead {
		t := point("ctx.Err", nil)
		if c.err != nil {
			t.hash = mix(t.hash, 0xe44)
			t.acquire(&stateOf((<-chan struct{})(c.done)).obj)
		}
	}
	return c.err
}
func (c *mctx) Value(k interface{}) interface{} {
	if _, ok := k.(ctxKey); ok {
		return c
	}
	return c.parent.Value(k)
}

func (c *mctx) cancelNow(t *Thread, err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	c.cause = cause
	if cause == nil {
		c.cause = err
	}
	if s == nil {
		close(c.done)
	} else {
		closeNow(t, (chan<- struct{})(c.done))
		if t == nil && c.te != nil {
			st := stateOf((<-chan struct{})(c.done))
			st.vc.join(c.te.vc)
			st.hash = mix(st.hash, c.te.phash)
		}
		if c.te != nil {
			s.disarm(c.te)
		}
	}
	for _, k := range c.kids {
		k.cancelNow(t, err, c.cause)
	}
	for _, f := range c.after {
		Go(f)
	}
}

func newCtx(parent context.Context) *mctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &mctx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(ctxKey{}).(*mctx); ok && p.done == parent.Done() {
		if p.err != nil {
			c.cancelNow(curThread(), p.err, p.cause)
		} else {
			p.kids = append(p.kids, c)
		}
	} else if parent.Done() != nil {
		select {
		case <-parent.Done():
			c.cancelNow(curThread(), parent.Err(), nil)
		default:
			Go(func() {
				switch Select(false, SelRecv(parent.Done()), SelRecv((<-chan struct{})(c.done))) {
				case 0:
					c.cancelNow(curThread(), parent.Err(), nil)
				}
			})
		}
	}
	return c
}

func curThread() *Thread {
	if s == nil || s.dead {
		return nil
	}
	return s.cur
}

func (c *mctx) cancelFunc() {
	if s != nil {
		if s.dead {
			return
		}
		point("ctx cancel", nil)
	}
	c.cancelNow(curThread(), context.Canceled, nil)
}

// WithCancel is context.WithCancel.
func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, c.cancelFunc
}

// WithCancelCause is context.WithCancelCause.
func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(err error) {
		if s != nil {
			if s.dead {
				return
			}
			point("ctx cancel", nil)
		}
		c.cancelNow(curThread(), context.Canceled, err)
	}
}

// Cause is context.Cause.
func Cause(ctx context.Context) error {
	if p, ok := ctx.Value(ctxKey{}).(*mctx); ok {
		return p.cause
	}
	return ctx.Err()
}

// WithTimeout is context.WithTimeout.
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, Now().Add(d))
}

// WithTimeoutCause is context.WithTimeoutCause.
func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, Now().Add(d), cause)
}

// WithDeadline is context.WithDeadline.
func WithDeadline(parent context.Context, at time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, at, nil)
}

// WithDeadlineCause is context.WithDeadlineCause.
func WithDeadlineCause(parent context.Context, at time.Time, cause error) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	if pd, ok := parent.Deadline(); ok && pd.Before(at) {
		return c, c.cancelFunc
	}
	c.hasDL, c.deadline = true, int64(at.Sub(baseTime))
	if s == nil || s.dead {
		return c, c.cancelFunc
	}
	if c.err == nil {
		d := at.Sub(Now())
		if d <= 0 {
			c.cancelNow(curThread(), context.DeadlineExceeded, cause)
		} else {
			c.te = s.addTimer(d, func(te *timerEnt) { c.cancelNow(nil, context.DeadlineExceeded, cause) })
		}
	}
	return c, c.cancelFunc
}

// WithoutCancel is context.WithoutCancel.
func WithoutCancel(parent context.Context) context.Context {
	return context.WithoutCancel(parent)
}

// CtxAfterFunc is context.AfterFunc.
func CtxAfterFunc(ctx context.Context, f func()) func() bool {
	stopped, ran := false, false
	g := func() {
		if !stopped {
			ran = true
			f()
		}
	}
	if p, ok := ctx.Value(ctxKey{}).(*mctx); ok {
		if p.err != nil {
			Go(g)
		} else {
			p.after = append(p.after, g)
		}
	}
	return func() bool {
		if ran || stopped {
			return false
		}
		stopped = true
		return true
	}
}
