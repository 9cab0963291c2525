// Package self holds small programs with a known verdict, run through the
// same rewriter, scheduler and explorer as the checks: G* must be quiet with
// a known number of outcomes, B* must be reported.
package self

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	mc "github.com/lesismal/arpc/zmc/mcrt"
)

func self(prop string, bound int, orders []int, run func(*mc.Config)) {
	mc.Register(&mc.Scenario{Prop: prop, Name: "self", Run: run, Configs: func(bool) []mc.Config {
		var l []mc.Config
		l = append(l, mc.Config{Name: "x", P: map[string]int{}, MaxBound: bound, Policies: orders})
		return l
	}})
}

type counter struct {
	mu sync.Mutex
	n  int
}

func both(fs ...func()) {
	var wg sync.WaitGroup
	for _, f := range fs {
		f := f
		wg.Add(1)
		go func() {
			defer wg.Done()
			f()
		}()
	}
	wg.Wait()
}

func init() {
	o := []int{0}
	// every interleaving of three threads logging twice: 6!/(2!2!2!) = 90
	self("G01", 8, o, func(*mc.Config) {
		var mu sync.Mutex
		s := ""
		add := func(x string) {
			for i := 0; i < 2; i++ {
				mu.Lock()
				s += x
				mu.Unlock()
			}
		}
		both(func() { add("a") }, func() { add("b") }, func() { add("c") })
		mc.Outcome(s)
	})
	// store buffering under sequential consistency: 3 outcomes
	self("G02", 6, o, func(*mc.Config) {
		var x, y, a, b int32
		both(func() { atomic.StoreInt32(&x, 1); a = atomic.LoadInt32(&y) }, func() { atomic.StoreInt32(&y, 1); b = atomic.LoadInt32(&x) })
		mc.Assert(a+b > 0, "both read 0")
		mc.Outcome(fmt.Sprint(a, b))
	})
	// plain accesses race: all 3 outcomes of unsynchronised code are seen
	self("G03", 6, o, func(*mc.Config) {
		c := &counter{}
		var r [2]int
		both(func() { c.n = 1; r[0] = c.n }, func() { c.n = 2; r[1] = c.n })
		mc.Outcome(fmt.Sprint(r))
	})
	self("B01", 2, o, func(*mc.Config) { // lost update
		c := &counter{}
		both(func() { c.n++ }, func() { c.n++ })
		mc.Assert(c.n == 2, "lost update")
	})
	self("G04", 4, o, func(*mc.Config) {
		c := &counter{}
		inc := func() { c.mu.Lock(); defer c.mu.Unlock(); c.n++ }
		both(inc, inc, inc)
		mc.Assert(c.n == 3, "lost update")
	})
	self("B02", 2, o, func(*mc.Config) { // check then act
		c := &counter{}
		f := func() {
			c.mu.Lock()
			ok := c.n == 0
			c.mu.Unlock()
			if ok {
				c.mu.Lock()
				c.n++
				c.mu.Unlock()
			}
		}
		both(f, f)
		mc.Assert(c.n == 1, "n=%d", c.n)
	})
	self("B03", 1, o, func(*mc.Config) { // lock order
		var a, b sync.Mutex
		both(func() { a.Lock(); b.Lock(); b.Unlock(); a.Unlock() }, func() { b.Lock(); a.Lock(); a.Unlock(); b.Unlock() })
	})
	self("B04", 1, o, func(*mc.Config) { // lost wake-up
		var mu sync.Mutex
		c := sync.NewCond(&mu)
		both(func() { mu.Lock(); c.Wait(); mu.Unlock() }, func() { mu.Lock(); c.Signal(); mu.Unlock() })
	})
	self("G05", 3, o, func(*mc.Config) {
		var mu sync.Mutex
		c := sync.NewCond(&mu)
		ok := false
		wait := func() {
			mu.Lock()
			for !ok {
				c.Wait()
			}
			mu.Unlock()
		}
		both(wait, wait, func() { mu.Lock(); ok = true; c.Broadcast(); mu.Unlock() })
	})
	self("B05", 1, o, func(*mc.Config) { // send on closed channel
		ch := make(chan int, 1)
		both(func() { ch <- 1 }, func() { close(ch) })
	})
	self("B06", 0, o, func(*mc.Config) { // both cases ready
		a, b := make(chan int, 1), make(chan int, 1)
		a <- 1
		b <- 2
		select {
		case <-a:
		case x := <-b:
			mc.Assert(x != 2, "the second case was taken")
		}
	})
	self("B07", 1, o, func(*mc.Config) { // a timer due at the same instant as a sleeper
		n := 0
		t := time.AfterFunc(time.Second, func() { n++ })
		time.Sleep(time.Second)
		mc.Assert(!t.Stop(), "the timer had not fired")
	})
	self("G06", 3, o, func(*mc.Config) { // a timer is never early, Stop is exact
		var n int32
		at := time.Now()
		t := time.AfterFunc(time.Second, func() {
			mc.Assert(time.Since(at) >= time.Second, "early")
			atomic.AddInt32(&n, 1)
		})
		time.Sleep(time.Second / 2)
		mc.Assert(t.Stop() && !t.Stop(), "Stop")
		time.Sleep(time.Hour)
		mc.Assert(atomic.LoadInt32(&n) == 0, "a stopped timer fired")
	})
	self("B08", 1, o, func(*mc.Config) { // a goroutine is left behind
		ch := make(chan int)
		go func() { ch <- 1 }()
		mc.Idle()
		mc.Assert(mc.Live() == 0, "%d goroutines", mc.Live())
	})
	self("B09", 0, o, func(*mc.Config) { // endless loop
		for {
			time.Sleep(0)
			mc.Yield()
		}
	})
	self("B10", 3, o, func(*mc.Config) { // double-checked locking done wrong
		var mu sync.Mutex
		var ready, val int
		get := func() int {
			if ready == 0 {
				mu.Lock()
				if ready == 0 {
					ready = 1
					val = 7
				}
				mu.Unlock()
			}
			return val
		}
		both(func() { mc.Assert(get() == 7, "half initialised") }, func() { mc.Assert(get() == 7, "half initialised") })
	})
	self("B11", 2, o, func(*mc.Config) { // RWMutex: write under a read lock
		var mu sync.RWMutex
		c := &counter{}
		f := func() { mu.RLock(); x := c.n; c.n = x + 1; mu.RUnlock() }
		both(f, f)
		mc.Assert(c.n == 2, "lost update")
	})
	self("B12", 3, o, func(*mc.Config) { // ABA of three threads needs two preemptions
		var v int32 = 1
		c := &counter{}
		both(func() {
			o := atomic.LoadInt32(&v)
			if atomic.CompareAndSwapInt32(&v, o, 5) {
				c.n = 1
			}
		}, func() { atomic.StoreInt32(&v, 2); atomic.StoreInt32(&v, 1) })
		mc.Assert(!(c.n == 1 && v == 1), "swapped before the others")
	})
	self("G07", 2, []int{0, 1}, idioms)
	self("G08", 2, []int{0, 1}, contexts)
}

type node struct {
	sync.Mutex
	*sub
	vals map[string]int
	list []int
	fn   func(int) int
	arr  [3]int
}

type sub struct {
	sync.RWMutex
	cnt   int
	inner struct{ a, b int }
}

func (s *sub) Bump(k int) (was int) {
	s.RWMutex.Lock()
	defer s.RWMutex.Unlock()
	was = s.cnt
	s.cnt += k
	return
}

type pair[K comparable, V any] struct {
	k K
	v V
}

func (p *pair[K, V]) set(k K, v V) { p.k, p.v = k, v }

func mapped[T, U any](l []T, f func(T) U) (out []U) {
	for _, x := range l {
		out = append(out, f(x))
	}
	return
}

type bumper interface{ Bump(int) int }

func two() (int, error) { return 2, nil }

// idioms runs one of everything a refactoring might use.
func idioms(*mc.Config) {
	n := &node{sub: &sub{}, vals: map[string]int{}}
	n.fn = func(i int) int { return i + n.sub.cnt }
	// promoted methods, method values and expressions, interfaces
	n.Mutex.Lock()
	unlock := n.Mutex.Unlock
	unlock()
	bump := n.Bump
	mc.Assert(bump(2) == 0 && (*sub).Bump(n.sub, 3) == 2 && bumper(n).Bump(1) == 5 && n.cnt == 6, "methods: %d", n.cnt)
	n.cnt++
	n.cnt -= 2
	n.inner.a, n.inner.b = n.inner.b+1, n.inner.a+2
	n.arr[n.inner.a]++
	n.list = append(n.list, n.cnt, n.fn(1))
	for i := range n.list {
		n.list[i] *= 2
	}
	mc.Assert(n.list[0] == 10 && n.list[1] == 12 && n.arr[1] == 1, "%v %v", n.list, n.arr)
	p := &n.cnt
	*p = *p + 1
	mc.Assert(n.sub.cnt == 6, "pointer")
	n.vals["x"] += 2
	n.vals["x"]++
	if v, ok := n.vals["x"]; !ok || v != 3 {
		mc.Fail("map %d", v)
	}
	delete(n.vals, "x")
	mc.Assert(len(n.vals) == 0, "delete")
	// generics
	g := &pair[string, int]{}
	g.set("a", 1)
	mc.Assert(g.k == "a" && fmt.Sprint(mapped([]int{1, 2}, func(i int) string { return fmt.Sprint(i + g.v) })) == "[2 3]", "generics")
	// channels: directions, ranges, nil channels, len and cap, labels
	ch := make(chan int, 3)
	done := make(chan struct{})
	var never chan int
	sum := 0
	go func() {
		defer close(done)
		for x := range ch {
			if x == 2 {
				continue
			}
			sum += x
		}
	}()
	func(out chan<- int) {
		for i := 1; i <= 3; i++ {
			out <- i
		}
		mc.Assert(cap(ch) == 3 && len(ch) <= 3, "cap")
		close(out)
	}(ch)
	<-done
	mc.Assert(sum == 4, "sum %d", sum)
loop:
	for i := 0; ; i++ {
		select {
		case <-never:
			mc.Fail("nil channel")
		case x, ok := <-ch:
			mc.Assert(x == 0 && !ok, "closed channel")
			if i < 2 {
				continue loop
			}
			break loop
		}
	}
	res := make(chan pair[int, error], 1)
	go func(f func() (int, error)) {
		v, err := f()
		res <- pair[int, error]{v, err}
	}(two)
	select {
	case r := <-res:
		mc.Assert(r.k == 2 && r.v == nil, "result")
	case <-time.After(time.Second):
		mc.Fail("no result")
	}
	select {
	case res <- pair[int, error]{}:
	default:
		mc.Fail("full")
	}
	select {
	case res <- pair[int, error]{}:
		mc.Fail("not full")
	default:
	}
	// switch, goto, defer, recover
	i := 0
again:
	i++
	if i < 3 {
		goto again
	}
	switch x := interface{}(n).(type) {
	case nil:
		mc.Fail("nil")
	case bumper:
		x.Bump(1)
	}
	switch {
	case i == 3:
		fallthrough
	case i == 4:
		i = 9
	}
	func() {
		defer func() {
			mc.Assert(fmt.Sprint(recover()) == "boom", "recover")
		}()
		defer n.Unlock()
		n.Lock()
		panic("boom")
	}()
	mc.Assert(n.TryLock(), "left locked")
	n.Unlock()
	// the rest of sync and atomic
	var once sync.Once
	var a atomic.Int64
	var ptr atomic.Pointer[node]
	var val atomic.Value
	var flag atomic.Bool
	var m sync.Map
	pool := sync.Pool{New: func() interface{} { return new(node) }}
	lazy := sync.OnceValue(func() int { a.Add(10); return 5 })
	both(func() {
		once.Do(func() { a.Add(1) })
		m.LoadOrStore("k", 1)
		mc.Assert(lazy() == 5, "lazy")
	}, func() {
		once.Do(func() { a.Add(1) })
		m.LoadOrStore("k", 2)
		mc.Assert(lazy() == 5, "lazy")
	})
	mc.Assert(a.Load() == 11, "once: %d", a.Load())
	ptr.Store(n)
	val.Store("s")
	mc.Assert(ptr.Load() == n && val.Load().(string) == "s" && flag.CompareAndSwap(false, true) && !flag.Swap(true) == false, "atomic")
	k := 0
	m.Range(func(_, _ interface{}) bool { k++; return true })
	mc.Assert(k == 1, "map")
	x := pool.Get().(*node)
	pool.Put(x)
	tk := time.NewTicker(time.Second)
	<-tk.C
	<-tk.C
	tk.Stop()
	mc.Assert(mc.Elapsed() == 2*time.Second, "elapsed %v", mc.Elapsed())
	tm := time.NewTimer(time.Minute)
	if !tm.Stop() {
		<-tm.C
	}
	tm.Reset(time.Second)
	<-tm.C
	mc.IdleAll()
	mc.Assert(mc.Live() == 0, "left: %s", mc.LiveDesc())
}

func contexts(*mc.Config) {
	root, stop := context.WithCancel(context.WithValue(context.Background(), "k", "v"))
	kid, cancel := context.WithTimeout(root, time.Second)
	defer cancel()
	why := errors.New("why")
	tc, cancel2 := context.WithTimeoutCause(root, 2*time.Second, why)
	defer cancel2()
	mc.Assert(kid.Value("k") == "v", "value")
	var n int32
	context.AfterFunc(kid, func() { atomic.AddInt32(&n, 1) })
	<-kid.Done()
	mc.Assert(kid.Err() == context.DeadlineExceeded && root.Err() == nil && mc.Elapsed() == time.Second, "deadline")
	<-tc.Done()
	mc.Assert(context.Cause(tc) == why && tc.Err() == context.DeadlineExceeded, "cause")
	late, c3 := context.WithDeadline(root, time.Now().Add(time.Hour))
	defer c3()
	both(stop, func() { <-late.Done() })
	mc.Assert(late.Err() == context.Canceled && root.Err() == context.Canceled, "cancel")
	mc.IdleAll()
	mc.Assert(atomic.LoadInt32(&n) == 1, "after %d", n)
}
