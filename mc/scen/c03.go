package scen

import (
	"time"

	"github.com/lesismal/arpc"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

func init() {
	reg("C03", "pending", c03Pending, func(th bool) []mc.Config {
		return cat(
			bound(orders(cross("", "async", i01, "side", i01, "cause", []int{0, 1, 2, 3, 4, 5}, "n", []int{2}), 0, 1), 2, 3, th),
			bound(orders(cross("", "async", i01, "side", i01, "cause", []int{1, 3, 5}, "n", []int{3}, "par", i01), 0, 1), 1, 2, th),
			bound(orders(cross("", "async", i01, "side", []int{0}, "cause", []int{0, 1, 4, 5}, "n", []int{2}, "exec", []int{1}), 0, 1), 1, 2, th),
		)
	})
	reg("C03", "timer", c03Timer, func(th bool) []mc.Config {
		return bound(early(cross("", "async", i01, "side", i01, "pool", i01, "n", []int{1, 2})), 2, 3, th)
	})
	reg("C03", "tie", c03Tie, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "side", i01, "pool", i01, "n", []int{1, 2}), 0, 1), 2, 3, th)
	})
	reg("C03", "queue", c03Queue, func(th bool) []mc.Config {
		return bound(early(cross("", "queue", []int{0, 1}, "bsend", i01, "how", []int{0, 1, 2})), 2, 3, th)
	})
	reg("C03", "panic", c03Panic, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "side", i01), 1, 2, th)
	})
}

type acall struct {
	ret  error
	done bool
	cbs  []string
}

// asyncCalls issues n asynchronous calls and records everything.
type asyncCalls struct {
	l []*acall
}

func (a *asyncCalls) issue(cli *arpc.Client, i int, d time.Duration) {
	x := a.l[i]
	req := "q" + itoa(i)
	err := cli.CallAsync("/m", req, func(ctx *arpc.Context, err error) {
		mc.Sync()
		if err != nil {
			mc.Assert(err.Error() != "", "callback with an empty error")
			x.cbs = append(x.cbs, "err:"+err.Error())
			return
		}
		mc.Assert(ctx != nil, "callback without error and without context")
		x.cbs = append(x.cbs, string(ctx.Body()))
	}, d)
	mc.Sync()
	x.ret, x.done = err, true
}

func newAsyncCalls(n int) *asyncCalls {
	a := &asyncCalls{}
	for i := 0; i < n; i++ {
		a.l = append(a.l, &acall{})
	}
	return a
}

func (a *asyncCalls) check() {
	mc.Sync()
	for i, x := range a.l {
		mc.Assert(x.done, "CallAsync %d has not returned", i)
		if x.ret == nil {
			mc.Assert(len(x.cbs) == 1, "CallAsync %d returned nil; callbacks: %v", i, x.cbs)
		} else {
			mc.Assert(len(x.cbs) <= 1, "CallAsync %d returned %v; callbacks: %v", i, x.ret, x.cbs)
		}
		for _, cb := range x.cbs {
			mc.Assert(cb == "re:q"+itoa(i) || len(cb) > 4 && cb[:4] == "err:", "callback %d got %q", i, cb)
		}
		mc.Outcome("%v/%v", x.ret, x.cbs)
	}
}

// several calls pending when the connection ends
func c03Pending(c *mc.Config) {
	cli, b := endpoint(c, c.Get("side"), func(h arpc.Handler) {
		if c.Get("exec") == 1 {
			h.SetAsyncExecutor(func(f func()) { f() })
		}
	})
	n := c.Get("n")
	a := newAsyncCalls(n)
	g := newGroup()
	if c.Get("par") == 1 {
		for i := 0; i < n; i++ {
			i := i
			g.run(func() { a.issue(cli, i, hour) })
		}
	} else {
		g.run(func() {
			for i := 0; i < n; i++ {
				a.issue(cli, i, hour)
			}
		})
	}
	switch c.Get("cause") {
	case 0:
		b.Close()
	case 1: // all arrived, then lost
		for i := 0; i < n; i++ {
			if _, err := readFrame(b); err != nil {
				break
			}
		}
		b.Close()
	case 2: // the first is answered, then lost
		f, err := readFrame(b)
		if err == nil {
			b.Write((&frame{cmd: 2, method: f.method, seq: f.seq, flag: f.flag, data: "re:" + f.data}).bytes())
		}
		b.Close()
	case 3:
		b.Cut()
	case 4:
		cli.Stop()
	case 5: // all arrived, the last is answered twice, then lost
		var f *frame
		for i := 0; i < n; i++ {
			x, err := readFrame(b)
			if err != nil {
				break
			}
			f = x
		}
		if f != nil {
			for i := 0; i < 2; i++ {
				b.Write((&frame{cmd: 2, method: f.method, seq: f.seq, flag: f.flag, data: "re:" + f.data}).bytes())
			}
		}
		b.Close()
	}
	g.wait()
	mc.IdleAll()
	a.check()
}

// responses racing with the timers of their calls
func c03Timer(c *mc.Config) {
	cli, b := endpoint(c, c.Get("side"), nil)
	go answer(b)
	n := c.Get("n")
	a := newAsyncCalls(n)
	for i := 0; i < n; i++ {
		a.issue(cli, i, time.Second)
	}
	mc.IdleAll()
	a.check()
}

// responses, or the end of the connection, at the very moment of the timeout
func c03Tie(c *mc.Config) {
	cli, b := endpoint(c, c.Get("side"), nil)
	n := c.Get("n")
	what := mc.Choose(3)
	go func() {
		var fs []*frame
		for i := 0; i < n; i++ {
			f, err := readFrame(b)
			if err != nil {
				return
			}
			fs = append(fs, f)
		}
		time.Sleep(time.Second)
		if what != 1 {
			for _, f := range fs {
				b.Write((&frame{cmd: 2, method: f.method, seq: f.seq, flag: f.flag, data: "re:" + f.data}).bytes())
			}
		}
		if what != 0 {
			b.Close()
		}
	}()
	a := newAsyncCalls(n)
	for i := 0; i < n; i++ {
		a.issue(cli, i, time.Second)
	}
	mc.IdleAll()
	a.check()
}

// callbacks of calls that wait for queue space
func c03Queue(c *mc.Config) {
	begin()
	a, b := mc.Pipe("p", mc.NetConfig{BufLimit: 10})
	c.P["async"] = 1
	h := newHandler(c, "cli")
	h.SetMaxReconnectTimes(1)
	cli, err := arpc.NewClient(pipeDialer(a), h)
	mc.Assert(err == nil, "dial: %v", err)
	ac := newAsyncCalls(3)
	g := newGroup()
	for i := 0; i < 3; i++ {
		i := i
		g.run(func() { ac.issue(cli, i, time.Duration(i+1)*time.Second) })
	}
	switch c.Get("how") {
	case 1:
		cli.Stop()
	case 2:
		b.Cut()
	}
	g.wait()
	mc.IdleAll()
	ac.check()
}

// a panicking callback disturbs nothing else
func c03Panic(c *mc.Config) {
	cli, b := endpoint(c, c.Get("side"), nil)
	go answer(b)
	n := &cnt{}
	err := cli.CallAsync("/m", "x", func(*arpc.Context, error) {
		n.inc()
		panic("callback panics")
	}, hour)
	mc.Assert(err == nil, "CallAsync: %v", err)
	a := newAsyncCalls(1)
	a.issue(cli, 0, hour)
	rsp, err := call(cli, kCall, "/m", "y")
	mc.Assert(err == nil && rsp == "re:y", "later call: %q %v", rsp, err)
	mc.IdleAll()
	mc.Assert(n.get() == 1, "panicking callback ran %d times", n.get())
	a.check()
}
