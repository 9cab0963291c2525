package scen

import (
	"errors"
	"fmt"
	"net"
	"time"

	"github.com/lesismal/arpc"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

func init() {
	reg("C12", "loss", c12Loss, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "limit", []int{0, 1, 2}, "cause", []int{0, 1, 2}), 0, 1), 1, 2, th)
	})
	reg("C12", "many", c12Many, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "limit", []int{0, 12, 25}, "fails", []int{11, 12, 13, 40}), 0, 0, th)
	})
	reg("C12", "stop", c12Stop, func(th bool) []mc.Config {
		return cat(
			bound(orders(cross("", "async", i01, "when", []int{0, 1, 2, 3}, "stops", []int{1}), 0, 1), 2, 3, th),
			bound(cross("", "async", i01, "when", []int{0, 1, 3}, "stops", []int{2}), 2, 3, th),
		)
	})
	reg("C12", "traffic", c12Traffic, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", []int{0, 1}, "bsend", i01, "kind", []int{0, 1, 2, 3, 4}, "cause", []int{0, 1}), 0, 1), 2, 3, th)
	})
	reg("C12", "restart", c12Restart, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "bsend", i01, "before", []int{0, 1, 2, 3, 4}), 0, 1), 2, 3, th)
	})
	reg("C12", "restart2", c12Restart2, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "what", []int{0, 1, 2, 3}), 2, 3, th)
	})
}

// world is a scripted dialer and the peers behind it.
type world struct {
	dials   int // started
	open    []*mc.Conn
	far     []*mc.Conn
	plan    func(n int) bool // whether dial number n (from 1) succeeds
	gate    func(n int)      // runs inside the dial
	served  int
	latency time.Duration
}

func (w *world) dial() (net.Conn, error) {
	mc.Sync()
	w.dials++
	n := w.dials
	if w.gate != nil {
		w.gate(n)
	}
	if w.plan != nil && !w.plan(n) {
		return nil, errors.New("refused")
	}
	a, b := mc.Pipe("w"+itoa(n), mc.NetConfig{})
	mc.Sync()
	w.open = append(w.open, a)
	w.far = append(w.far, b)
	go func() {
		for {
			f, err := readFrame(b)
			if err != nil {
				return
			}
			w.served++
			if f.cmd == 1 && f.method != "/hold" {
				b.Write((&frame{cmd: 2, method: f.method, seq: f.seq, flag: f.flag, data: "re:" + f.data}).bytes())
			}
		}
	}()
	return a, nil
}

// closed checks that nothing is left open
func (w *world) closed() {
	for i, a := range w.open {
		mc.Assert(a.IsClosed(), "connection %d of %d is still open", i+1, len(w.open))
	}
}

type life struct{ con, dis *cnt }

func newLife(h arpc.Handler) *life {
	l := &life{&cnt{}, &cnt{}}
	h.HandleConnected(func(*arpc.Client) { l.con.inc() })
	h.HandleDisconnected(func(*arpc.Client) { l.dis.inc() })
	return l
}

func usable(cli *arpc.Client, what string) {
	mc.Assert(cli.CheckState() == nil, "%s: state %v", what, cli.CheckState())
	for _, k := range []int{kCall, kAsync, kCtx} {
		rsp, err := call(cli, k, "/m", "q")
		mc.Assert(err == nil && rsp == "re:q", "%s: call kind %d: %q %v", what, k, rsp, err)
	}
	mc.Assert(cli.Notify("/n", "q", hour) == nil, "%s: notify", what)
}

func stopped(cli *arpc.Client, what string) {
	mc.Assert(cli.CheckState() == arpc.ErrClientStopped, "%s: state %v", what, cli.CheckState())
	err := cli.Call("/m", "q", nil, hour)
	mc.Assert(err == arpc.ErrClientStopped, "%s: call returned %v", what, err)
	mc.Assert(cli.CallAsync("/m", "q", func(*arpc.Context, error) { mc.Fail("callback on a stopped client") }, hour) == arpc.ErrClientStopped, "%s: async call", what)
	mc.Assert(cli.Notify("/m", "q", hour) == arpc.ErrClientStopped, "%s: notify", what)
}

func loseConn(w *world, cause int) {
	b := w.far[len(w.far)-1]
	switch cause {
	case 0:
		b.Close()
	case 1:
		b.Cut()
	case 2:
		b.Write([]byte{0xff, 0xff, 0xff, 0xff, 0, 0})
	}
}

// losses with every pattern of dial failures
func c12Loss(c *mc.Config) {
	begin()
	h := newHandler(c, "cli")
	limit := c.Get("limit")
	h.SetMaxReconnectTimes(limit)
	l := newLife(h)
	w := &world{}
	cli, err := arpc.NewClient(w.dial, h)
	mc.Assert(err == nil, "%v", err)
	usable(cli, "first connection")
	losses := 0
	trace := ""
	for round := 0; round < 2; round++ {
		fails := mc.Choose(3)
		base := w.dials
		w.plan = func(n int) bool {
			// nobody can use the client now
			if n > base+1 {
				e := cli.CheckState()
				mc.Assert(e == arpc.ErrClientReconnecting, "state while reconnecting: %v", e)
				_, e = call(cli, mc.Choose(2)*kAsync, "/m", "q")
				mc.Assert(e == arpc.ErrClientReconnecting, "call while reconnecting: %v", e)
				mc.Assert(cli.Notify("/m", "q", hour) == arpc.ErrClientReconnecting, "notify while reconnecting")
			}
			return n > base+fails
		}
		loseConn(w, c.Get("cause"))
		losses++
		trace += fmt.Sprintf(" loss(%d fails)", fails)
		if limit > 0 && fails >= limit {
			mc.IdleAll()
			mc.Assert(w.dials == base+limit, "%s: %d dials, limit %d", trace, w.dials-base, limit)
			stopped(cli, trace)
			mc.Assert(l.dis.get() == 1, "%s: disconnected callback ran %d times", trace, l.dis.get())
			mc.Assert(l.con.get() == losses, "%s: connected callback ran %d times", trace, l.con.get())
			w.closed()
			mc.Assert(mc.Live() == 0, "%s: goroutines left: %s", trace, mc.LiveDesc())
			return
		}
		mc.IdleAll()
		mc.Assert(w.dials == base+fails+1, "%s: %d dials", trace, w.dials-base)
		mc.Assert(l.con.get() == losses+1, "%s: connected callback ran %d times", trace, l.con.get())
		mc.Assert(l.dis.get() == 0, "%s: disconnected callback ran", trace)
		usable(cli, trace)
		for i, a := range w.open {
			mc.Assert(a.IsClosed() == (i < len(w.open)-1), "%s: connection %d closed: %v", trace, i, a.IsClosed())
		}
	}
	cli.Stop()
	mc.Idle()
	stopped(cli, trace)
	w.closed()
	mc.Assert(l.dis.get() == 1, "%s: disconnected callback ran %d times", trace, l.dis.get())
	mc.Assert(mc.Live() == 0, "%s: goroutines left: %s", trace, mc.LiveDesc())
}

// long rows of failing dials against no limit and large limits
func c12Many(c *mc.Config) {
	begin()
	h := newHandler(c, "cli")
	limit, fails := c.Get("limit"), c.Get("fails")
	h.SetMaxReconnectTimes(limit)
	l := newLife(h)
	w := &world{}
	cli, err := arpc.NewClient(w.dial, h)
	mc.Assert(err == nil, "%v", err)
	for round := 0; round < 2; round++ { // the second loss starts counting anew
		base := w.dials
		w.plan = func(n int) bool { return n > base+fails }
		loseConn(w, 0)
		mc.IdleAll()
		what := fmt.Sprintf("loss %d, %d failing dials, limit %d", round, fails, limit)
		if limit > 0 && fails >= limit {
			mc.Assert(w.dials == base+limit, "%s: %d dials", what, w.dials-base)
			stopped(cli, what)
			mc.Assert(l.dis.get() == 1, "%s: disconnected callback ran %d times", what, l.dis.get())
			mc.Assert(mc.Live() == 0, "%s: goroutines left: %s", what, mc.LiveDesc())
			return
		}
		mc.Assert(w.dials == base+fails+1, "%s: %d dials", what, w.dials-base)
		mc.Assert(l.con.get() == round+2, "%s: connected callback ran %d times", what, l.con.get())
		usable(cli, what)
	}
}

// Stop at every point
func c12Stop(c *mc.Config) {
	begin()
	h := newHandler(c, "cli")
	l := newLife(h)
	w := &world{}
	when := c.Get("when")
	cli, err := arpc.NewClient(w.dial, h)
	mc.Assert(err == nil, "%v", err)
	g := newGroup()
	fails := mc.Choose(2)
	w.plan = func(n int) bool { return n > 1+fails }
	switch when {
	case 1: // while losing the connection
		g.run(func() { loseConn(w, 0) })
	case 2: // during a dial
		in := newLatch()
		hold := newLatch()
		w.gate = func(n int) {
			if n == 2 {
				in.fire()
				hold.wait()
			}
		}
		loseConn(w, 0)
		in.wait()
		g.run(func() { hold.fire() })
	case 3: // with a call waiting
		g.run(func() {
			_, err := call(cli, kCall, "/m", "q")
			mc.Assert(mc.Elapsed() <= 2*time.Second, "call returned %v after %v", err, mc.Elapsed())
		})
	}
	after := -1
	for i := 0; i < c.Get("stops"); i++ {
		g.run(func() {
			cli.Stop()
			mc.Sync()
			if after < 0 {
				after = w.dials
			}
		})
	}
	g.wait()
	mc.IdleAll()
	mc.Assert(w.dials <= after+1, "%d dials after Stop returned", w.dials-after)
	stopped(cli, "after Stop")
	w.closed()
	mc.Assert(l.dis.get() == 1, "disconnected callback ran %d times", l.dis.get())
	mc.Assert(l.con.get() <= len(w.open), "connected callback ran %d times for %d connections", l.con.get(), len(w.open))
	mc.Assert(mc.Live() == 0, "goroutines left: %s", mc.LiveDesc())
	mc.Assert(mc.Elapsed() <= time.Second, "stopping took %v", mc.Elapsed())
}

// senders racing with a loss do not hurt the next connection
func c12Traffic(c *mc.Config) {
	begin()
	h := newHandler(c, "cli")
	l := newLife(h)
	w := &world{}
	cli, err := arpc.NewClient(w.dial, h)
	mc.Assert(err == nil, "%v", err)
	g := newGroup()
	var st *arpc.Stream
	if c.Get("kind") == 4 {
		st = cli.NewStream("/st")
	}
	g.run(func() {
		switch c.Get("kind") {
		case 0, 1:
			call(cli, []int{kCall, kCtx}[c.Get("kind")], "/m", "q")
		case 2:
			cli.Notify("/m", "q", hour)
			cli.NotifyContext(background(), "/m", "q")
		case 3:
			cli.CallAsync("/m", "q", func(*arpc.Context, error) {}, hour)
			cli.PushMsg(cli.NewMessage(arpc.CmdNotify, "/m", "q"), arpc.TimeForever)
		case 4:
			st.Send("q")
		}
	})
	loseConn(w, c.Get("cause"))
	g.wait()
	mc.Idle()
	mc.Assert(w.dials == 2, "one loss caused %d dials", w.dials-1)
	mc.Assert(l.con.get() == 2 && l.dis.get() == 0, "connected %d, disconnected %d", l.con.get(), l.dis.get())
	mc.Assert(!w.open[1].IsClosed(), "the new connection is closed")
	usable(cli, "after the loss")
	mc.Assert(w.dials == 2, "one loss caused %d dials", w.dials-1)
	mc.Assert(mc.Elapsed() == 0, "delayed")
}

// Restart from every state
func c12Restart(c *mc.Config) {
	begin()
	h := newHandler(c, "cli")
	l := newLife(h)
	w := &world{}
	cli, err := arpc.NewClient(w.dial, h)
	mc.Assert(err == nil, "%v", err)
	cli.Set("k", "v")
	dis := 1
	switch c.Get("before") {
	case 0: // running, idle
		usable(cli, "before")
	case 1: // just stopped
		cli.Stop()
	case 2: // stopped for long
		cli.Stop()
		mc.Idle()
		stopped(cli, "before")
	case 3: // connection just lost
		loseConn(w, 0)
	case 4: // given up reconnecting
		h.SetMaxReconnectTimes(1)
		w.plan = func(n int) bool { return n != 2 }
		loseConn(w, 0)
		mc.IdleAll()
		stopped(cli, "before")
		h.SetMaxReconnectTimes(0)
	}
	start := mc.Elapsed()
	mc.Assert(cli.Restart() == nil, "Restart failed")
	usable(cli, "after Restart")
	mc.Idle()
	mc.Assert(l.dis.get() == dis, "disconnected callback ran %d times", l.dis.get())
	open := 0
	for _, a := range w.open {
		if !a.IsClosed() {
			open++
		}
	}
	mc.Assert(open == 1 && !w.open[len(w.open)-1].IsClosed(), "%d connections open after Restart", open)
	// it survives a loss, and stops properly
	n := w.dials
	loseConn(w, 1)
	mc.Idle()
	mc.Assert(w.dials == n+1, "loss after Restart: %d dials", w.dials-n)
	usable(cli, "after a loss after Restart")
	mc.Assert(mc.Elapsed() == start, "delayed %v", mc.Elapsed()-start)
	cli.Stop()
	mc.Idle()
	stopped(cli, "after Restart and Stop")
	mc.Assert(l.dis.get() == dis+1, "disconnected callback ran %d times", l.dis.get())
	w.closed()
	mc.Assert(mc.Live() == 0, "goroutines left: %s", mc.LiveDesc())
}

func c12Restart2(c *mc.Config) {
	begin()
	h := newHandler(c, "cli")
	l := newLife(h)
	w := &world{}
	cli, err := arpc.NewClient(w.dial, h)
	mc.Assert(err == nil, "%v", err)
	g := newGroup()
	switch c.Get("what") {
	case 0: // a failing dial leaves a stopped client that can be restarted later
		w.plan = func(n int) bool { return n != 2 }
		mc.Assert(cli.Restart() != nil, "Restart succeeded without a connection")
		mc.Idle()
		stopped(cli, "after a failed Restart")
		mc.Assert(mc.Live() == 0, "goroutines left: %s", mc.LiveDesc())
		mc.Assert(cli.Restart() == nil, "Restart failed")
	case 1: // repeatedly
		mc.Assert(cli.Restart() == nil, "Restart failed")
		mc.Assert(cli.Restart() == nil, "Restart failed")
	case 2: // with calls in flight
		g.run(func() {
			_, err := call(cli, kCall, "/m", "q")
			mc.Assert(mc.Elapsed() == 0, "call returned %v after %v", err, mc.Elapsed())
		})
		g.run(func() {
			_, err := call(cli, kAsync, "/m", "q")
			mc.Assert(mc.Elapsed() == 0, "call returned %v after %v", err, mc.Elapsed())
		})
		mc.Assert(cli.Restart() == nil, "Restart failed")
	case 3: // by the disconnected callback
		done := newLatch()
		h.HandleDisconnected(func(x *arpc.Client) {
			if l.dis.inc() == 1 {
				mc.Assert(x.Restart() == nil, "Restart failed")
				done.fire()
			}
		})
		cli.Stop()
		done.wait()
	}
	g.wait()
	usable(cli, "after Restart")
	mc.Idle()
	open := 0
	for _, a := range w.open {
		if !a.IsClosed() {
			open++
		}
	}
	mc.Assert(open == 1, "%d connections open after Restart", open)
	d := l.dis.get()
	mc.Assert(d >= 1 && d <= 2, "disconnected callback ran %d times", d)
	cli.Stop()
	mc.Idle()
	mc.Assert(l.dis.get() == d+1, "disconnected callback ran %d times more", l.dis.get()-d)
	w.closed()
	mc.Assert(mc.Live() == 0, "goroutines left: %s", mc.LiveDesc())
}
