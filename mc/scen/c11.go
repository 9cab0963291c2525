package scen

import (
	"context"
	"errors"
	"time"

	"github.com/lesismal/arpc"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

func init() {
	reg("C11", "stop", c11Stop, func(th bool) []mc.Config {
		return cat(
			bound(orders(cross("", "async", i01, "how", []int{0, 1, 2, 3}, "n", []int{0, 1}, "racing", []int{0, 1}), 0, 1), 2, 3, th),
			bound(cross("", "async", []int{1}, "how", []int{0, 1}, "n", []int{2}, "racing", []int{2}, "bsend", []int{0}), 2, 2, th),
		)
	})
	reg("C11", "timeout", c11Timeout, func(th bool) []mc.Config {
		return bound(early(cross("", "async", i01, "release", []int{0, 1, 2})), 2, 3, th)
	})
	reg("C11", "errors", c11Errors, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "depth", []int{3}), 1, 2, th)
	})
	reg("C11", "many", c11Many, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "k", []int{40}), 0, 0, th)
	})
	reg("C11", "sleeping", c11Sleeping, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "n", []int{0, 1}, "wait", []int{0, 1, 2}, "idle", i01), 0, 1), 2, 3, th)
	})
	reg("C11", "again", c11Again, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "how", []int{0, 1}), 1, 2, th)
	})
	reg("C11", "run", c11Run, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "how", []int{0, 1}), 1, 2, th)
	})
}

type tempErr struct{}

func (tempErr) Error() string   { return "transient" }
func (tempErr) Timeout() bool   { return false }
func (tempErr) Temporary() bool { return true }

// transient and a timeout at once
type tempTimeout struct{ tempErr }

func (tempTimeout) Timeout() bool { return true }

func stopServer(r *rig, how int) {
	switch how {
	case 0:
		err := r.srv.Stop()
		mc.Assert(err == nil || err == arpc.ErrTimeout, "Stop: %v", err)
	case 1:
		mc.Assert(r.srv.Shutdown(background()) == nil, "Shutdown failed")
		select {
		case <-r.served:
			r.served <- nil
		default:
			// the loop is over although Serve has not returned yet: nothing
			// may be accepted any more
			_, err := r.ln.Dial()
			mc.Assert(err != nil, "listener open after Shutdown")
		}
	case 2:
		r.srv.Stop()
		r.srv.Stop()
		mc.Assert(r.srv.Shutdown(background()) == nil, "Shutdown after Stop failed")
	case 3:
		mc.Assert(r.srv.Shutdown(background()) == nil, "Shutdown failed")
		r.srv.Stop()
	}
}

// checks the final state of a stopped server
func serverGone(r *rig, t *tracker) {
	mc.Idle()
	select {
	case <-r.served:
	default:
		mc.Fail("the serve loop has not ended")
	}
	for i, cn := range r.ln.Conns {
		mc.Assert(cn.IsClosed(), "connection %d is still open", i)
	}
	mc.Assert(r.ln.IsClosed(), "listener still open")
	t.ended(r.srv, len(t.con))
	mc.Assert(mc.Live() == 0, "goroutines left: %s", mc.LiveDesc())
}

func c11Stop(c *mc.Config) {
	r := newRig(c)
	t := track(r.srv.Handler, nil)
	ran := &cnt{}
	r.srv.Handler.Handle("/hi", func(ctx *arpc.Context) {
		ran.inc()
		ctx.Write("hi")
	}, true)
	r.up()
	for i := 0; i < c.Get("n"); i++ {
		b := r.raw()
		b.Write((&frame{cmd: 1, method: "/hi", seq: 1}).bytes())
		mustFrame(b)
	}
	g := newGroup()
	for i := 0; i < c.Get("racing"); i++ {
		g.run(func() {
			b, err := r.ln.Dial()
			if err != nil {
				return
			}
			b.Write((&frame{cmd: 1, method: "/hi", seq: 1}).bytes())
			f, err := readFrame(b)
			if err == nil {
				mc.Assert(f.data == "hi", "%+v", f)
				_, err = readFrame(b)
			}
			mc.Assert(err != nil, "connection racing with the stop stays served")
		})
	}
	g.run(func() { stopServer(r, c.Get("how")) })
	g.wait()
	serverGone(r, t)
	k := ran.get()
	mc.Idle()
	mc.Assert(ran.get() == k, "request served after the stop")
	mc.Assert(mc.Elapsed() < time.Second, "took %v", mc.Elapsed())
}

// the serve loop is busy: Shutdown obeys its context
func c11Timeout(c *mc.Config) {
	r := newRig(c)
	hold := newLatch()
	entered := newLatch()
	left := &cnt{}
	t := track(r.srv.Handler, func(*arpc.Client) {
		entered.fire()
		hold.wait()
		left.inc()
	})
	r.up()
	r.raw()
	entered.wait()
	start := mc.Elapsed()
	ctx, cancel := context.WithTimeout(background(), time.Minute)
	defer cancel()
	g := newGroup()
	if c.Get("release") != 0 {
		g.run(func() {
			if c.Get("release") == 2 {
				time.Sleep(time.Hour)
			}
			hold.fire()
		})
	}
	err := r.srv.Shutdown(ctx)
	switch {
	case err == nil:
		mc.Assert(left.get() == 1, "Shutdown succeeded although the serve loop had not ended")
	case err == arpc.ErrTimeout:
		mc.Assert(mc.EarlyFired() > 0 || mc.Elapsed()-start == time.Minute, "Shutdown timed out after %v", mc.Elapsed()-start)
	default:
		mc.Fail("Shutdown: %v", err)
	}
	if c.Get("release") == 1 && mc.EarlyFired() == 0 {
		mc.Assert(err == nil, "Shutdown: %v", err)
	}
	if c.Get("release") != 1 && mc.EarlyFired() == 0 {
		mc.Assert(err != nil, "Shutdown returned nil although the serve loop is busy")
	}
	if c.Get("release") == 0 {
		hold.fire()
	}
	g.wait()
	mc.Idle()
	serverGone(r, t)
}

// accept errors in every order
func c11Errors(c *mc.Config) {
	r := newRig(c)
	t := track(r.srv.Handler, nil)
	r.srv.Handler.Handle("/hi", func(ctx *arpc.Context) { ctx.Write("hi") }, true)
	r.up()
	trace := ""
	var conns []*mc.Conn
	temps := 0
	for i := 0; i < c.Get("depth"); i++ {
		switch mc.Choose(4) {
		case 3:
			r.ln.PushErr(tempTimeout{})
			temps++
			trace += " transient timeout"
		case 0:
			b := r.raw()
			conns = append(conns, b)
			b.Write((&frame{cmd: 1, method: "/hi", seq: 1}).bytes())
			f := mustFrame(b)
			mc.Assert(f.data == "hi", "%s: %+v", trace, f)
			trace += " conn"
		case 1:
			r.ln.PushErr(tempErr{})
			temps++
			trace += " transient"
		case 2:
			perm := errors.New("permanent")
			r.ln.PushErr(perm)
			b, derr := r.ln.Dial()
			err := <-r.served
			mc.Assert(err != nil, "%s permanent: Serve returned %v", trace, err)
			mc.Idle()
			_ = b
			_ = derr
			for _, x := range conns {
				mc.Assert(x.Peer().IsClosed(), "%s permanent: connection still open", trace)
			}
			t.ended(r.srv, len(conns))
			return
		}
	}
	mc.IdleAll()
	select {
	case err := <-r.served:
		mc.Fail("%s: Serve returned %v", trace, err)
	default:
	}
	mc.Assert(mc.Elapsed() <= time.Duration(temps)*time.Second, "%s: delayed %v", trace, mc.Elapsed())
	for _, x := range conns {
		mc.Assert(!x.Peer().IsClosed(), "%s: connection closed", trace)
		x.Write((&frame{cmd: 1, method: "/hi", seq: 2}).bytes())
		mc.Assert(mustFrame(x).data == "hi", "%s: not served", trace)
	}
	r.srv.Stop()
	serverGone(r, t)
}

// a long row of transient errors, also between connections
func c11Many(c *mc.Config) {
	r := newRig(c)
	t := track(r.srv.Handler, nil)
	r.srv.Handler.Handle("/hi", func(ctx *arpc.Context) { ctx.Write("hi") }, true)
	r.up()
	split := mc.Choose(3) * c.Get("k") / 2 // a connection at the begin, in between, at the end
	for i := 0; i <= c.Get("k"); i++ {
		if i == split {
			b := r.raw()
			b.Write((&frame{cmd: 1, method: "/hi", seq: 1}).bytes())
			mc.Assert(mustFrame(b).data == "hi", "not served after %d transient errors", i)
		}
		if i < c.Get("k") {
			r.ln.PushErr([]error{tempErr{}, tempTimeout{}}[i&1])
		}
	}
	mc.IdleAll()
	b := r.raw()
	b.Write((&frame{cmd: 1, method: "/hi", seq: 1}).bytes())
	mc.Assert(mustFrame(b).data == "hi", "not served after %d transient errors", c.Get("k"))
	r.srv.Stop()
	serverGone(r, t)
}

// the serve loop sleeps after a transient error when Shutdown comes
func c11Sleeping(c *mc.Config) {
	r := newRig(c)
	t := track(r.srv.Handler, nil)
	r.srv.Handler.Handle("/hi", func(ctx *arpc.Context) { ctx.Write("hi") }, true)
	r.up()
	for i := 0; i < c.Get("n"); i++ {
		b := r.raw()
		b.Write((&frame{cmd: 1, method: "/hi", seq: 1}).bytes())
		mc.Assert(mustFrame(b).data == "hi", "not served")
	}
	r.ln.PushErr(tempErr{})
	if c.Get("idle") == 1 {
		mc.Idle()
	}
	wait := []time.Duration{1, time.Microsecond, time.Hour}[c.Get("wait")]
	ctx, cancel := context.WithTimeout(background(), wait)
	defer cancel()
	err := r.srv.Shutdown(ctx)
	switch {
	case err == nil:
		_, derr := r.ln.Dial()
		mc.Assert(derr != nil, "listener open after Shutdown")
	case err == arpc.ErrTimeout:
		mc.Assert(c.Get("wait") < 2, "Shutdown timed out after %v", mc.Elapsed())
	default:
		mc.Fail("Shutdown: %v", err)
	}
	if err == nil {
		mc.Idle() // whatever still runs needs no time
		select {
		case <-r.served:
			r.served <- nil
		default:
			mc.Fail("Shutdown reported success although the serve loop has not ended")
		}
		for i, cn := range r.ln.Conns {
			mc.Assert(cn.IsClosed(), "connection %d is open although Shutdown reported success", i)
		}
	}
	mc.IdleAll()
	serverGone(r, t)
	mc.Outcome("%v", err)
}

// a stopped server can serve again on another listener
func c11Again(c *mc.Config) {
	r := newRig(c)
	t := track(r.srv.Handler, nil)
	r.srv.Handler.Handle("/hi", func(ctx *arpc.Context) { ctx.Write("hi") }, true)
	for round := 0; round < 2; round++ {
		r.up()
		b := r.raw()
		b.Write((&frame{cmd: 1, method: "/hi", seq: 1}).bytes())
		mc.Assert(mustFrame(b).data == "hi", "not served")
		stopServer(r, c.Get("how"))
		serverGone(r, t)
		r.ln = mc.NewListener("srv", mc.NetConfig{})
	}
}

// Run listens itself
func c11Run(c *mc.Config) {
	begin()
	s := newServer(c)
	t := track(s.Handler, nil)
	s.Handler.Handle("/hi", func(ctx *arpc.Context) { ctx.Write("hi") }, true)
	r := &rig{c: c, srv: s, served: make(chan error, 1)}
	go func() { r.served <- s.Run("here:1") }()
	mc.Idle()
	r.ln = mc.FindListener("here:1")
	mc.Assert(r.ln != nil, "Run does not listen")
	s2 := newServer(c)
	mc.Assert(s2.Run("here:1") != nil, "Run on a used address succeeded")
	b := r.raw()
	b.Write((&frame{cmd: 1, method: "/hi", seq: 1}).bytes())
	mc.Assert(mustFrame(b).data == "hi", "not served")
	stopServer(r, c.Get("how"))
	serverGone(r, t)
}
