package scen

import (
	"time"

	"github.com/lesismal/arpc"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

// Streams whose messages nobody takes: the receive loop waits for room in
// the stream's queue, and everything that ends the connection must still work.

func init() {
	reg("C02", "unread", c02Unread, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "bsend", i01, "kind", []int{kCall, kCtx}, "how", []int{0, 2}, "msgs", []int{1, 2, 3, 6}), 0, 1), 1, 2, th)
	})
	// known: the loss is not noticed while the loop waits for the stream
	reg("C02", "unread-lost", c02Unread, func(th bool) []mc.Config {
		return bound(cross("", "async", []int{1}, "bsend", []int{1}, "kind", []int{kCall}, "how", []int{1}, "msgs", []int{2}), 0, 0, th)
	})
	reg("C10", "unread", c10Unread, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "queue", []int{1, 2}, "how", []int{1, 2, 3, 4}, "reads", i01, "msgs", []int{2, 4}), 0, 1), 1, 2, th)
	})
	// what fits does not keep a loss from being noticed
	reg("C10", "unread-fits", c10Unread, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "queue", []int{2}, "how", []int{0}, "reads", i01, "msgs", []int{1, 2}), 0, 1), 1, 2, th)
	})
	// known: the loss is not noticed while the loop waits for the stream
	reg("C10", "unread-lost", c10Unread, func(th bool) []mc.Config {
		return bound(cross("", "async", []int{1}, "queue", []int{1}, "how", []int{0}, "reads", []int{0}, "msgs", []int{2}), 0, 0, th)
	})
	reg("C12", "unread", c12Unread, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "queue", []int{1, 2}, "how", []int{0, 1, 2}, "msgs", []int{2, 3, 5}), 0, 1), 1, 2, th)
	})
}

// streamFrames are n messages of the peer's half of a stream.
func streamFrames(id uint64, n int, cmd byte) []byte {
	var p []byte
	for i := 0; i < n; i++ {
		p = append(p, (&frame{cmd: cmd, method: "/s", seq: id, data: itoa(i)}).bytes()...)
	}
	return p
}

// a call waits on a connection with an unread stream
func c02Unread(c *mc.Config) {
	begin()
	h := newHandler(c, "cli")
	h.SetStreamQueueSize(1)
	h.SetMaxReconnectTimes(1)
	cli, b := scripted(c, h)
	s := cli.NewStream("/s")
	b.Write(streamFrames(s.Id(), c.Get("msgs"), 6))
	mc.Idle()
	g := newGroup()
	g.run(func() {
		_, err := call(cli, c.Get("kind"), "/m", "q")
		mc.Assert(err != nil, "a call nobody answers succeeded")
		mc.Assert(mc.Elapsed() == 0, "the waiting call returned %v only after %v", err, mc.Elapsed())
	})
	mc.Idle()
	switch c.Get("how") {
	case 0:
		g.run(cli.Stop)
	case 1: // lost
		g.run(func() { b.Close() })
	case 2: // a reader comes
		g.run(func() {
			for i := 0; i < c.Get("msgs"); i++ {
				v := ""
				mc.Assert(s.Recv(&v) == nil && v == itoa(i), "message %d: %q", i, v)
			}
			b.Close()
		})
	}
	g.wait()
}

func c10Unread(c *mc.Config) {
	r := newRig(c)
	r.srv.Handler.SetStreamQueueSize(c.Get("queue"))
	var x *arpc.Client
	t := track(r.srv.Handler, func(cl *arpc.Client) { x = cl })
	r.srv.Handler.HandleStream("/s", func(s *arpc.Stream) {
		for i := 0; i < c.Get("reads"); i++ {
			v := ""
			mc.Assert(s.Recv(&v) == nil && v == itoa(i), "message %d: %q", i, v)
		}
	})
	r.up()
	b := r.raw()
	b.Write(streamFrames(7, c.Get("msgs"), 6|0x80))
	mc.Idle()
	g := newGroup()
	switch c.Get("how") {
	case 0: // lost
		b.Close()
	case 1:
		g.run(x.Stop)
	case 2:
		g.run(func() { r.srv.Stop() })
	case 3:
		g.run(func() { mc.Assert(r.srv.Shutdown(background()) == nil, "Shutdown failed") })
	case 4: // several at once
		g.run(x.Stop)
		g.run(x.Stop)
		g.run(func() { r.srv.Stop() })
	}
	g.wait()
	mc.Idle()
	t.ended(r.srv, 1)
	r.srv.Stop()
	mc.Idle()
	mc.Assert(mc.Live() == 0, "goroutines left: %s", mc.LiveDesc())
	mc.Assert(mc.Elapsed() < time.Second, "took %v", mc.Elapsed())
}

func c12Unread(c *mc.Config) {
	begin()
	h := newHandler(c, "cli")
	h.SetStreamQueueSize(c.Get("queue"))
	l := newLife(h)
	w := &world{plan: func(int) bool { return true }}
	cli, err := arpc.NewClient(w.dial, h)
	mc.Assert(err == nil, "%v", err)
	s := cli.NewStream("/s")
	w.far[0].Write(streamFrames(s.Id(), c.Get("msgs"), 6))
	mc.Idle()
	g := newGroup()
	switch c.Get("how") {
	case 0:
		g.run(cli.Stop)
	case 1:
		g.run(cli.Stop)
		g.run(cli.Stop)
	case 2:
		g.run(func() { mc.Assert(cli.Restart() == nil, "Restart failed") })
		g.wait()
		usable(cli, "after Restart")
		mc.Assert(w.dials == 2, "%d dials", w.dials)
		cli.Stop()
	}
	g.wait()
	mc.Idle()
	stopped(cli, "after Stop")
	w.closed()
	want := 1
	if c.Get("how") == 2 {
		want = 2
	}
	mc.Assert(l.dis.get() == want, "disconnected callback ran %d times", l.dis.get())
	mc.Assert(mc.Live() == 0, "goroutines left: %s", mc.LiveDesc())
	mc.Assert(mc.Elapsed() == 0, "stopping took %v", mc.Elapsed())
}
