package scen

import (
	"context"
	"fmt"
	"io"

	"github.com/lesismal/arpc"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

func init() {
	reg("C09", "oneway", c09Oneway, func(th bool) []mc.Config {
		return cat(
			bound(cross("", "async", []int{1}, "from", i01, "k", []int{0, 1, 3}, "q", []int{0, 1, 4}, "close", []int{0, 1, 2}, "recv", []int{0, 1, 2}), 1, 2, th),
			bound(cross("", "async", []int{0}, "from", i01, "k", []int{0, 3}, "q", []int{1, 4}, "close", []int{0, 1, 2}, "recv", []int{0, 1}), 1, 2, th),
			bound(cross("", "async", []int{1}, "from", i01, "k", []int{2}, "q", []int{1}, "close", []int{0, 1, 2}, "recv", []int{0, 1}, "pool", i01), 2, 3, th),
		)
	})
	reg("C09", "duplex", c09Duplex, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "order", []int{0, 1, 2}, "pool", i01), 2, 2, th)
	})
	reg("C09", "halfclose", c09Halfclose, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "from", i01, "first", i01, "how", []int{0, 1, 2}, "k", []int{0, 2}, "recv", []int{0, 1, 2}), 1, 2, th)
	})
	reg("C09", "many", c09Many, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "pool", i01), 0, 1), 1, 2, th)
	})
	reg("C09", "once", c09Once, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "end", []int{0, 1, 2, 3}, "late", []int{0, 1}), 1, 2, th)
	})
	reg("C09", "reconnect", c09Reconnect, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "open", []int{1, 2}), 2, 3, th)
	})
	reg("C09", "timeout", c09Timeout, func(th bool) []mc.Config {
		return bound(early(cross("", "async", i01, "q", []int{0, 1})), 2, 3, th)
	})
}

func recvKind(st *arpc.Stream, kind int) (string, error) {
	s := ""
	var err error
	switch kind {
	case 0:
		err = st.Recv(&s)
	case 1:
		err = st.RecvContext(background(), &s)
	case 2:
		err = st.RecvWith(background(), &s)
	}
	return s, err
}

// sender sends k messages and closes in one of three ways
func streamSend(st *arpc.Stream, tag string, k, how int) {
	for i := 0; i < k; i++ {
		p := tag + itoa(i)
		var err error
		if how == 1 && i == k-1 {
			err = st.SendAndClose(p)
		} else if i%2 == 1 {
			err = st.SendContext(background(), p)
		} else {
			err = st.Send(p)
		}
		mc.Assert(err == nil, "send %s: %v", p, err)
	}
	switch how {
	case 0:
		st.CloseSend()
	case 1:
		if k == 0 {
			st.CloseSendContext(background())
		}
		mc.Assert(st.Send("late") == arpc.ErrStreamClosedSend, "sending on a closed stream succeeded")
	case 2:
		st.CloseSendContext(background())
		mc.Assert(st.Send("late") == arpc.ErrStreamClosedSend, "sending on a closed stream succeeded")
		mc.Assert(st.SendAndClose("late") == arpc.ErrStreamClosedSend, "sending on a closed stream succeeded")
	}
}

// receiver expects exactly the k messages and then end-of-stream, repeatedly
func streamRecv(st *arpc.Stream, tag string, k, kind int) {
	for i := 0; i < k; i++ {
		s, err := recvKind(st, kind)
		mc.Assert(err == nil && s == tag+itoa(i), "receive %d of %s: got %q, %v", i, tag, s, err)
	}
	for i := 0; i < 2; i++ {
		s, err := recvKind(st, kind)
		mc.Assert(err == io.EOF, "end of %s: got %q, %v", tag, s, err)
	}
}

func c09Oneway(c *mc.Config) {
	r := newRig(c)
	k, how, kind := c.Get("k"), c.Get("close"), c.Get("recv")
	h := newHandler(c, "cli")
	h.SetStreamQueueSize(c.Get("q"))
	r.srv.Handler.SetStreamQueueSize(c.Get("q"))
	runs := &cnt{}
	done := make(chan struct{})
	serveStream := func(st *arpc.Stream) {
		mc.Assert(runs.inc() == 1, "stream handler ran again")
		streamRecv(st, "m", k, kind)
		st.CloseSend()
		close(done)
	}
	acc := make(chan *arpc.Client, 1)
	r.srv.Handler.HandleConnected(func(x *arpc.Client) { acc <- x })
	var from *arpc.Client
	if c.Get("from") == 0 {
		r.srv.Handler.HandleStream("/st", serveStream, true)
	} else {
		h.HandleStream("/st", serveStream, true)
	}
	r.serve()
	cli := r.client(h)
	if c.Get("from") == 0 {
		from = cli
	} else {
		from = <-acc
	}
	st := from.NewStream("/st")
	streamSend(st, "m", k, how)
	<-done
	streamRecv(st, "none", 0, kind)
	mc.Idle()
	mc.Assert(runs.get() == 1, "stream handler ran %d times", runs.get())
	mc.Assert(mc.Elapsed() == 0, "delayed")
}

// the two directions close independently
func c09Duplex(c *mc.Config) {
	r := newRig(c)
	const k = 2
	serverDone := make(chan struct{})
	r.srv.Handler.HandleStream("/st", func(st *arpc.Stream) {
		switch c.Get("order") {
		case 0: // answers only after the peer's end
			streamRecv(st, "c", k, 0)
			streamSend(st, "s", k, 2)
		case 1: // ends its own direction first
			streamSend(st, "s", k, 2)
			streamRecv(st, "c", k, 1)
		case 2:
			go streamSend(st, "s", k, 1)
			streamRecv(st, "c", k, 0)
		}
		close(serverDone)
	}, true)
	r.serve()
	cli := r.client(nil)
	st := cli.NewStream("/st")
	if c.Get("order") == 1 {
		mc.Assert(st.Send("c0") == nil, "send")
		streamRecv(st, "s", k, 0)
		mc.Assert(st.Send("c1") == nil, "sending after the peer closed its direction")
		st.CloseSend()
	} else {
		g := newGroup()
		g.run(func() { streamSend(st, "c", k, 0) })
		g.run(func() { streamRecv(st, "s", k, 1) })
		g.wait()
	}
	<-serverDone
}

// one side, opener or handler, ends its direction; the other direction still
// carries messages and ends later
func c09Halfclose(c *mc.Config) {
	r := newRig(c)
	h := newHandler(c, "cli")
	k, kind := c.Get("k"), c.Get("recv")
	ended := newLatch()
	done := make(chan struct{})
	early := func(st *arpc.Stream) { // ends its direction, then listens
		streamSend(st, "e", 1, c.Get("how"))
		ended.fire()
		streamRecv(st, "l", k+1, kind)
	}
	late := func(st *arpc.Stream, opener bool) {
		if opener { // the handler starts with the first message
			mc.Assert(st.Send("l0") == nil, "first message")
		}
		ended.wait()
		streamRecv(st, "e", 1, kind)
		from := 0
		if opener {
			from = 1
		}
		for i := from; i <= k; i++ {
			mc.Assert(st.Send("l"+itoa(i)) == nil, "sending after the peer ended its direction")
		}
		st.CloseSend()
	}
	hs := func(st *arpc.Stream) {
		if c.Get("first") == 1 {
			early(st)
		} else {
			late(st, false)
		}
		close(done)
	}
	acc := make(chan *arpc.Client, 1)
	r.srv.Handler.HandleConnected(func(x *arpc.Client) { acc <- x })
	r.srv.Handler.HandleStream("/st", hs, true)
	h.HandleStream("/st", hs, true)
	r.serve()
	from := r.client(h)
	if c.Get("from") == 1 {
		from = <-acc
	}
	st := from.NewStream("/st")
	if c.Get("first") == 0 {
		early(st)
	} else {
		late(st, true)
	}
	<-done
	mc.Assert(mc.Elapsed() == 0, "delayed")
}

// streams of both sides with equal numbers at the same time
func c09Many(c *mc.Config) {
	r := newRig(c)
	h := newHandler(c, "cli")
	runs := map[string]*cnt{"/s1": {}, "/s2": {}, "/c1": {}}
	acc := make(chan *arpc.Client, 1)
	r.srv.Handler.HandleConnected(func(x *arpc.Client) { acc <- x })
	hs := func(m string) arpc.StreamHandlerFunc {
		return func(st *arpc.Stream) {
			mc.Assert(runs[m].inc() == 1, "handler of %s ran again", m)
			streamRecv(st, m+"q", 2, 0)
			streamSend(st, m+"a", 1, 2)
		}
	}
	r.srv.Handler.HandleStream("/s1", hs("/s1"), true)
	r.srv.Handler.HandleStream("/s2", hs("/s2"), true)
	h.HandleStream("/c1", hs("/c1"), true)
	r.serve()
	cli := r.client(h)
	svr := <-acc
	g := newGroup()
	use := func(x *arpc.Client, m string) {
		g.run(func() {
			st := x.NewStream(m)
			streamSend(st, m+"q", 2, 2)
			streamRecv(st, m+"a", 1, 0)
		})
	}
	use(cli, "/s1")
	use(cli, "/s2")
	use(svr, "/c1")
	g.wait()
	mc.Idle()
	for m, n := range runs {
		mc.Assert(n.get() == 1, "handler of %s ran %d times", m, n.get())
	}
}

// the handler ends the stream early while the opener still sends
func c09Once(c *mc.Config) {
	r := newRig(c)
	runs := &cnt{}
	r.srv.Handler.HandleStream("/st", func(st *arpc.Stream) {
		mc.Assert(runs.inc() == 1, "stream handler ran again for the same stream")
		switch c.Get("end") {
		case 0:
			st.CloseRecv()
			st.CloseSendContext(background())
		case 1:
			st.CloseSendContext(background())
			st.CloseRecv()
		case 2:
			st.CloseRecvContext(background())
			st.SendAndClose("bye")
		case 3:
			s := ""
			st.Recv(&s)
			st.CloseSend()
			st.CloseRecv()
		}
	}, true)
	r.serve()
	cli := r.client(nil)
	st := cli.NewStream("/st")
	mc.Assert(st.Send("one") == nil, "send")
	if c.Get("late") == 1 {
		mc.Idle()
	}
	mc.Assert(st.Send("two") == nil, "send")
	mc.Assert(st.Send("three") == nil, "send")
	st.CloseSendContext(background())
	mc.Idle()
	mc.Assert(runs.get() == 1, "stream handler ran %d times", runs.get())
	if c.Get("end") == 2 {
		streamOne(st, "bye")
	}
	streamRecv(st, "", 0, 0)
	// the connection still works for another stream
	st2 := cli.NewStream("/st2")
	mc.Assert(st2.Send("x") == nil, "send")
	mc.Idle()
	mc.Assert(runs.get() == 1, "stream handler ran %d times", runs.get())
}

func streamOne(st *arpc.Stream, want string) {
	s, err := recvKind(st, 0)
	mc.Assert(err == nil && s == want, "got %q, %v", s, err)
}

// streams lost with a connection must not show up on the next one
func c09Reconnect(c *mc.Config) {
	r := newRig(c)
	runs := &cnt{}
	r.srv.Handler.HandleStream("/st", func(st *arpc.Stream) {
		runs.inc()
		for {
			s := ""
			if st.Recv(&s) != nil {
				return
			}
		}
	}, true)
	r.srv.Handler.Handle("/ping", func(ctx *arpc.Context) { ctx.Write("pong") }, false)
	r.serve()
	h := newHandler(c, "cli")
	up := make(chan struct{}, 4)
	h.HandleConnected(func(*arpc.Client) { up <- struct{}{} })
	cli := r.client(h)
	<-up
	n := c.Get("open")
	sts := make([]*arpc.Stream, n)
	for i := range sts {
		sts[i] = cli.NewStream("/st")
		mc.Assert(sts[i].Send("x") == nil, "send")
	}
	mc.Idle()
	mc.Assert(runs.get() == n, "stream handler ran %d times for %d streams", runs.get(), n)
	r.ln.Conns[0].Cut()
	<-up
	rsp, err := call(cli, kCall, "/ping", "")
	mc.Assert(err == nil && rsp == "pong", "call after reconnect: %q %v", rsp, err)
	mc.Idle()
	mc.Assert(runs.get() == n, "stream handler ran %d times for %d streams opened before the reconnect", runs.get(), n)
	for _, st := range sts {
		_, err := recvKind(st, 0)
		mc.Assert(err != nil, "received on a lost stream")
	}
	st := cli.NewStream("/st")
	mc.Assert(st.Send("y") == nil, "send on a new stream")
	mc.Idle()
	mc.Assert(runs.get() == n+1, "stream handler ran %d times", runs.get())
}

// a receive that times out loses nothing
func c09Timeout(c *mc.Config) {
	r := newRig(c)
	r.srv.Handler.SetStreamQueueSize(c.Get("q"))
	done := make(chan struct{})
	r.srv.Handler.HandleStream("/st", func(st *arpc.Stream) {
		var got []string
		for {
			ctx, cancel := context.WithTimeout(background(), 1000)
			s := ""
			err := st.RecvContext(ctx, &s)
			cancel()
			if err == arpc.ErrTimeout {
				mc.Assert(mc.Elapsed() > 0 || mc.EarlyFired() > 0, "timed out without time passing")
				continue
			}
			if err == io.EOF {
				break
			}
			mc.Assert(err == nil, "receive: %v", err)
			got = append(got, s)
		}
		mc.Assert(fmt.Sprint(got) == "[m0 m1]", "received %v", got)
		close(done)
	}, true)
	r.serve()
	cli := r.client(nil)
	st := cli.NewStream("/st")
	streamSend(st, "m", 2, 2)
	<-done
}
