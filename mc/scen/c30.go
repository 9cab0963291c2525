package scen

import (
	"context"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/codec"
	"github.com/lesismal/arpc/extension/arpchttp"
	"github.com/lesismal/arpc/extension/pubsub"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

// C30: finished operations leave nothing behind: repeating them leaves the
// number of goroutines, of pending timers and of the objects kept by clients
// and servers where they were.

const c30Ops = 28

func init() {
	reg("C30", "ops", c30Op, func(th bool) []mc.Config {
		return bound(orders(cat(
			cross("", "op", rangeInts(c30Ops), "side", i01, "async", i01, "rsp", i01),
			cross("", "op", rangeInts(c30Ops), "side", i01, "async", []int{1}, "bsend", []int{0}, "pool", []int{1}),
		), 0, 1), 1, 2, th)
	})
	reg("C30", "pairs", c30Pairs, func(th bool) []mc.Config {
		return bound(cross("", "op", rangeInts(c30Ops), "side", i01, "async", i01), 0, 1, th)
	})
	reg("C30", "loss", c30Loss, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "cause", []int{0, 1, 2}, "what", rangeInts(6)), 0, 1), 1, 2, th)
	})
	reg("C30", "conns", c30Conns, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "cause", rangeInts(5), "what", rangeInts(7)), 0, 1), 1, 2, th)
	})
	reg("C30", "streams", c30Streams, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "from", i01, "n", []int{0, 1, 2}, "how", rangeInts(4)), 0, 1), 1, 2, th)
	})
	reg("C30", "stop", c30Stop, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "side", i01, "what", rangeInts(7), "full", i01), 0, 1), 2, 3, th)
	})
	reg("C30", "pubsub", c30Pubsub, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "what", rangeInts(7)), 0, 1), 0, 1, th)
	})
	reg("C30", "nodes", c30Nodes, func(th bool) []mc.Config {
		return bound(orders(cross("", "what", rangeInts(4)), 0, 1), 1, 2, th)
	})
	reg("C30", "restart", c30Restart, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "what", rangeInts(4)), 0, 1), 1, 2, th)
	})
	reg("C30", "bridge", c30Bridge, func(th bool) []mc.Config {
		return bound(cross("", "coder", []int{0, 1, 2}, "n", []int{1}), 1, 2, th)
	})
}

// steady repeats a round and compares what is left behind.
func steady(what string, rounds int, roots func() []interface{}, round func(i int)) {
	const warm = 2
	live, timers, foot := 0, 0, 0
	for i := 0; i < warm+rounds; i++ {
		if i == 1 {
			// after one round: what is set up once is there
			live, timers = mc.Live(), mc.PendingTimers()
		}
		round(i)
		mc.Idle()
		if i >= 1 {
			mc.Assert(mc.Live() == live, "%s: %d goroutines after round %d, %d before: %s", what, mc.Live(), i, live, mc.LiveDesc())
			mc.Assert(mc.PendingTimers() == timers, "%s: %d pending timers after round %d, %d before", what, mc.PendingTimers(), i, timers)
		}
		if i == warm-1 {
			foot = mc.Footprint(roots()...)
		}
	}
	f := mc.Footprint(roots()...)
	mc.Assert(f <= foot, "%s: %d more objects kept after %d more rounds", what, f-foot, rounds)
}

// c30Do performs one finished operation of the end under test.
func c30Do(e *c29End, op, i int) {
	cli, b := e.cli, e.b
	q := "q" + itoa(i)
	reply := func(f *frame, flag byte, data string) {
		b.Write((&frame{cmd: 2, method: f.method, seq: f.seq, flag: f.flag | flag, data: data}).bytes())
	}
	// the scripted peer answers one request with the function
	peer := func(n int, f func(f *frame)) chan struct{} {
		done := make(chan struct{}, 1)
		go func() {
			for ; n > 0; n-- {
				f(mustFrame(b))
			}
			done <- struct{}{}
		}()
		return done
	}
	ok := func(f *frame) { reply(f, 0, "re:"+f.data) }
	none := func(f *frame) {}
	acall := func(cb arpc.AsyncHandlerFunc, d time.Duration) { cli.CallAsync("/m", q, cb, d) }
	nop := func(*arpc.Context, error) {}
	var rsp string
	switch op {
	case 0, 1:
		p := peer(1, ok)
		s, err := call(cli, []int{kCall, kCtx}[op], "/m", q)
		mc.Assert(err == nil && s == "re:"+q, "call: %q %v", s, err)
		<-p
	case 2:
		p := peer(1, func(f *frame) { reply(f, 1, "no") })
		mc.Assert(errStr(cli.Call("/m", q, &rsp, hour)) == "no", "call")
		<-p
	case 3: // timeout, then the response
		var last *frame
		p := peer(1, func(f *frame) { last = f })
		mc.Assert(cli.Call("/m", q, &rsp, time.Second) == arpc.ErrClientTimeout, "call")
		<-p
		ok(last)
	case 4: // cancelled
		ctx, cancel := context.WithCancel(context.Background())
		p := peer(1, func(f *frame) { cancel() })
		mc.Assert(cli.CallContext(ctx, "/m", q, &rsp) != nil, "call")
		<-p
	case 5: // deadline
		ctx, cancel := context.WithTimeout(context.Background(), time.Second)
		p := peer(1, none)
		mc.Assert(cli.CallWith(ctx, "/m", q, &rsp) != nil, "call")
		cancel()
		<-p
	case 6:
		p := peer(1, ok)
		acall(nop, hour)
		<-p
	case 7:
		p := peer(1, func(f *frame) { reply(f, 1, "no") })
		acall(nop, hour)
		<-p
	case 8: // timeout, then the response
		var last *frame
		p := peer(1, func(f *frame) { last = f })
		acall(nop, time.Second)
		<-p
		time.Sleep(2 * time.Second)
		ok(last)
	case 9:
		p := peer(1, ok)
		acall(func(*arpc.Context, error) { panic("boom") }, hour)
		<-p
	case 10:
		p := peer(1, none)
		mc.Assert(cli.Notify("/m", q, hour) == nil, "notify")
		<-p
	case 11:
		p := peer(1, none)
		mc.Assert(cli.NotifyContext(background(), "/m", q) == nil, "notify")
		<-p
	case 12:
		p := peer(2, none)
		mc.Assert(cli.Notify("/m", q, arpc.TimeZero) == nil, "notify")
		mc.Idle()
		mc.Assert(cli.PushMsg(cli.NewMessage(arpc.CmdNotify, "/m", q), time.Second) == nil, "push")
		<-p
	case 13:
		p := peer(2, none)
		cli.Ping()
		b.Write((&frame{cmd: 4}).bytes())
		<-p
	case 14: // response twice
		p := peer(1, func(f *frame) { ok(f); ok(f) })
		mc.Assert(cli.Call("/m", q, &rsp, hour) == nil, "call")
		<-p
	case 15: // nobody asked
		b.Write((&frame{cmd: 2, method: "/m", seq: 1 << 40}).bytes())
		b.Write((&frame{cmd: 2, method: "/m", seq: 1 << 40, flag: 2}).bytes())
		b.Write((&frame{cmd: 6 | 0x80, method: "/none", seq: 1<<40 + uint64(i), data: "x"}).bytes())
		b.Write((&frame{cmd: 6, method: "/none", seq: 1<<40 + uint64(i), data: "x"}).bytes())
		b.Write((&frame{cmd: 6 | 0x40, method: "/none", seq: 1<<41 + uint64(i), data: "x"}).bytes())
	case 16: // the response does not fit
		p := peer(1, ok)
		mc.Assert(cli.Call("/m", q, &struct{}{}, hour) != nil, "call")
		<-p
	case 17: // with values
		p := peer(1, ok)
		mc.Assert(cli.Call("/m", q, &rsp, hour, map[interface{}]interface{}{"k": i}) == nil, "call")
		<-p
	case 18: // requests of the peer: served, unknown, panicking, values
		p := peer(4, none)
		b.Write((&frame{cmd: 1, method: "/echo", seq: uint64(i), data: q}).bytes())
		b.Write((&frame{cmd: 1, method: "/unknown", seq: uint64(i), data: q}).bytes())
		b.Write((&frame{cmd: 1, method: "/panic", seq: uint64(i), data: q}).bytes())
		b.Write((&frame{cmd: 3, method: "/echo", data: q}).bytes())
		b.Write((&frame{cmd: 3, method: "/unknown", data: q}).bytes())
		b.Write((&frame{cmd: 1, method: "/echo", flag: 2, seq: uint64(i), data: q}).bytes())
		<-p
	case 19: // a stream opened and closed here, the peer closes, too
		s := cli.NewStream("/s")
		p := peer(2, none)
		mc.Assert(s.Send("x") == nil, "send")
		s.CloseSendContext(background())
		<-p
		b.Write((&frame{cmd: 6 | 0x40, method: "/s", seq: s.Id()}).bytes())
		mc.Assert(s.Recv(&rsp) != nil, "stream not ended")
		s.CloseRecv()
	case 20: // a stream opened by the peer
		p := peer(2, none)
		b.Write((&frame{cmd: 6 | 0x80, method: "/s", seq: 1<<20 + uint64(i), data: "x"}).bytes())
		b.Write((&frame{cmd: 6 | 0x80 | 0x40, method: "/s", seq: 1<<20 + uint64(i)}).bytes())
		<-p
	case 21: // errors before anything is sent
		mc.Assert(cli.Call("", q, &rsp, hour) != nil, "call")
		mc.Assert(cli.Call("/m", q, &rsp, 0) != nil, "call")
		mc.Assert(cli.CallAsync("/m", q, nil, -1) != nil, "call")
		mc.Assert(cli.CallAsync("/m", q, nop, -1) != nil, "call")
		mc.Assert(cli.Notify("", q, hour) != nil, "notify")
	case 22, 23, 24: // the queue is full
		if e.c.Get("async") == 0 {
			return
		}
		b.SetLimit(1)
		n := 0
		for ; n < 100; n++ {
			if cli.Notify("/m", q, arpc.TimeZero) != nil {
				break
			}
			mc.Idle()
		}
		mc.Assert(n > 1 && n < 100, "queue never full")
		switch op {
		case 22:
			mc.Assert(cli.Call("/m", q, &rsp, time.Second) == arpc.ErrClientTimeout, "call on a full queue")
			ctx, cancel := context.WithTimeout(context.Background(), time.Second)
			mc.Assert(cli.CallContext(ctx, "/m", q, &rsp) != nil, "call on a full queue")
			mc.Assert(cli.NotifyContext(ctx, "/m", q) != nil, "notify on a full queue")
			cancel()
		case 23:
			n1 := 0
			cli.CallAsync("/m", q, func(*arpc.Context, error) { mc.Sync(); n1++ }, time.Second)
			time.Sleep(2 * time.Second)
		case 24:
			mc.Assert(cli.Notify("/m", q, time.Second) != nil, "notify on a full queue")
			mc.Assert(cli.PushMsg(cli.NewMessage(arpc.CmdNotify, "/m", q), time.Second) != nil, "push on a full queue")
		}
		b.SetLimit(0)
		g := newGroup()
		g.run(func() {
			for mustFrame(b).data != "end" {
			}
		})
		mc.Assert(cli.Notify("/m", "end", hour) == nil, "notify")
		g.wait()
	case 25: // values of the client
		cli.Set(i, i)
		cli.Get(i)
		cli.Delete(i)
	case 27: // a stream that the peer never answers
		s := cli.NewStream("/s")
		p := peer(2, none)
		mc.Assert(s.Send("x") == nil, "send")
		s.CloseSendContext(background())
		<-p
		s.CloseRecv()
	case 26: // several at once
		g := newGroup()
		p := peer(3, ok)
		g.run(func() { cli.Call("/m", q, &rsp, hour) })
		g.run(func() { cli.CallContext(background(), "/m", q, nil) })
		g.run(func() { acall(nop, hour) })
		g.wait()
		<-p
	}
}

func c30End(c *mc.Config) *c29End {
	return newC29End(c, func(h arpc.Handler) {
		h.SetSendQueueSize(4)
		rsp := c.Get("rsp") == 1
		h.Handle("/echo", func(ctx *arpc.Context) { ctx.Set("k", 1); ctx.Write(string(ctx.Body())) }, rsp)
		h.Handle("/panic", func(ctx *arpc.Context) { ctx.Write("x"); panic("boom") }, rsp)
		h.HandleStream("/s", func(s *arpc.Stream) {
			v := ""
			for s.Recv(&v) == nil {
			}
			s.Send("bye")
			s.CloseSendContext(background())
			s.CloseRecv()
		})
	})
}

func (e *c29End) roots() []interface{} {
	l := []interface{}{e.cli, e.h}
	if e.r != nil {
		l = append(l, e.r.srv)
	}
	return l
}

func c30Op(c *mc.Config) {
	e := c30End(c)
	steady("operation", 2, e.roots, func(i int) { c30Do(e, c.Get("op"), i) })
}

func c30Pairs(c *mc.Config) {
	e := c30End(c)
	op2 := mc.Choose(c30Ops)
	steady("operations "+itoa(c.Get("op"))+","+itoa(op2), 2, e.roots, func(i int) {
		c30Do(e, c.Get("op"), i)
		c30Do(e, op2, 100+i)
	})
}

// A connection lost with something unfinished, then replaced.
func c30Loss(c *mc.Config) {
	begin()
	w := &world{}
	h := newHandler(c, "cli")
	var cli *arpc.Client
	dial := w.dial
	cli, err := arpc.NewClient(dial, h)
	mc.Assert(err == nil, "dial: %v", err)
	steady("loss", 2, func() []interface{} { return []interface{}{cli, h} }, func(i int) {
		mc.Idle()
		g := newGroup()
		switch c.Get("what") {
		case 0:
			g.run(func() { cli.Call("/hold", "q", nil, hour) })
		case 1:
			g.run(func() { cli.CallAsync("/hold", "q", func(*arpc.Context, error) {}, hour) })
		case 2:
			s := cli.NewStream("/hold")
			g.run(func() { s.Send("q"); s.Recv(new(string)) })
		case 3:
			g.run(func() { cli.CallContext(background(), "/hold", "q", nil) })
		case 4:
			g.run(func() { cli.Notify("/hold", "q", hour) })
		case 5:
			s := cli.NewStream("/hold")
			s.Send("q")
			s.CloseSendContext(background())
		}
		mc.Idle()
		loseConn(w, c.Get("cause"))
		g.wait()
		time.Sleep(3 * time.Second)
		mc.Assert(cli.CheckState() == nil, "not reconnected: %v", cli.CheckState())
		usable(cli, "reconnected")
	})
}

// Connections that come, do something and go.
func c30Conns(c *mc.Config) {
	r := newRig(c)
	h := r.srv.Handler
	h.Handle("/echo", func(ctx *arpc.Context) { ctx.Write("x") })
	h.Handle("/stop", func(ctx *arpc.Context) { ctx.Client.Stop() })
	h.HandleStream("/s", func(s *arpc.Stream) {
		v := ""
		for s.Recv(&v) == nil {
		}
	})
	var cur *arpc.Client
	h.HandleConnected(func(x *arpc.Client) { mc.Sync(); cur = x })
	r.up()
	steady("connections", 2, func() []interface{} { return []interface{}{r.srv} }, func(i int) {
		b := r.raw()
		mc.Idle()
		mc.Sync()
		cli := cur
		g := newGroup()
		switch c.Get("what") {
		case 0:
			b.Write((&frame{cmd: 1, method: "/echo", seq: 1}).bytes())
		case 1:
			g.run(func() { cli.Call("/m", "q", nil, hour) })
		case 2:
			g.run(func() { cli.CallAsync("/m", "q", func(*arpc.Context, error) {}, time.Second) })
		case 3:
			b.Write((&frame{cmd: 6 | 0x80, method: "/s", seq: 1, data: "x"}).bytes())
		case 4:
			g.run(func() { cli.NewStream("/m").Recv(new(string)) })
		case 5:
			cli.Set("k", "v")
			r.srv.Broadcast("/b", "x")
		case 6:
			cli.Conn.(*mc.Conn).FailWrites(errHook)
			g.run(func() {
				err := cli.CallAsync("/m", "q", func(*arpc.Context, error) {}, map[bool]time.Duration{true: hour, false: time.Second}[c.Get("async") == 0])
				mc.Assert(err != nil || c.Get("async") == 1, "async call on a broken connection: %v", err)
			})
			g.run(func() { cli.Call("/m", "q", nil, hour) })
			g.run(func() { cli.CallContext(background(), "/m", "q", nil) })
			g.run(func() { cli.Notify("/m", "q", hour) })
		}
		mc.Idle()
		switch c.Get("cause") {
		case 0:
			b.Close()
		case 1:
			b.Cut()
		case 2:
			b.Write([]byte{0xff, 0xff, 0xff, 0xff, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0})
		case 3:
			cli.Stop()
		case 4:
			b.Write((&frame{cmd: 3, method: "/stop"}).bytes())
		}
		g.wait()
		time.Sleep(2 * time.Second) // asynchronous calls of an accepted client end at their timeout
		b.Close()
		mc.Idle()
		mc.Assert(cli.CheckState() == arpc.ErrClientStopped, "still up")
	})
}

// Streams between two real ends, closed by both in both directions.
func c30Streams(c *mc.Config) {
	r := newRig(c)
	ch := newHandler(c, "cli")
	n, how := c.Get("n"), c.Get("how")
	use := func(s *arpc.Stream, opener bool) {
		v := ""
		if how == 3 && opener {
			// does not wait for the other's messages
			for i := 0; i < n; i++ {
				s.Send("m" + itoa(i))
			}
			s.Send("x")
			s.CloseSendContext(background())
			mc.Idle()
			s.CloseRecv()
			return
		}
		if opener {
			for i := 0; i < n; i++ {
				s.Send("m" + itoa(i))
			}
			if how == 1 {
				s.SendAndClose("last")
			} else {
				s.Send("x")
				s.CloseSendContext(background())
			}
		}
		k := 0
		for s.Recv(&v) == nil {
			k++
		}
		if !opener {
			for i := 0; i < n; i++ {
				s.Send("r" + itoa(i))
			}
			if how == 2 {
				s.SendAndClose("last")
			} else {
				s.CloseSendContext(background())
			}
		}
		if how != 2 {
			s.CloseRecv()
		}
	}
	done := make(chan struct{}, 1)
	sh := func(s *arpc.Stream) { use(s, false); done <- struct{}{} }
	r.srv.Handler.HandleStream("/s", sh)
	ch.HandleStream("/s", sh)
	var acc *arpc.Client
	r.srv.Handler.HandleConnected(func(x *arpc.Client) { mc.Sync(); acc = x })
	r.up()
	cli := r.client(ch)
	mc.Idle()
	mc.Sync()
	steady("streams", 3, func() []interface{} { return []interface{}{cli, acc, r.srv} }, func(i int) {
		op := cli
		if c.Get("from") == 1 {
			op = acc
		}
		use(op.NewStream("/s"), true)
		<-done
	})
}

func c30Pubsub(c *mc.Config) {
	w := newHub(c)
	x := w.join()
	nop := func(*pubsub.Topic) {}
	roots := func() []interface{} { return []interface{}{w.srv, x} }
	what := c.Get("what")
	if what >= 4 {
		mc.Assert(x.Subscribe("t", nop, hour) == nil, "subscribe")
	}
	steady("pub/sub", 2, roots, func(i int) {
		switch what {
		case 0: // subscribe, publish, unsubscribe
			mc.Assert(x.Subscribe("t", nop, hour) == nil, "subscribe")
			mc.Assert(x.Publish("t", "v", hour) == nil, "publish")
			mc.Idle()
			mc.Assert(x.Unsubscribe("t", hour) == nil, "unsubscribe")
		case 1, 2, 3: // another client comes and goes
			h := newHandler(c, "other")
			y, err := pubsub.NewClient(dialer(w.ln), h)
			mc.Assert(err == nil, "dial: %v", err)
			y.Password = "pw"
			mc.Idle()
			mc.Assert(y.Authenticate() == nil, "authenticate")
			mc.Assert(y.Subscribe("t", nop, hour) == nil, "subscribe")
			mc.Assert(x.Publish("t", "v", hour) == nil, "publish")
			if what == 2 {
				mc.Assert(y.Unsubscribe("t", hour) == nil, "unsubscribe")
				mc.Assert(y.Subscribe("u", nop, hour) == nil, "subscribe")
			}
			if what == 3 {
				mc.Assert(y.Subscribe("u", nop, hour) == nil, "subscribe")
				mc.Assert(y.Authenticate() == nil, "authenticate again")
			}
			mc.Idle()
			y.Stop()
		case 4: // publish
			mc.Assert(x.Publish("t", "v", hour) == nil, "publish")
			mc.Assert(w.srv.Publish("t", "v") == nil, "publish")
			mc.Assert(x.PublishToOne("t", "v", hour) == nil, "publish")
		case 5: // subscribe again, authenticate again
			mc.Assert(x.Subscribe("t", nop, hour) == nil, "subscribe")
			mc.Assert(x.Authenticate() == nil, "authenticate")
		case 6: // lost and re-established
			x.Client.Conn.Close()
			time.Sleep(3 * time.Second)
			mc.Assert(x.CheckState() == nil, "not reconnected")
		}
		mc.Idle()
	})
}

func c30Nodes(c *mc.Config) {
	f := newFleet()
	f.sm.AddServiceNodes("app/s/keep", "1")
	mc.Idle()
	steady("service nodes", 2, func() []interface{} { return []interface{}{f.sm} }, func(i int) {
		switch c.Get("what") {
		case 0:
			f.sm.AddServiceNodes("app/s/n", "2")
			mc.Idle()
			_, err := f.sm.ClientBy("s")
			mc.Assert(err == nil, "lookup: %v", err)
			f.sm.DeleteServiceNodes("app/s/n")
		case 1: // a service of its own
			f.sm.AddServiceNodes("app/t/n", "1")
			mc.Idle()
			_, err := f.sm.ClientBy("t")
			mc.Assert(err == nil, "lookup: %v", err)
			f.sm.DeleteServiceNodes("app/t/n")
		case 2: // registered again
			f.sm.AddServiceNodes("app/s/keep", "1")
		case 3: // never reachable
			mc.Sync()
			f.down["n"] = true
			f.sm.AddServiceNodes("app/s/n", "1")
			time.Sleep(3 * time.Second)
			f.sm.DeleteServiceNodes("app/s/n")
			time.Sleep(10 * time.Second)
		}
		mc.Idle()
	})
}

func c30Restart(c *mc.Config) {
	begin()
	w := &world{}
	h := newHandler(c, "cli")
	cli, err := arpc.NewClient(w.dial, h)
	mc.Assert(err == nil, "dial: %v", err)
	steady("restart", 2, func() []interface{} { return []interface{}{cli, h} }, func(i int) {
		mc.Idle()
		g := newGroup()
		switch c.Get("what") {
		case 0:
		case 1:
			g.run(func() { cli.Call("/hold", "q", nil, hour) })
		case 2:
			g.run(func() { cli.CallAsync("/hold", "q", func(*arpc.Context, error) {}, hour) })
		case 3:
			s := cli.NewStream("/hold")
			g.run(func() { s.Send("q"); s.Recv(new(string)) })
		}
		mc.Idle()
		cli.Stop()
		g.wait()
		mc.Idle()
		mc.Assert(cli.Restart() == nil, "restart")
		mc.Idle()
		usable(cli, "restarted")
	})
}

func c30Bridge(c *mc.Config) {
	begin()
	h := c25Handler(c)
	f := arpchttp.Handler(h, codec.DefaultCodec)
	steady("bridge", 2, func() []interface{} { return []interface{}{h} }, func(i int) {
		for _, fr := range []*frame{{cmd: 1, method: "/echo", seq: 3, data: "x"}, {cmd: 1, method: "/none", seq: 3}, {cmd: 3, method: "/echo"}, {cmd: 1, method: "/panic", seq: 1}, {cmd: 4}, {cmd: 2, seq: 9, method: "/x"}} {
			webPost(f, fr.bytes())
		}
		webPost(f, nil)
		webPost(f, []byte{1, 2, 3})
	})
}

// Operations waiting when their client is stopped: nothing is left.
func c30Stop(c *mc.Config) {
	e := newC29End(c, func(h arpc.Handler) { h.SetSendQueueSize(2) })
	cli := e.cli
	if c.Get("full") == 1 {
		if c.Get("async") == 0 {
			return
		}
		e.b.SetLimit(1)
		for i := 0; i < 3; i++ {
			cli.Notify("/m", "fill", arpc.TimeZero)
			mc.Idle()
		}
	}
	g := newGroup()
	accepted := 0
	for i := 0; i < 2; i++ {
		switch c.Get("what") {
		case 0:
			g.run(func() { cli.Call("/m", "q", nil, hour) })
		case 1:
			g.run(func() {
				err := cli.CallAsync("/m", "q", func(*arpc.Context, error) {}, hour)
				mc.Sync()
				if err == nil {
					accepted++
				}
			})
		case 2:
			g.run(func() { cli.CallContext(background(), "/m", "q", nil) })
		case 3:
			g.run(func() { cli.Notify("/m", "q", hour) })
		case 4:
			g.run(func() { cli.PushMsg(cli.NewMessage(arpc.CmdNotify, "/m", "q"), hour) })
		case 5:
			g.run(func() { s := cli.NewStream("/s"); s.Send("x"); s.Recv(new(string)) })
		case 6:
			g.run(func() { cli.NotifyContext(background(), "/m", "q") })
		}
	}
	mc.Yield()
	cli.Stop()
	g.wait()
	mc.Idle()
	mc.Sync()
	// a callback accepted on an accepted client runs at its timeout at the latest
	if c.Get("side") == 1 {
		accepted = 0
	}
	mc.Assert(mc.PendingTimers() <= accepted, "stopped: %d timers pending", mc.PendingTimers())
	want := 0
	if e.r != nil {
		want = 1 // serving
	}
	mc.Assert(mc.Live() == want, "stopped: goroutines left: %s", mc.LiveDesc())
}
