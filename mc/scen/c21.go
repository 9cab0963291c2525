package scen

import (
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/middleware/router"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

func init() {
	reg("C21", "order", c21Order, func(th bool) []mc.Config {
		n, m := 3, 4
		if th {
			n, m = 4, 5
		}
		return cat(
			bound(cross("", "async", i01, "brecv", i01, "n", []int{m}, "slow", i01, "side", i01), 1, 1, th),
			bound(orders(cross("", "async", i01, "brecv", i01, "n", []int{n}, "slow", i01, "side", i01), 0, 1), 2, 3, th),
			bound(orders(cross("", "async", []int{1}, "brecv", []int{1}, "n", []int{3}, "slow", i01, "exec", []int{1}, "side", i01), 0, 1), 2, 3, th),
		)
	})
	reg("C21", "blocked", c21Blocked, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "side", i01, "what", []int{0, 1, 2, 3, 4}, "exec", i01), 0, 1), 2, 3, th)
	})
	reg("C21", "callback", c21Callback, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "depth", []int{1, 2, 3}, "kind", []int{kCall, kCtx, kAsync}), 0, 1), 1, 2, th)
	})
	reg("C21", "panic", c21Panic, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "side", i01, "what", []int{0, 1, 2, 3, 4, 5, 6, 7}, "val", []int{0, 1, 2}), 0, 1), 1, 2, th)
	})
	reg("C21", "asyncpanic", c21AsyncPanic, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "why", []int{0, 1, 2, 3, 4}), 0, 1), 2, 3, th)
	})
	reg("C21", "ping", c21Ping, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "bsend", i01, "brecv", i01, "coder", i01, "side", i01), 0, 1), 1, 2, th)
	})
	reg("C21", "keepalive", c21Keepalive, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "end", []int{0, 1, 2}, "iv", i01), 0, 1), 1, 2, th)
	})
}

// peer of a raw end: handlers on an accepted (side 0) or dialing (side 1) client.
func c21End(c *mc.Config, set func(h arpc.Handler)) (*mc.Conn, func() *arpc.Client) {
	if c.Get("side") == 0 {
		r := newRig(c)
		if c.Get("exec") == 1 {
			r.srv.Handler.SetAsyncExecutor(c21Executor())
		}
		set(r.srv.Handler)
		var cli *arpc.Client
		r.srv.Handler.HandleConnected(func(x *arpc.Client) { mc.Sync(); cli = x })
		r.up()
		b := r.raw()
		mc.Idle()
		return b, func() *arpc.Client { mc.Sync(); return cli }
	}
	begin()
	h := newHandler(c, "cli")
	if c.Get("exec") == 1 {
		h.SetAsyncExecutor(c21Executor())
	}
	set(h)
	cli, b := scripted(c, h)
	return b, func() *arpc.Client { return cli }
}

// c21Executor runs every function in its own goroutine, as the default does.
func c21Executor() func(func()) {
	return func(f func()) {
		go func() {
			defer func() { recover() }()
			f()
		}()
	}
}

// one at a time, in the order of arrival
func c21Order(c *mc.Config) {
	n := c.Get("n")
	e := &evs{}
	busy := 0
	slow := c.Get("slow")
	sync := func(tag string) arpc.HandlerFunc {
		return func(ctx *arpc.Context) {
			mc.Sync()
			busy++
			mc.Assert(busy == 1, "two synchronous handlers of one connection run at once")
			e.add(tag + string(ctx.Body()))
			if slow == 1 {
				mc.Yield()
				time.Sleep(time.Millisecond)
			}
			mc.Sync()
			busy--
			if ctx.Message.Cmd() == arpc.CmdRequest {
				ctx.Write(ctx.Body())
			}
		}
	}
	inA := 0
	b, _ := c21End(c, func(h arpc.Handler) {
		h.Handle("/a", sync("a"), false)
		h.Handle("/b", sync("b"), false)
		h.HandleNotFound(sync("?"))
		h.Handle("/async", func(ctx *arpc.Context) {
			mc.Sync()
			inA++
			ctx.Write("async" + string(ctx.Body()))
		}, true)
	})
	want := ""
	nAsync, nReq := 0, 0
	for i := 0; i < n; i++ {
		x := mc.Choose(4)
		f := &frame{cmd: 1, seq: uint64(10 + i), data: itoa(i)}
		switch x {
		case 0:
			f.method = "/a"
			want += "a" + itoa(i) + " "
			nReq++
		case 1:
			f.method = "/b"
			f.cmd = 3
			want += "b" + itoa(i) + " "
		case 2:
			f.method = "/none"
			want += "?" + itoa(i) + " "
			nReq++
		case 3:
			f.method = "/async"
			nAsync++
		}
		b.Write(f.bytes())
	}
	mc.IdleAll()
	got := ""
	for _, x := range e.all() {
		got += x + " "
	}
	mc.Assert(got == want, "handled %q, arrived %q", got, want)
	mc.Assert(inA == nAsync, "%d of %d asynchronous requests were handled", inA, nAsync)
	fs, whole := parseAll(b.Unread())
	mc.Assert(whole && len(fs) == nReq+nAsync, "%d responses to %d requests", len(fs), nReq+nAsync)
	last := uint64(0)
	for _, f := range fs {
		if len(f.data) == 1 { // of a synchronous handler
			mc.Assert(f.seq > last, "synchronous responses out of order")
			last = f.seq
		}
	}
}

// an asynchronous handler that blocks delays nobody
func c21Blocked(c *mc.Config) {
	hold := newLatch()
	e := &evs{}
	b, get := c21End(c, func(h arpc.Handler) {
		h.SetAsyncResponse(true)
		block := func(ctx *arpc.Context) {
			e.add("in")
			hold.wait()
			ctx.Write("late")
		}
		switch c.Get("what") {
		case 0:
			h.Handle("/block", block, true)
		case 1:
			h.Handle("/block", block) // asynchronous by default setting
		case 2, 4:
			h.HandleStream("/block", func(s *arpc.Stream) {
				e.add("in")
				hold.wait()
			}, true)
		case 3:
			h.HandleStream("/block", func(s *arpc.Stream) {
				e.add("in")
				hold.wait()
			})
		}
		h.Handle("/sync", func(ctx *arpc.Context) { ctx.Write("s" + string(ctx.Body())) }, false)
		h.Handle("/async", func(ctx *arpc.Context) { ctx.Write("a" + string(ctx.Body())) }, true)
	})
	stream := c.Get("what") >= 2
	for i := 0; i < 2; i++ {
		f := &frame{cmd: 1, method: "/block", seq: uint64(1 + i), data: "x"}
		if stream {
			f.cmd = 6 | 0x80
			if c.Get("what") == 4 { // the first message is the last one
				f.cmd |= 0x40
			}
		}
		b.Write(f.bytes())
	}
	b.Write((&frame{cmd: 1, method: "/sync", seq: 5, data: "1"}).bytes())
	b.Write((&frame{cmd: 1, method: "/async", seq: 6, data: "2"}).bytes())
	b.Write((&frame{cmd: 1, method: "/none", seq: 7}).bytes())
	// a call of ours is answered meanwhile
	g := newGroup()
	g.run(func() {
		rsp := ""
		err := get().Call("/peer", "q", &rsp, hour)
		mc.Assert(err == nil && rsp == "r", "call while a handler blocks: %q %v", rsp, err)
		e.add("called")
	})
	found := map[uint64]string{}
	for i := 0; i < 4; i++ {
		f := mustFrame(b)
		if f.cmd == 1 {
			b.Write((&frame{cmd: 2, method: f.method, seq: f.seq, data: "r", flag: f.flag}).bytes())
			continue
		}
		found[f.seq] = f.data
	}
	g.wait()
	mc.Idle()
	mc.Assert(found[5] == "s1" && found[6] == "a2" && found[7] == arpc.ErrMethodNotFound.Error(), "while a handler blocks: %v", found)
	mc.Assert(e.count("in") == 2, "%d of 2 blocking handlers began", e.count("in"))
	mc.Assert(mc.Elapsed() == 0, "that took %v", mc.Elapsed())
	hold.fire()
	mc.Idle()
	if !stream {
		fs, whole := parseAll(b.Unread())
		mc.Assert(whole && len(fs) == 2 && fs[0].data == "late" && fs[1].data == "late" && fs[0].seq+fs[1].seq == 3, "late responses: %+v", fs)
	}
}

// handlers call back, to a depth
func c21Callback(c *mc.Config) {
	r := newRig(c)
	depth := c.Get("depth")
	e := &evs{}
	mk := func(who string) arpc.HandlerFunc {
		return func(ctx *arpc.Context) {
			d := len(ctx.Body())
			e.add(who + itoa(d))
			if d >= depth {
				ctx.Write(who + itoa(d))
				return
			}
			s, err := call(ctx.Client, c.Get("kind"), "/back", string(ctx.Body())+"x")
			mc.Assert(err == nil, "callback: %v", err)
			ctx.Write(who + itoa(d) + s)
		}
	}
	r.srv.Handler.Handle("/back", mk("s"), true)
	h := newHandler(c, "cli")
	h.Handle("/back", mk("c"), true)
	r.up()
	cli := r.client(h)
	g := newGroup()
	for i := 0; i < 2; i++ {
		g.run(func() {
			s, err := call(cli, c.Get("kind"), "/back", "")
			want := ""
			for d := 0; d <= depth; d++ {
				want += []string{"s", "c"}[d%2] + itoa(d)
			}
			mc.Assert(err == nil && s == want, "got %q %v, want %q", s, err, want)
		})
	}
	g.wait()
}

// a panic anywhere in the handling of a message ends nothing
func c21Panic(c *mc.Config) {
	boom := func() {
		switch c.Get("val") {
		case 0:
			panic("boom")
		case 1:
			var m map[string]int
			m["x"] = 1
		case 2:
			panic(error(nil))
		}
	}
	what := c.Get("what")
	e := &evs{}
	b, _ := c21End(c, func(h arpc.Handler) {
		if what == 6 {
			h.Use(router.Recover())
			h.Use(router.Logger())
		}
		if what == 2 || what == 3 {
			h.Use(func(ctx *arpc.Context) {
				if string(ctx.Body()) == "bad" {
					boom()
				}
			})
		}
		h.Handle("/m", func(ctx *arpc.Context) {
			e.add("m" + string(ctx.Body()))
			if string(ctx.Body()) == "bad" {
				boom()
			}
			ctx.Write("ok" + string(ctx.Body()))
		}, what == 1 || what == 3)
		h.HandleNotFound(func(ctx *arpc.Context) {
			if string(ctx.Body()) == "bad" {
				boom()
			}
			ctx.Write("nf" + string(ctx.Body()))
		})
		if what == 4 || what == 5 {
			h.HandleStream("/s", func(s *arpc.Stream) {
				e.add("stream")
				boom()
			}, what == 5)
		}
	})
	bad := &frame{cmd: 1, method: "/m", seq: 1, data: "bad"}
	switch what {
	case 4, 5:
		bad = &frame{cmd: 6 | 0x80, method: "/s", seq: 1, data: "bad"}
	case 7:
		bad.method = "/none"
	}
	b.Write((&frame{cmd: 1, method: "/m", seq: 2, data: "1"}).bytes())
	b.Write(bad.bytes())
	b.Write((&frame{cmd: 1, method: "/m", seq: 3, data: "2"}).bytes())
	bad.seq = 11
	b.Write(bad.bytes())
	b.Write((&frame{cmd: 1, method: "/none", seq: 4, data: "3"}).bytes())
	mc.IdleAll()
	mc.Assert(!b.Peer().IsClosed(), "a panic ended the connection")
	fs, whole := parseAll(b.Unread())
	mc.Assert(whole, "bytes % x", b.Unread())
	found := map[uint64]string{}
	for _, f := range fs {
		found[f.seq] += f.data
	}
	mc.Assert(len(fs) == 3 && found[2] == "ok1" && found[3] == "ok2" && found[4] == "nf3", "answers around a panic: %v", found)
	if what == 4 || what == 5 {
		mc.Assert(e.count("stream") == 2, "stream handlers: %v", e)
	}
}

// a panicking callback of an asynchronous call ends nothing
func c21AsyncPanic(c *mc.Config) {
	begin()
	a2, b2 := mc.Pipe("q", mc.NetConfig{})
	h := newHandler(c, "cli")
	cli, b := scripted(c, h, a2)
	e := &evs{}
	d := hour
	why := c.Get("why")
	if why == 1 {
		d = time.Second
	}
	for i := 0; i < 2; i++ {
		err := cli.CallAsync("/m", "x", func(ctx *arpc.Context, err error) {
			e.add("cb")
			panic("boom")
		}, d)
		mc.Assert(err == nil, "CallAsync: %v", err)
	}
	f1 := mustFrame(b)
	f2 := mustFrame(b)
	switch why {
	case 0:
		b.Write((&frame{cmd: 2, method: f2.method, seq: f2.seq, flag: f2.flag, data: "r"}).bytes())
		b.Write((&frame{cmd: 2, method: f1.method, seq: f1.seq, flag: f1.flag | 1, data: "r"}).bytes())
		mc.Idle()
	case 1:
		time.Sleep(2 * time.Second)
		mc.Idle()
	case 2:
		b.Close()
		b = b2
		mc.Idle()
	case 3:
		cli.Stop()
		mc.Idle()
	case 4:
		b.Cut()
		b = b2
		mc.Idle()
	}
	mc.Assert(e.count("cb") == 2, "%d of 2 callbacks ran", e.count("cb"))
	if why != 3 {
		go answer(b)
		usable(cli, "client after a panicking callback")
	}
}

type c21Coder struct{}

func (c21Coder) Encode(_ *arpc.Client, m *arpc.Message) *arpc.Message {
	for i := arpc.HeaderIndexBodyLenEnd; i < len(m.Buffer); i++ {
		m.Buffer[i] ^= 0x5a
	}
	return m
}
func (x c21Coder) Decode(c *arpc.Client, m *arpc.Message) *arpc.Message { return x.Encode(c, m) }

// pings are answered with pongs at every place between other messages
func c21Ping(c *mc.Config) {
	coder := c.Get("coder") == 1
	b, get := c21End(c, func(h arpc.Handler) {
		if coder {
			h.UseCoder(c21Coder{})
		}
		h.Handle("/m", func(ctx *arpc.Context) { ctx.Write("r" + string(ctx.Body())) }, false)
	})
	enc := func(p []byte) []byte {
		if coder {
			for i := 4; i < len(p); i++ {
				p[i] ^= 0x5a
			}
		}
		return p
	}
	pings := 0
	g := newGroup()
	g.run(func() {
		for i := 0; i < 3; i++ {
			switch mc.Choose(3) {
			case 0:
				b.Write((&frame{cmd: 4}).bytes())
				pings++
			case 1:
				b.Write((&frame{cmd: 5}).bytes()) // a pong is not answered
			case 2: // with whatever else in them
				b.Write((&frame{cmd: 4, seq: 9, method: "/m", data: "x"}).bytes())
				b.Write((&frame{cmd: 4, data: "payload"}).bytes())
				pings += 2
			}
			b.Write(enc((&frame{cmd: 1, method: "/m", seq: uint64(i + 1), data: itoa(i)}).bytes()))
		}
	})
	g.run(func() { get().Ping() })
	g.wait()
	mc.Idle()
	pong, ping, rsp := 0, 0, ""
	rd := &sliceReader{b.Unread()}
	for len(rd.b) > 0 {
		var hd [16]byte
		if len(rd.b) < 16 {
			mc.Fail("cut frame % x", rd.b)
		}
		copy(hd[:], rd.b)
		n := 16 + int(hd[0]) + int(hd[1])<<8
		if len(rd.b) < n {
			mc.Fail("cut frame % x", rd.b)
		}
		p := append([]byte{}, rd.b[:n]...)
		rd.b = rd.b[n:]
		if n == 16 && p[5] == 5 {
			pong++
			continue
		}
		if n == 16 && p[5] == 4 {
			ping++
			continue
		}
		f, err := readFrame(&sliceReader{enc(p)})
		mc.Assert(err == nil && f.cmd == 2, "frame %+v %v", f, err)
		rsp += f.data
	}
	mc.Assert(pong == pings, "%d pings were answered with %d pongs", pings, pong)
	mc.Assert(ping == 1, "%d pings were sent, not 1", ping)
	mc.Assert(rsp == "r0r1r2", "responses %q", rsp)
}

func c21Keepalive(c *mc.Config) {
	cli, b := scripted(c, nil)
	iv := time.Minute
	if c.Get("iv") == 0 {
		cli.Keepalive(0) // 30 s
		iv = 30 * time.Second
	} else {
		cli.Keepalive(iv)
	}
	time.Sleep(3*iv + iv/2)
	fs, whole := parseAll(b.Unread())
	mc.Assert(whole && len(fs) == 3, "%d pings in %v", len(fs), mc.Elapsed())
	for _, f := range fs {
		mc.Assert(f.cmd == 4 && f.method == "" && f.data == "" && f.seq == 0, "ping %+v", f)
	}
	switch c.Get("end") {
	case 0:
		cli.Stop()
	case 1:
		b.Close() // reconnecting for ever
	case 2:
	}
	time.Sleep(5 * iv)
	if c.Get("end") == 2 {
		go answer(b)
		usable(cli, "client")
	}
	cli.Stop()
	mc.IdleAll()
	mc.Assert(mc.Live() == 0 || c.Get("end") == 2, "goroutines left: %s", mc.LiveDesc())
}
