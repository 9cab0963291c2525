package scen

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/middleware/coder/gzip"
	"github.com/lesismal/arpc/extension/pubsub"
	"github.com/lesismal/arpc/log"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

func init() {
	var pairs []int
	for a := 0; a < c13Ops; a++ {
		for b := a; b < c13Ops; b++ {
			pairs = append(pairs, a*16+b)
		}
	}
	var singles []int
	for a := 0; a < c13Ops; a++ {
		singles = append(singles, a)
	}
	reg("C13", "one", c13One, func(th bool) []mc.Config {
		return bound(orders(cat(
			cross("", "async", []int{0}, "op", singles, "big", i01, "reuse", i01),
			cross("", "async", []int{1}, "bsend", i01, "sendbuf", []int{0, 4096}, "op", singles, "big", i01, "reuse", i01),
		), 0, 1), 1, 2, th)
	})
	reg("C13", "pair", c13Pair, func(th bool) []mc.Config {
		return bound(cat(
			cross("", "async", []int{0}, "pair", pairs, "reuse", i01),
			cross("", "async", []int{1}, "bsend", i01, "sendbuf", []int{4096}, "pair", pairs, "reuse", i01),
		), 1, 2, th)
	})
	reg("C13", "faults", c13Faults, func(th bool) []mc.Config {
		return cat(
			bound(cross("", "async", i01, "bsend", i01, "op", singles, "fault", []int{0, 1, 2, 3, 4}, "reuse", []int{0}), 1, 2, th),
			early(bound(cross("", "async", i01, "op", []int{0, 1, 2}, "fault", []int{5}, "reuse", i01), 2, 3, th)),
		)
	})
	reg("C13", "overflow", c13Overflow, func(th bool) []mc.Config {
		return bound(cross("", "async", []int{1}, "bsend", i01, "sendbuf", []int{0, 4096}, "cb", i01, "end", []int{0, 1, 2}), 1, 2, th)
	})
	reg("C13", "broadcast", c13Broadcast, func(th bool) []mc.Config {
		return bound(cat(
			cross("", "async", []int{0}, "what", []int{0, 1, 2, 3}, "n", []int{1, 2}, "fault", []int{0, 1, 2}, "reuse", i01),
			cross("", "async", []int{1}, "bsend", i01, "what", []int{0, 1, 2, 3}, "n", []int{1, 2}, "fault", []int{0, 1, 2, 3}, "reuse", i01),
		), 1, 2, th)
	})
	reg("C13", "refs", c13Refs, func(th bool) []mc.Config {
		return bound(orders(cross("", "n", []int{1, 2, 3}, "reuse", i01, "late", i01), 0, 1), 3, 4, th)
	})
	reg("C13", "hostile", c13Hostile, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "what", []int{0, 1, 2, 3, 4, 5, 6, 7}), 1, 2, th)
	})
	reg("C13", "coders", c13Coders, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "bsend", i01, "sendbuf", []int{4096}, "op", []int{0, 2, 3, 7}, "reuse", i01), 1, 2, th)
	})
}

const (
	poison = 0xDD
	dirt   = 0xEE
)

// allocTracker is an allocator that hands out dirty buffers and watches their use.
// With reuse it gives a freed buffer to the next request that fits, otherwise
// freed buffers stay poisoned for good.
type allocTracker struct {
	reuse bool
	bufs  map[*byte]*tbuf
	list  []*tbuf
	free  []*tbuf
	wire  bool
}

type tbuf struct {
	b     []byte
	freed bool
}

func newAllocTracker(c *mc.Config) *allocTracker {
	begin()
	t := &allocTracker{bufs: map[*byte]*tbuf{}, reuse: c.Get("reuse") == 1, wire: true}
	arpc.DefaultAllocator = t
	c.P["pool"] = 1
	mc.PoolCheck = true
	mc.WriteHook = func(x *mc.Conn, b []byte) {
		mc.Sync()
		if t.wire {
			t.clean("bytes sent", b)
		}
	}
	log.SetLogger(&logTrap{t})
	return t
}

func (t *allocTracker) clean(what string, b []byte) {
	if bytes.Contains(b, []byte{poison, poison}) || bytes.Contains(b, []byte{dirt, dirt}) {
		if len(b) > 60 {
			b = b[:60]
		}
		mc.Fail("%s come from a buffer already given back or never filled: %q", what, b)
	}
}

func (t *allocTracker) find(b []byte) *tbuf {
	if cap(b) == 0 {
		return nil
	}
	return t.bufs[&b[:1][0]]
}

func (t *allocTracker) get(n, room int) []byte {
	if room < 1 {
		room = 1
	}
	if t.reuse {
		for i := len(t.free) - 1; i >= 0; i-- {
			if x := t.free[i]; cap(x.b) >= room {
				t.free = append(t.free[:i:i], t.free[i+1:]...)
				x.freed = false
				return x.b[:n]
			}
		}
	}
	x := &tbuf{b: bytes.Repeat([]byte{dirt}, room)}
	x.b = x.b[:room:room]
	t.bufs[&x.b[0]] = x
	t.list = append(t.list, x)
	return x.b[:n]
}

func (t *allocTracker) Malloc(n int) []byte {
	mc.Sync()
	return t.get(n, n)
}

func (t *allocTracker) Realloc(b []byte, n int) []byte {
	if n <= cap(b) {
		return b[:n]
	}
	r := t.Malloc(n)
	copy(r, b)
	t.Free(b)
	return r
}

// Append always moves.
func (t *allocTracker) Append(b []byte, more ...byte) []byte {
	mc.Sync()
	x := t.find(b)
	mc.Assert(x == nil || !x.freed, "append to a buffer already given back")
	n := len(b) + len(more)
	r := t.get(n, n+16)
	copy(r, b)
	copy(r[len(b):], more)
	t.Free(b)
	return r
}

func (t *allocTracker) AppendString(b []byte, more string) []byte {
	return t.Append(b, []byte(more)...)
}

func (t *allocTracker) Free(b []byte) {
	mc.Sync()
	x := t.find(b)
	if x == nil {
		return
	}
	mc.Assert(!x.freed, "a buffer of %d bytes was given back twice", cap(b))
	x.freed = true
	x.b = x.b[:cap(x.b)]
	for i := range x.b {
		x.b[i] = poison
	}
	t.free = append(t.free, x)
}

func (t *allocTracker) finish() {
	mc.Sync()
	for _, x := range t.list {
		if x.freed {
			for _, v := range x.b {
				mc.Assert(v == poison, "a buffer of %d bytes was written after it was given back", cap(x.b))
			}
		}
	}
}

// logTrap turns recovered panics and log lines made of freed memory into violations.
type logTrap struct{ t *allocTracker }

func (l *logTrap) SetLevel(int)                 {}
func (l *logTrap) Debug(string, ...interface{}) {}
func (l *logTrap) Info(string, ...interface{})  {}
func (l *logTrap) Warn(f string, a ...interface{}) {
	mc.Sync()
	l.t.clean("log arguments", []byte(fmt.Sprintf(f, a...)))
}
func (l *logTrap) Error(f string, a ...interface{}) {
	mc.Sync()
	m := fmt.Sprintf(f, a...)
	mc.Assert(!strings.HasPrefix(m, "runtime error:"), "recovered panic: %s", m)
	l.t.clean("log arguments", []byte(m))
}

const c13Ops = 12

// pooled is a pooled server and client with handlers on both sides.
type pooled struct {
	t        *allocTracker
	r        *rig
	cli      *arpc.Client
	h        arpc.Handler
	peer     *arpc.Client // server side
	notified *evs
	big      bool
}

func (p *pooled) pay(i int) string {
	s := fmt.Sprintf("payload%d.", i)
	if p.big {
		s += strings.Repeat(string(rune('a'+i)), 1200)
	}
	return s
}

func newPooled(c *mc.Config) *pooled {
	p := &pooled{t: newAllocTracker(c), notified: &evs{}, big: c.Get("big") == 1}
	p.r = newRigKeep(c, mc.NetConfig{})
	srv := p.r.srv.Handler
	echo := func(ctx *arpc.Context) {
		b := ctx.Body()
		p.t.clean("request body", b)
		mc.Yield()
		p.t.clean("request body", b)
		ctx.Write("re:" + string(b))
	}
	got := make(chan *arpc.Client, 1)
	srv.HandleConnected(func(x *arpc.Client) { got <- x })
	srv.Handle("/echo", echo, false)
	srv.Handle("/echoA", echo, true)
	srv.Handle("/bytes", func(ctx *arpc.Context) {
		b := append([]byte("re:"), ctx.Body()...)
		ctx.Write(b)
	}, false)
	srv.Handle("/err", func(ctx *arpc.Context) { ctx.Error("bad:" + string(ctx.Body())) }, true)
	srv.Handle("/back", func(ctx *arpc.Context) {
		rsp := ""
		err := ctx.Client.Call("/echo", "back:"+string(ctx.Body()), &rsp, hour)
		if err != nil {
			ctx.Error(err)
			return
		}
		ctx.Write(rsp)
	}, true)
	abort := func(ctx *arpc.Context) {
		ctx.Abort()
		echo(ctx)
		ctx.Next()
	}
	srv.Handle("/abort", abort, false)
	srv.Handle("/abortA", abort, true)
	note := func(ctx *arpc.Context) {
		p.t.clean("notification", ctx.Body())
		p.notified.add(string(ctx.Body()))
	}
	srv.Handle("/note", note, false)
	srv.Handle("/noteA", note, true)
	srv.HandleStream("/st", func(s *arpc.Stream) {
		k := 0
		for {
			m, err := recvKind(s, k%3)
			k++
			if err != nil {
				break
			}
			p.t.clean("stream message", []byte(m))
			if s.Send("re:"+m) != nil {
				break
			}
		}
		s.CloseSend()
	}, true)
	h := newHandler(c, "cli")
	h.Handle("/echo", echo, true)
	h.Handle("/note", note, false)
	p.h = h
	p.r.serve()
	p.cli = p.r.client(h)
	p.peer = <-got
	return p
}

// newRigKeep is newRigNet without resetting the logger and allocator.
func newRigKeep(c *mc.Config, n mc.NetConfig) *rig {
	return &rig{c: c, srv: newServer(c), ln: mc.NewListener("srv", n), served: make(chan error, 1)}
}

// op performs operation k; ok says that it must succeed.
func (p *pooled) op(k, i int, ok bool) {
	want := "re:" + p.pay(i)
	check := func(rsp string, err error) {
		if err == nil {
			mc.Assert(rsp == want, "operation %d: response %q, want %q", k, rsp, want)
		} else {
			p.t.clean("error", []byte(err.Error()))
			mc.Assert(!ok, "operation %d: %v", k, err)
		}
	}
	switch k {
	case 0:
		check(call(p.cli, kCall, "/echo", p.pay(i)))
	case 1:
		check(call(p.cli, kCtx, "/echoA", p.pay(i)))
	case 2:
		check(call(p.cli, kAsync, "/echo", p.pay(i)))
	case 3:
		check(call(p.cli, kBytes, "/bytes", p.pay(i)))
	case 4:
		_, err := call(p.cli, kCall, "/nowhere", p.pay(i))
		mc.Assert(err != nil && (!ok || err.Error() == arpc.ErrMethodNotFound.Error()), "unknown method: %v", err)
	case 5:
		_, err := call(p.cli, []int{kCall, kAsync}[i%2], "/err", p.pay(i))
		mc.Assert(err != nil && (!ok || err.Error() == "bad:"+p.pay(i)), "error response: %v", err)
	case 6:
		want = "re:back:" + p.pay(i)
		check(call(p.cli, kCall, "/back", p.pay(i)))
	case 7:
		s := p.cli.NewStream("/st")
		for j := 0; j < 2; j++ {
			if err := s.Send(p.pay(i)); err != nil {
				mc.Assert(!ok, "stream send: %v", err)
				s.CloseRecv()
				return
			}
			m, err := recvKind(s, 1+j)
			mc.Assert(err != nil && !ok || err == nil && m == want, "stream message %q %v, want %q", m, err, want)
			if err != nil {
				break
			}
		}
		s.CloseSendContext(background())
		m := ""
		err := s.Recv(&m)
		mc.Assert(err != nil, "stream: %q after the end", m)
	case 8:
		err := p.cli.Notify("/note", p.pay(i), hour)
		mc.Assert(err == nil || !ok, "notify: %v", err)
		err = p.cli.PushMsg(p.cli.NewMessage(arpc.CmdNotify, "/noteA", p.pay(i)), arpc.TimeForever)
		mc.Assert(err == nil || !ok, "push: %v", err)
		err = p.cli.NotifyContext(background(), "/nowhere", p.pay(i))
		mc.Assert(err == nil || !ok, "notify: %v", err)
	case 9:
		check(call(p.peer, []int{kCall, kCtx}[i%2], "/echo", p.pay(i)))
	case 11:
		check(call(p.cli, []int{kCall, kAsync}[i%2], []string{"/abort", "/abortA"}[i%2], p.pay(i)))
		check(call(p.cli, kCall, "/abortA", p.pay(i)))
	case 10:
		p.r.srv.Broadcast("/note", p.pay(i))
	}
}

func (p *pooled) end() {
	mc.Idle()
	for _, n := range p.notified.all() {
		mc.Assert(n == p.pay(0) || n == p.pay(1), "notification %q", n)
	}
	p.cli.Stop()
	p.r.srv.Stop()
	mc.Idle()
	p.t.finish()
}

func c13One(c *mc.Config) {
	p := newPooled(c)
	p.op(c.Get("op"), 0, true)
	p.op(c.Get("op"), 1, true)
	p.end()
}

func c13Pair(c *mc.Config) {
	p := newPooled(c)
	g := newGroup()
	g.run(func() { p.op(c.Get("pair")/16, 0, true) })
	p.op(c.Get("pair")%16, 1, true)
	g.wait()
	p.end()
}

func c13Faults(c *mc.Config) {
	p := newPooled(c)
	p.h.SetMaxReconnectTimes(1)
	g := newGroup()
	g.run(func() { p.op(c.Get("op"), 0, false) })
	if c.Get("fault") != 5 {
		g.run(func() { p.op(0, 1, false) })
	}
	end := p.r.ln.Conns[0]
	switch c.Get("fault") {
	case 0:
		end.Cut()
	case 1:
		end.Close()
	case 2:
		p.cli.Stop()
	case 3:
		p.peer.Stop()
	case 4:
		p.r.srv.Stop()
	case 5: // early timeouts: the configuration lets timers fire
	}
	g.wait()
	mc.IdleAll()
	p.end()
}

// a full send queue, with stalled peer
func c13Overflow(c *mc.Config) {
	t := newAllocTracker(c)
	h := newHandler(c, "cli")
	h.SetSendQueueSize(1)
	if c.Get("cb") == 1 {
		h.HandleOverstock(func(x *arpc.Client, m *arpc.Message) {
			t.clean("refused message", m.Buffer)
		})
		h.HandleMessageDropped(func(x *arpc.Client, m *arpc.Message) {
			t.clean("dropped message", m.Buffer)
		})
	}
	a, b := mc.Pipe("p", mc.NetConfig{BufLimit: 8})
	cli, err := arpc.NewClient(pipeDialer(a), h)
	mc.Assert(err == nil, "%v", err)
	h.SetMaxReconnectTimes(1)
	g := newGroup()
	for i := 0; i < 2; i++ {
		i := i
		g.run(func() {
			cli.Notify("/n", "note"+itoa(i), 0)
			cli.PushMsg(cli.NewMessage(arpc.CmdNotify, "/n", "push"), 0)
			cli.CallAsync("/n", "call", func(ctx *arpc.Context, err error) {}, hour)
			cli.Notify("/n", "late"+itoa(i), hour)
		})
	}
	switch c.Get("end") {
	case 0:
		g.run(func() {
			for i := 0; i < 2; i++ {
				if _, err := readFrame(b); err != nil {
					return
				}
			}
			b.Close()
		})
	case 1:
		g.run(func() { b.Close() })
	case 2:
		g.run(func() { cli.Stop() })
	}
	g.wait()
	mc.IdleAll()
	cli.Stop()
	mc.Idle()
	t.finish()
}

func c13Broadcast(c *mc.Config) {
	t := newAllocTracker(c)
	var psv *pubsub.Server
	var srv *arpc.Server
	what := c.Get("what")
	if what >= 2 {
		psv = pubsub.NewServer()
		psv.Password = "pw"
		srv = psv.Server
		setup(srv.Handler, c)
	} else {
		srv = newServer(c)
	}
	if c.Get("fault") == 3 {
		srv.Handler.SetSendQueueSize(1)
	}
	ln := mc.NewListener("srv", mc.NetConfig{})
	served := make(chan error, 1)
	go func() { served <- srv.Serve(ln) }()
	got := &evs{}
	var clis []*arpc.Client
	for i := 0; i < c.Get("n"); i++ {
		i := i
		h := newHandler(c, "cli")
		if what >= 2 {
			pc, err := pubsub.NewClient(dialer(ln), h)
			mc.Assert(err == nil, "%v", err)
			pc.Password = "pw"
			mc.Assert(pc.Authenticate() == nil, "authenticate")
			err = pc.Subscribe("topic", func(tp *pubsub.Topic) {
				t.clean("topic data", tp.Data)
				mc.Assert(string(tp.Data) == "news!", "client %d got %q", i, tp.Data)
				got.add(itoa(i))
			}, hour)
			mc.Assert(err == nil, "%v", err)
			clis = append(clis, pc.Client)
		} else {
			h.Handle("/b", func(ctx *arpc.Context) {
				mc.Assert(string(ctx.Body()) == "news!", "client %d got %q", i, ctx.Body())
				got.add(itoa(i))
			}, false)
			clis = append(clis, arpcClient(ln, h))
		}
	}
	mc.Idle()
	g := newGroup()
	send := func() {
		switch what {
		case 0:
			srv.Broadcast("/b", "news!")
		case 1:
			srv.BroadcastWithFilter("/b", "news!", func(*arpc.Client) bool { return true })
		case 2:
			psv.Publish("topic", "news!")
		case 3:
			psv.PublishToOne("topic", "news!")
		}
	}
	g.run(send)
	switch c.Get("fault") {
	case 0, 3:
		send()
	case 1:
		ln.Conns[0].Close()
	case 2:
		clis[0].Stop()
	}
	g.wait()
	mc.Idle()
	if c.Get("fault") == 0 {
		want := 2 * len(clis)
		if what == 3 {
			want = 2
		}
		mc.Assert(len(got.all()) == want, "delivered %v, want %d", got.all(), want)
	}
	for _, x := range clis {
		x.Stop()
	}
	srv.Stop()
	mc.Idle()
	t.finish()
}

func arpcClient(ln *mc.Listener, h arpc.Handler) *arpc.Client {
	cli, err := arpc.NewClient(dialer(ln), h)
	mc.Assert(err == nil, "%v", err)
	return cli
}

// malformed and unexpected input to a pooled endpoint
func c13Hostile(c *mc.Config) {
	p := newPooled(c)
	raw := p.r.raw()
	f := &frame{method: "/echo", seq: 7, data: "datadata"}
	var b []byte
	switch c.Get("what") {
	case 0: // unsolicited response
		f.cmd = 2
		b = f.bytes()
	case 1: // unsolicited asynchronous response
		f.cmd, f.flag = 2, 2
		b = f.bytes()
	case 2: // unknown stream
		f.cmd, f.method = 6|0x80, "/nostream"
		b = f.bytes()
	case 3: // request to an unknown method
		f.cmd, f.method = 1, "/nowhere"
		b = f.bytes()
	case 4: // bad method length
		f.cmd = 1
		b = f.bytes()
		b[7] = 200
	case 5: // truncated body
		f.cmd = 1
		b = f.bytes()
		b = b[:len(b)-3]
	case 6: // unknown command
		f.cmd = 15
		b = f.bytes()
	case 7: // stream traffic nobody reads, then close
		for i := 0; i < 3; i++ {
			b = append(b, (&frame{cmd: 6 | 0x80, method: "/st", seq: 9, data: "m"}).bytes()...)
		}
	}
	raw.Write(b)
	if c.Get("what") != 5 {
		raw.Write(b)
	}
	p.op(0, 1, true)
	raw.Close()
	p.end()
}

func c13Coders(c *mc.Config) {
	p := newPooled(c)
	p.t.wire = false
	p.big = true
	p.r.srv.Handler.UseCoder(gzip.New(64))
	p.h.UseCoder(gzip.New(64))
	g := newGroup()
	g.run(func() { p.op(c.Get("op"), 0, true) })
	p.op(c.Get("op"), 1, true)
	g.wait()
	p.end()
}

// the last of several holders of a message gives it back, and only that one
func c13Refs(c *mc.Config) {
	t := newAllocTracker(c)
	h := arpc.NewHandler()
	setup(h, c)
	h.EnablePool(true)
	n := c.Get("n")
	data := strings.Repeat("v", 40)
	m := h.NewMessage(3, "/m", data, false, false, 9, nil, nil)
	buf := t.find(m.Buffer)
	if c.Get("late") == 0 {
		for i := 0; i < n; i++ {
			m.Retain()
		}
	}
	g := newGroup()
	for i := 0; i < n; i++ {
		if c.Get("late") == 1 {
			// retained while others already release
			m.Retain()
		}
		g.run(func() {
			mc.Assert(!buf.freed, "a message that is still held was given back")
			mc.Assert(m.Method() == "/m" && string(m.Data()) == data, "a message that is still held has changed: %q", m.Buffer)
			m.Release()
		})
	}
	m.Release()
	g.wait()
	mc.Assert(buf.freed, "a message nobody holds any more was not given back")
	a := h.NewMessage(3, "/a", "1", false, false, 1, nil, nil)
	b := h.NewMessage(3, "/b", "2", false, false, 2, nil, nil)
	mc.Assert(a != b && string(a.Data()) == "1" && string(b.Data()) == "2", "the pool holds a message twice")
}
