package scen

import (
	"errors"
	"net"
	"strings"
	"time"

	"github.com/lesismal/arpc"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

// C29: read and write timeouts and the transmission hooks.

const (
	c29T  = 10 * time.Second
	c29ms = time.Millisecond
)

func init() {
	reg("C29", "read", c29Read, func(th bool) []mc.Config {
		n := 3
		if th {
			n = 4
		}
		return bound(cat(
			orders(cross("", "n", []int{n}, "side", i01, "brecv", i01, "rt", []int{1}), 0, 1),
			orders(cross("", "n", []int{n - 1}, "side", i01, "brecv", i01, "rt", []int{1}, "wt", i01, "str", []int{1}), 0, 1),
			orders(cross("", "n", []int{2}, "side", i01, "brecv", i01, "rt", []int{0}), 0, 1)), 0, 0, th)
	})
	reg("C29", "read-sched", c29Read, func(th bool) []mc.Config {
		return bound(orders(cross("", "n", []int{2}, "side", i01, "brecv", i01, "rt", i01), 0, 1), 1, 2, th)
	})
	reg("C29", "waiting", c29Waiting, func(th bool) []mc.Config {
		return bound(orders(cross("", "kind", []int{kCall, kCtx}, "side", i01, "async", i01, "live", i01), 0, 1), 2, 3, th)
	})
	reg("C29", "write", c29Write, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "bsend", i01, "side", i01, "kind", rangeInts(9), "end", []int{0, 1, 2, 3}, "big", i01), 0, 1), 1, 2, th)
	})
	reg("C29", "queued", c29Queued, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", []int{1}, "bsend", i01, "side", i01, "n", []int{2, 3, 5}, "kind", []int{0, 3, 4}, "end", i01, "big", i01), 0, 1), 1, 2, th)
	})
	reg("C29", "keepalive", c29Keepalive, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "use", i01, "read", i01, "write", i01), 0, 1), 1, 2, th)
	})
	reg("C29", "direct", c29Direct, func(th bool) []mc.Config {
		return bound(orders(cross("", "n", i01, "end", i01, "hook", i01), 0, 1), 2, 3, th)
	})
	reg("C29", "hooks", c29Hooks, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "bsend", i01, "side", i01, "send", rangeInts(4), "recv", rangeInts(4)), 0, 1), 1, 2, th)
	})
}

// c29End is a real client with a scripted peer: accepted by a server (side 0)
// or dialing (side 1).
type c29End struct {
	c     *mc.Config
	h     arpc.Handler
	r     *rig
	cli   *arpc.Client
	b, b2 *mc.Conn
	ended *cnt
}

func newC29End(c *mc.Config, set func(h arpc.Handler)) *c29End {
	e := &c29End{c: c, ended: &cnt{}}
	if c.Get("side") == 0 {
		e.r = newRig(c)
		e.h = e.r.srv.Handler
		set(e.h)
		e.h.HandleConnected(func(x *arpc.Client) { mc.Sync(); e.cli = x })
		e.h.HandleDisconnected(func(*arpc.Client) { e.ended.inc() })
		e.r.up()
		e.b = e.r.raw()
		mc.Idle()
		mc.Sync()
		return e
	}
	begin()
	e.h = newHandler(c, "cli")
	set(e.h)
	a2, b2 := mc.Pipe("p2", mc.NetConfig{})
	e.b2 = b2
	e.cli, e.b = scripted(c, e.h, a2)
	mc.Idle()
	return e
}

// up asserts that the connection is up.
func (e *c29End) up(what string) {
	mc.Idle()
	mc.Assert(!e.b.Peer().IsClosed() && e.ended.get() == 0, "%s: the connection was ended after %v", what, mc.Elapsed())
}

// down asserts that the connection has been ended; a dialing client is usable again.
func (e *c29End) down(what string) {
	mc.Idle()
	mc.Assert(e.b.Peer().IsClosed(), "%s: the connection is still up after %v", what, mc.Elapsed())
	if e.r != nil {
		mc.Assert(e.ended.get() == 1, "%s: disconnected callback ran %d times", what, e.ended.get())
		return
	}
	e.b2.SetLimit(0)
	go answer(e.b2)
	usable(e.cli, what)
	e.cli.Stop()
}

func (e *c29End) write(f *frame) { e.b.Write(f.bytes()) }

func c29Read(c *mc.Config) {
	busy := false
	got := &cnt{}
	e := newC29End(c, func(h arpc.Handler) {
		if c.Get("rt") == 1 {
			h.SetReadTimeout(c29T)
		}
		if c.Get("wt") == 1 {
			h.SetWriteTimeout(c29T / 3)
		}
		h.HandleStream("/s", func(s *arpc.Stream) {
			for s.Recv(new(string)) == nil {
			}
		})
		h.Handle("/n", func(*arpc.Context) { got.inc() })
		h.Handle("/r", func(ctx *arpc.Context) { got.inc(); ctx.Write("x") })
		h.Handle("/long", func(*arpc.Context) {
			mc.Sync()
			busy = true
			got.inc()
			time.Sleep(3 * c29T)
			mc.Sync()
			busy = false
		}, false)
	})
	if c.Get("str") == 1 {
		// an open stream of each side
		e.cli.NewStream("/t").Send("x")
		e.write(&frame{cmd: 6 | 0x80, method: "/s", seq: 1 << 20, data: "x"})
		mc.Idle()
	}
	n := c.Get("n")
	want := 0
	late := false
	hist := ""
	gap := time.Duration(0) // since the end started to wait for its next message
	step := func(d time.Duration) {
		gap += d
		if c.Get("rt") == 1 && gap > c29T {
			late = true
			time.Sleep(d - (gap - c29T) - c29ms)
			e.up(hist + ": within the read timeout")
			time.Sleep(2 * c29ms)
			e.down(hist + ": read timeout")
			return
		}
		time.Sleep(d)
		e.up(hist + ": within the read timeout")
	}
	nf := &frame{cmd: 3, method: "/n", data: "abcdef"}
	for i := 0; i < n && !late; i++ {
		k := mc.Choose(12)
		hist += itoa(k)
		switch k {
		case 0: // a notification
			step(c29T / 2)
			e.write(nf)
			want++
			gap = 0
		case 1: // a ping at the last moment
			step(c29T - c29ms)
			e.write(&frame{cmd: 4})
			gap = 0
		case 2: // a message in pieces, in time
			p := nf.bytes()
			step(c29T / 2)
			e.b.Write(p[:5])
			step(c29T / 4)
			e.b.Write(p[5:20])
			step(c29T/4 - c29ms)
			e.b.Write(p[20:])
			want++
			gap = 0
		case 3: // the rest of the header does not come in time
			p := nf.bytes()
			step(c29T - c29ms)
			e.b.Write(p[:15])
			step(c29T)
			if !late {
				e.b.Write(p[15:])
				want++
				gap = 0
			}
		case 4: // the rest of the body does not come in time
			p := nf.bytes()
			step(c29T - c29ms)
			e.b.Write(p[:len(p)-1])
			step(c29T)
			if !late {
				e.b.Write(p[len(p)-1:])
				want++
				gap = 0
			}
		case 5: // nothing for too long
			step(2 * c29T)
		case 6: // a handler that takes longer than the timeout
			step(c29T / 2)
			e.write(&frame{cmd: 3, method: "/long"})
			want++
			time.Sleep(3*c29T - c29ms)
			e.up(hist + ": while handling")
			mc.Assert(busy, "handler not running")
			time.Sleep(c29ms)
			gap = 0
		case 7: // a request
			step(c29T / 2)
			e.write(&frame{cmd: 1, method: "/r", seq: uint64(100 + i)})
			want++
			gap = 0
		case 8: // an unsolicited response
			step(c29T / 2)
			e.write(&frame{cmd: 2, method: "/r", seq: 77})
			gap = 0
		case 9: // two messages at once
			step(c29T / 2)
			e.b.Write(append(nf.bytes(), (&frame{cmd: 5}).bytes()...))
			want++
			gap = 0
		case 10, 11: // a message and the beginning of the next, whose rest comes in time
			p := append(nf.bytes(), nf.bytes()...)
			cut := len(p)/2 + 3
			if k == 11 {
				cut = len(p) - 2
			}
			step(c29T / 2)
			if late {
				break
			}
			e.b.Write(p[:cut])
			want++
			mc.Idle()
			gap = 0
			step(c29T - c29ms)
			e.b.Write(p[cut:])
			want++
			gap = 0
		}
		mc.Idle()
	}
	mc.Assert(got.get() == want, "%s: %d messages handled, want %d", hist, got.get(), want)
	if late {
		return
	}
	if c.Get("rt") == 1 {
		step(3 * c29T)
		return
	}
	time.Sleep(1000 * c29T)
	e.up("no read timeout")
	e.write(nf)
	mc.Idle()
	mc.Assert(got.get() == want+1, "not served after a long silence")
}

// A waiting call ends with the connection at the read timeout, and is not
// disturbed as long as anything arrives in time.
func c29Waiting(c *mc.Config) {
	e := newC29End(c, func(h arpc.Handler) { h.SetReadTimeout(c29T) })
	res := &evs{}
	at := time.Duration(0)
	go func() {
		s, err := call(e.cli, c.Get("kind"), "/r", "q")
		mc.Sync()
		at = mc.Elapsed()
		res.add(s + "|" + errStr(err))
	}()
	f := mustFrame(e.b)
	mc.Assert(f.method == "/r", "request %+v", f)
	t0 := mc.Elapsed()
	if c.Get("live") == 0 {
		time.Sleep(c29T - c29ms)
		mc.Assert(len(res.all()) == 0, "call ended early: %s", res)
		time.Sleep(2 * c29ms)
		mc.Idle()
		l := res.all()
		mc.Assert(len(l) == 1 && l[0][0] == '|' && l[0] != "|nil", "call in a connection ended by the read timeout: %q", l)
		mc.Assert(at == t0+c29T, "call returned after %v", at)
		return
	}
	for i := 0; i < 5; i++ {
		time.Sleep(c29T / 2)
		e.write(&frame{cmd: 4})
	}
	time.Sleep(c29T / 2)
	mc.Assert(len(res.all()) == 0, "call ended early: %s", res)
	e.write(&frame{cmd: 2, method: "/r", flag: f.flag, seq: f.seq, data: "yes"})
	mc.Idle()
	mc.Assert(res.String() == "yes|nil", "call: %s", res)
}

// c29Send performs one transmission of the given kind on the end under test.
func (e *c29End) payload(i int) string {
	if e.c.Get("big") == 1 {
		return strings.Repeat("payload", 40) + itoa(i)
	}
	return "payload" + itoa(i)
}

func c29Send(e *c29End, kind int, i int) {
	cli := e.cli
	p := e.payload(i)
	switch kind {
	case 0:
		cli.Notify("/m", p, hour)
	case 1:
		cli.Call("/m", p, nil, hour)
	case 2:
		cli.CallAsync("/m", p, func(*arpc.Context, error) {}, hour)
	case 3:
		cli.PushMsg(cli.NewMessage(arpc.CmdNotify, "/m", p), hour)
	case 4:
		cli.NewStream("/m").Send(p)
	case 5: // a response
		e.b.Inject((&frame{cmd: 1, method: "/echo", seq: 9, data: p}).bytes())
	case 6:
		if e.r != nil {
			e.r.srv.Broadcast("/m", p)
		} else {
			cli.NotifyContext(background(), "/m", p)
		}
	case 7:
		cli.Ping()
	case 8: // a pong
		e.b.Inject((&frame{cmd: 4}).bytes())
	}
}

// end: 0 the peer reads at once; 1 it begins to read within the timeout; 2 it
// never reads; 3 no timeout is set and it reads much later.
func c29Write(c *mc.Config) {
	kind, end := c.Get("kind"), c.Get("end")
	e := newC29End(c, func(h arpc.Handler) {
		if end != 3 {
			h.SetWriteTimeout(c29T)
		}
		if c.Get("big") == 1 {
			h.SetReadTimeout(1000 * c29T)
		}
		h.Handle("/echo", func(ctx *arpc.Context) { ctx.Write(string(ctx.Body())) })
	})
	fs := &evs{}
	read := func() {
		for {
			f, err := readFrame(e.b)
			if err != nil {
				return
			}
			fs.add(itoa(int(f.cmd)&7) + ":" + f.method + ":" + f.data)
		}
	}
	// an earlier transmission, long ago
	g := newGroup()
	g.run(func() { c29Send(e, 0, 0) })
	mc.Idle()
	f := mustFrame(e.b)
	mc.Assert(f.data == e.payload(0), "first %+v", f)
	time.Sleep(5 * c29T)
	e.up("idle")
	e.b.SetLimit(8)
	if end == 0 {
		go read()
	}
	go c29Send(e, kind, 1)
	mc.Idle()
	switch end {
	case 0:
	case 1:
		time.Sleep(c29T - c29ms)
		e.up("write blocked for less than the timeout")
		go read()
	case 2:
		time.Sleep(c29T - c29ms)
		e.up("write blocked for less than the timeout")
		time.Sleep(2 * c29ms)
		if kind == 7 || kind == 8 {
			return // what happens to a ping or pong that is not taken is not stated
		}
		e.down("write timeout")
		return
	case 3:
		time.Sleep(100 * c29T)
		e.up("no write timeout")
		go read()
	}
	mc.Idle()
	want := []string{"3:/m:", "1:/m:", "1:/m:", "3:/m:", "6:/m:", "2:/echo:", "3:/m:", "4::", "5::"}[kind]
	if kind < 7 {
		want += e.payload(1)
	}
	mc.Assert(fs.String() == want, "sent %q, the peer received %q", want, fs)
	time.Sleep(5 * c29T)
	e.up("after the transmission")
}

// Messages queued behind a slow one have the whole timeout to themselves.
func c29Queued(c *mc.Config) {
	e := newC29End(c, func(h arpc.Handler) { h.SetWriteTimeout(c29T) })
	n := c.Get("n")
	e.b.SetLimit(8)
	go c29Send(e, c.Get("kind"), 0)
	mc.Idle()
	for i := 1; i < n; i++ {
		c29Send(e, c.Get("kind"), i)
	}
	time.Sleep(c29T - c29ms)
	e.up("first write blocked for less than the timeout")
	f := mustFrame(e.b)
	mc.Assert(f.data == e.payload(0), "first %+v", f)
	mc.Idle()
	time.Sleep(c29T - c29ms)
	e.up("next write blocked for less than the timeout")
	if c.Get("end") == 0 {
		time.Sleep(2 * c29ms)
		e.down("write timeout")
		return
	}
	for i := 1; i < n; i++ {
		f := mustFrame(e.b)
		mc.Assert(f.data == e.payload(i), "frame %d: %+v", i, f)
	}
	time.Sleep(5 * c29T)
	e.up("after the transmissions")
}

// An idle connection with keep-alive pings shorter than the read timeouts of
// both ends stays up and usable for ever.
func c29Keepalive(c *mc.Config) {
	r := newRig(c)
	ended := &cnt{}
	r.srv.Handler.HandleDisconnected(func(*arpc.Client) { ended.inc() })
	r.srv.Handler.Handle("/e", func(ctx *arpc.Context) { ctx.Write(string(ctx.Body())) })
	h := newHandler(c, "cli")
	if c.Get("read") == 1 {
		h.SetReadTimeout(c29T)
	}
	r.srv.Handler.SetReadTimeout(c29T)
	if c.Get("write") == 1 {
		r.srv.Handler.SetWriteTimeout(c29T / 10)
		h.SetWriteTimeout(c29T / 10)
	}
	r.up()
	cli := r.client(h)
	h.HandleDisconnected(func(*arpc.Client) { ended.inc() })
	cli.Keepalive(c29T / 2)
	for i := 0; i < 3; i++ {
		if c.Get("use") == 1 {
			s, err := call(cli, kCall, "/e", "v"+itoa(i))
			mc.Assert(err == nil && s == "v"+itoa(i), "call %d: %q, %v", i, s, err)
		}
		time.Sleep(5*c29T + c29T/4)
		mc.Assert(ended.get() == 0 && cli.CheckState() == nil, "connection with keep-alive ended after %v of idleness", mc.Elapsed())
	}
	s, err := call(cli, kCall, "/e", "z")
	mc.Assert(err == nil && s == "z", "last call: %q, %v", s, err)
	cli.Stop()
}

var errHook = errors.New("hook refused")

// BeforeSend and BeforeRecv run before every transmission and every receive,
// with the connection; an error ends the connection and nothing more is sent.
func c29Hooks(c *mc.Config) {
	ks, kr := c.Get("send"), c.Get("recv")
	var ns, nr cnt
	var e *c29End
	handled := &cnt{}
	var conn0 net.Conn
	e = newC29End(c, func(h arpc.Handler) {
		h.BeforeSend(func(cn net.Conn) error {
			mc.Sync()
			if cn == conn0 && ns.inc() == ks {
				return errHook
			}
			return nil
		})
		h.BeforeRecv(func(cn net.Conn) error {
			mc.Sync()
			if conn0 == nil {
				conn0 = cn
			}
			if cn == conn0 && nr.inc() == kr {
				return errHook
			}
			return nil
		})
		h.Handle("/n", func(*arpc.Context) { handled.inc() })
	})
	if kr == 1 {
		// the first receive is refused
		e.down("first receive refused")
		return
	}
	mc.Sync()
	mc.Assert(conn0 == e.b.Peer(), "BeforeRecv got another connection")
	mc.Assert(nr.get() == 1, "BeforeRecv ran %d times before the first message", nr.get())
	// two notifications in, then transmissions out
	in, out := 0, 0
	for i := 0; i < 2; i++ {
		e.write(&frame{cmd: 3, method: "/n"})
		mc.Idle()
		in++
		mc.Assert(handled.get() == in && nr.get() == in+1, "%d notifications: %d handled, BeforeRecv ran %d times", in, handled.get(), nr.get())
		if kr == in+1 {
			e.down("receive refused")
			return
		}
	}
	for i := 1; i <= 3; i++ {
		err := e.cli.Notify("/m", "p"+itoa(i), hour)
		mc.Idle()
		fs, whole := parseAll(e.b.Unread())
		mc.Assert(whole, "partial transmission")
		mc.Assert(ns.get() >= i, "BeforeSend ran %d times for %d transmissions", ns.get(), i)
		if i == ks {
			mc.Assert(len(fs) == out, "refused by BeforeSend but sent: %+v", fs)
			if c.Get("async") == 0 {
				mc.Assert(err == errHook, "refused by BeforeSend: %v", err)
			}
			e.down("send refused")
			return
		}
		mc.Assert(err == nil, "notify: %v", err)
		out++
		mc.Assert(len(fs) == out && fs[out-1].data == "p"+itoa(i), "transmission %d: %d frames", i, len(fs))
		mc.Assert(ns.get() == i, "BeforeSend ran %d times for %d transmissions", ns.get(), i)
	}
	e.up("hooks")
}

// Send and SendN of a handler: the whole content or an error at the timeout.
func c29Direct(c *mc.Config) {
	begin()
	h := arpc.NewHandler()
	h.SetWriteTimeout(c29T)
	hooked := &cnt{}
	a, b := mc.Pipe("p", mc.NetConfig{BufLimit: 4})
	h.BeforeSend(func(cn net.Conn) error {
		hooked.inc()
		mc.Assert(cn == net.Conn(a), "BeforeSend got another connection")
		if c.Get("hook") == 1 {
			return errHook
		}
		return nil
	})
	var n int
	var err error
	done := false
	time.Sleep(c29T)
	go func() {
		if c.Get("n") == 1 {
			n, err = h.SendN(a, net.Buffers{[]byte("hello"), []byte("world"), nil, []byte("!")})
		} else {
			n, err = h.Send(a, []byte("helloworld!"))
		}
		mc.Sync()
		done = true
	}()
	mc.Idle()
	mc.Sync()
	mc.Assert(hooked.get() == 1, "BeforeSend ran %d times", hooked.get())
	if c.Get("hook") == 1 {
		mc.Assert(done && err == errHook && len(b.Unread()) == 0, "refused by the hook: %v, sent %q", err, b.Unread())
		return
	}
	time.Sleep(c29T - c29ms)
	mc.Sync()
	mc.Assert(!done, "ended early: %v", err)
	if c.Get("end") == 0 {
		time.Sleep(2 * c29ms)
		mc.Sync()
		mc.Assert(done && err != nil, "not ended by the write timeout")
		return
	}
	p := make([]byte, 11)
	for i := 0; i < 11; {
		k, e := b.Read(p[i:])
		mc.Assert(e == nil, "read %v", e)
		i += k
	}
	mc.Idle()
	mc.Sync()
	mc.Assert(done && err == nil && n == 11 && string(p) == "helloworld!", "sent %d, %v: %q", n, err, p)
}
