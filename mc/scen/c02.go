package scen

import (
	"context"
	"errors"
	"net"
	"strings"
	"time"

	"github.com/lesismal/arpc"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

func init() {
	reg("C02", "loss", c02Loss, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "side", i01, "cause", []int{0, 1, 2, 3, 4, 5}, "kind", []int{0, 1}), 0, 1), 2, 3, th)
	})
	reg("C02", "loss2", c02Loss, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "side", i01, "cause", []int{1, 3, 4}, "kind", []int{0}, "n", []int{2}, "bsend", i01), 2, 3, th)
	})
	reg("C02", "queue", c02Queue, func(th bool) []mc.Config {
		return bound(cross("", "queue", []int{0, 1}, "bsend", i01, "how", []int{0, 1, 2, 3, 4}), 2, 3, th)
	})
	reg("C02", "timeout", c02Timeout, func(th bool) []mc.Config {
		return bound(early(cross("", "async", i01, "how", []int{0, 1, 2, 3}, "side", i01)), 2, 3, th)
	})
	reg("C02", "args", c02Args, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "side", i01), 0, 1, th)
	})
	reg("C02", "state", c02State, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "st", []int{0, 1, 2}), 1, 2, th)
	})
}

// answer answers every request on a scripted connection.
func answer(b *mc.Conn) {
	for {
		f, err := readFrame(b)
		if err != nil {
			return
		}
		if f.cmd == 1 {
			b.Write((&frame{cmd: 2, method: f.method, seq: f.seq, flag: f.flag, data: "re:" + f.data}).bytes())
		}
	}
}

// endpoint makes a client of the given side (0: dialing, 1: accepted) whose
// peer is scripted. A dialing one gets a second connection, answered properly.
func endpoint(c *mc.Config, side int, h func(arpc.Handler)) (*arpc.Client, *mc.Conn) {
	return endpointNet(c, side, h, mc.NetConfig{})
}

func endpointNet(c *mc.Config, side int, h func(arpc.Handler), nc mc.NetConfig) (*arpc.Client, *mc.Conn) {
	if side == 0 {
		begin()
		a, b := mc.Pipe("p", nc)
		a2, b2 := mc.Pipe("p2", mc.NetConfig{})
		go answer(b2)
		hd := newHandler(c, "cli")
		hd.SetMaxReconnectTimes(1)
		if h != nil {
			h(hd)
		}
		cli, err := arpc.NewClient(pipeDialer(a, a2), hd)
		mc.Assert(err == nil, "dial: %v", err)
		return cli, b
	}
	r := newRigNet(c, nc)
	acc := make(chan *arpc.Client, 4)
	if h != nil {
		h(r.srv.Handler)
	}
	r.srv.Handler.HandleConnected(func(x *arpc.Client) { acc <- x })
	r.serve()
	b := r.raw()
	return <-acc, b
}

// the connection ends in some way while calls are made
func c02Loss(c *mc.Config) {
	cli, b := endpoint(c, c.Get("side"), nil)
	g := newGroup()
	n := c.Get("n")
	if n == 0 {
		n = 1
	}
	for i := 0; i < n; i++ {
		req := "q" + itoa(i)
		g.run(func() {
			rsp, err := call(cli, c.Get("kind"), "/m", req)
			mc.Assert(err != nil || rsp == "re:"+req, "call returned %q without an error", rsp)
			mc.Assert(mc.Elapsed() == 0, "call returned only after its timeout or some other delay: %v (%q, %v)", mc.Elapsed(), rsp, err)
			mc.Outcome("%q %v", rsp, err)
		})
	}
	switch c.Get("cause") {
	case 0:
		b.Close()
	case 1:
		readFrame(b)
		b.Close()
	case 2:
		f, err := readFrame(b)
		if err == nil {
			b.Write((&frame{cmd: 2, method: f.method, seq: f.seq, flag: f.flag, data: "re:" + f.data}).bytes())
		}
		b.Close()
	case 3:
		b.Cut()
	case 4:
		cli.Stop()
	case 5:
		readFrame(b)
		cli.Stop()
	}
	g.wait()
}

// a full send queue against a peer that does not read
func c02Queue(c *mc.Config) {
	begin()
	a, b := mc.Pipe("p", mc.NetConfig{BufLimit: 10})
	_ = b
	c.P["async"] = 1
	h := newHandler(c, "cli")
	h.SetMaxReconnectTimes(1)
	cli, err := arpc.NewClient(pipeDialer(a), h)
	mc.Assert(err == nil, "dial: %v", err)
	g := newGroup()
	for i := 0; i < 3; i++ {
		d := time.Duration(i+1) * time.Second
		how := c.Get("how")
		g.run(func() {
			var rsp string
			var err error
			switch {
			case how == 1 || how == 3:
				ctx, cancel := context.WithTimeout(context.Background(), d)
				err = cli.CallContext(ctx, "/m", "x", &rsp)
				cancel()
			default:
				err = cli.Call("/m", "x", &rsp, d)
			}
			if how < 2 {
				mc.Assert(err == arpc.ErrClientTimeout && mc.Elapsed() == d, "call with timeout %v returned %v at %v", d, err, mc.Elapsed())
			} else {
				mc.Assert(err != nil && (mc.Elapsed() == 0 || mc.Elapsed() == d && err == arpc.ErrClientTimeout),
					"call on a stopping client returned %v at %v", err, mc.Elapsed())
				if how != 4 {
					mc.Assert(mc.Elapsed() == 0, "call returned %v at %v although the client was stopped at 0", err, mc.Elapsed())
				}
			}
		})
	}
	switch c.Get("how") {
	case 2, 3:
		cli.Stop()
	case 4:
		b.Cut()
	}
	g.wait()
}

// a silent peer: timeouts and cancellation, exactly on time
func c02Timeout(c *mc.Config) {
	cli, b := endpoint(c, c.Get("side"), nil)
	ans := mc.Choose(2) == 1
	go func() {
		f, err := readFrame(b)
		if err == nil && ans {
			b.Write((&frame{cmd: 2, method: f.method, seq: f.seq, flag: f.flag, data: "re:" + f.data}).bytes())
		}
		for err == nil {
			_, err = readFrame(b)
		}
	}()
	var rsp string
	var err error
	d := time.Second
	switch c.Get("how") {
	case 0:
		err = cli.Call("/m", "x", &rsp, d)
	case 1:
		ctx, cancel := context.WithTimeout(context.Background(), d)
		err = cli.CallWith(ctx, "/m", "x", &rsp)
		cancel()
	case 2:
		ctx, cancel := context.WithCancel(context.Background())
		go func() {
			time.Sleep(d)
			cancel()
		}()
		err = cli.CallContext(ctx, "/m", "x", &rsp)
	case 3:
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		d = 0
		err = cli.CallContext(ctx, "/m", "x", &rsp)
	}
	if err == nil {
		mc.Assert(ans && rsp == "re:x", "got %q", rsp)
	} else {
		mc.Assert(err == arpc.ErrClientTimeout, "err %v", err)
		mc.Assert(mc.Elapsed() == d, "timeout after %v instead of %v", mc.Elapsed(), d)
		mc.Assert(!ans || c.Get("how") == 3 || mc.EarlyFired() > 0, "answered call timed out")
	}
	mc.Outcome("%v", err)
}

// argument errors, immediately and without sending anything
func c02Args(c *mc.Config) {
	cli, b := endpoint(c, c.Get("side"), nil)
	long := strings.Repeat("m", arpc.MaxMethodLen+1)
	var rsp string
	var err error
	var want error
	cb := func(*arpc.Context, error) { mc.Fail("callback of a refused call ran") }
	switch mc.Choose(14) {
	case 0:
		err = cli.Call("", "x", &rsp, hour)
	case 1:
		err = cli.Call(long, "x", &rsp, hour)
	case 2:
		err, want = cli.Call("/m", "x", &rsp, 0), arpc.ErrClientInvalidTimeoutZero
	case 3:
		err, want = cli.Call("/m", "x", &rsp, -1), arpc.ErrClientInvalidTimeoutLessThanZero
	case 4:
		err = cli.CallContext(background(), "", "x", &rsp)
	case 5:
		err = cli.CallContext(background(), long, "x", &rsp)
	case 6:
		err = cli.CallAsync("", "x", cb, hour)
	case 7:
		err, want = cli.CallAsync("/m", "x", cb, 0), arpc.ErrClientInvalidTimeoutZero
	case 8:
		err, want = cli.CallAsync("/m", "x", cb, -1), arpc.ErrClientInvalidTimeoutLessThanZero
	case 9:
		err, want = cli.CallAsync("/m", "x", nil, hour), arpc.ErrClientInvalidAsyncHandler
	case 10:
		err = cli.Notify("", "x", hour)
	case 11:
		err, want = cli.Notify("/m", "x", -1), arpc.ErrClientInvalidTimeoutLessThanZero
	case 12:
		err = cli.NotifyContext(background(), long, "x")
	case 13: // the longest legal method is fine
		long = long[1:]
		go func() {
			f := mustFrame(b)
			mc.Assert(f.method == long, "method arrived as %q", f.method)
			b.Write((&frame{cmd: 2, method: f.method, seq: f.seq, data: "ok"}).bytes())
		}()
		err := cli.Call(long, "x", &rsp, hour)
		mc.Assert(err == nil && rsp == "ok", "call with a 127-byte method: %v", err)
		return
	}
	mc.Assert(err != nil && (want == nil || errors.Is(err, want)), "err = %v, want %v", err, want)
	mc.Assert(mc.Elapsed() == 0, "not immediate")
	mc.Idle()
	mc.Assert(len(b.Unread()) == 0, "a refused call sent % x", b.Unread())
	mc.Idle()
	mc.Assert(mc.Elapsed() == 0, "")
}

// calls on stopped and reconnecting clients
func c02State(c *mc.Config) {
	begin()
	a, b := mc.Pipe("p", mc.NetConfig{})
	h := newHandler(c, "cli")
	first := true
	gate := make(chan struct{})
	dialing := make(chan struct{}, 8)
	_ = b
	st := c.Get("st")
	cli, err := arpc.NewClient(func() (net.Conn, error) {
		if first {
			first = false
			return a, nil
		}
		dialing <- struct{}{}
		<-gate
		return nil, errors.New("refused")
	}, h)
	mc.Assert(err == nil, "dial: %v", err)
	want := arpc.ErrClientStopped
	switch st {
	case 0: // right after Stop
		cli.Stop()
	case 1: // quiescent after Stop
		cli.Stop()
		mc.Idle()
	case 2: // reconnecting
		b.Close()
		<-dialing
		want = arpc.ErrClientReconnecting
	}
	mc.Assert(cli.CheckState() == want, "CheckState = %v, want %v", cli.CheckState(), want)
	var rsp string
	cb := func(*arpc.Context, error) { mc.Fail("callback of a refused call ran") }
	switch mc.Choose(7) {
	case 0:
		err = cli.Call("/m", "x", &rsp, hour)
	case 1:
		err = cli.CallContext(background(), "/m", "x", &rsp)
	case 2:
		err = cli.CallAsync("/m", "x", cb, hour)
	case 3:
		err = cli.Notify("/m", "x", 0)
	case 4:
		err = cli.Notify("/m", "x", hour)
	case 5:
		err = cli.NotifyContext(background(), "/m", "x")
	case 6:
		err = cli.PushMsg(cli.NewMessage(arpc.CmdNotify, "/m", "x"), hour)
	}
	mc.Assert(err == want, "err = %v, want %v", err, want)
	mc.Assert(mc.Elapsed() == 0, "not immediate")
	mc.Idle()
	mc.Assert(len(a.Writes) == 0, "a refused operation sent % x", a.Writes)
}
