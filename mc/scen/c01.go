package scen

import (
	"context"
	"errors"
	"time"

	"github.com/lesismal/arpc"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

func init() {
	reg("C01", "calls", c01Calls, func(th bool) []mc.Config {
		n := []int{2}
		if th {
			n = []int{2, 3}
		}
		return cat(
			bound(cross("", "async", i01, "pool", i01, "route", []int{0, 1, 2, 4}, "n", n), 2, 3, th),
			bound(orders(cross("", "async", i01, "pool", i01, "route", []int{3}, "n", []int{3}), 0, 1), 1, 2, th),
		)
	})
	reg("C01", "bidir", c01Bidir, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "pool", i01, "kind", []int{0, 2}), 2, 3, th)
	})
	reg("C01", "scripted", c01Scripted, func(th bool) []mc.Config {
		m := []int{3}
		if th {
			m = []int{3, 4}
		}
		return bound(cross("", "async", i01, "k0", []int{0, 1, 2}, "k1", []int{0, 2}, "m", m), 1, 2, th)
	})
	reg("C01", "late", c01Late, func(th bool) []mc.Config {
		return bound(early(cross("", "async", i01, "pool", i01, "kind", []int{0, 1, 2})), 2, 3, th)
	})
	reg("C01", "reconnect", c01Reconnect, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "kind", []int{0, 2}), 2, 3, th)
	})
	reg("C01", "expired", c01Expired, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "pool", i01, "side", i01, "kind", []int{0, 1, 2, 3}), 0, 1), 1, 2, th)
	})
	reg("C01", "foreign", c01Foreign, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "kind", []int{0, 1, 2}, "pend", []int{1, 2}), 0, 0, th)
	})
	reg("C01", "tie", c01Tie, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "pool", i01, "kind", []int{0, 1, 2}), 0, 1), 2, 3, th)
	})
	reg("C01", "sizes", c01Sizes, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "pool", i01, "kind", []int{0, 1, 2, 3}, "err", i01, "route", i01), 0, 0, th)
	})
	reg("C01", "types", c01Types, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "pool", i01), 0, 1, th)
	})
}

// several concurrent calls of all kinds
func c01Calls(c *mc.Config) {
	r := newRig(c)
	rt := c.Get("route")
	for i, async := range []bool{true, false} {
		m := "/e" + itoa(i)
		a := async
		r.srv.Handler.Handle(m, func(ctx *arpc.Context) {
			s := string(ctx.Body())
			if s[0] == 'x' {
				ctx.Error("err:" + s)
				return
			}
			ctx.Write("re:" + s)
		}, a)
	}
	r.serve()
	cli := r.client(nil)
	g := newGroup()
	for i := 0; i < c.Get("n"); i++ {
		i := i
		g.run(func() {
			kind, m, req := kCall, "/e0", "q"+itoa(i)
			switch rt {
			case 1:
				kind = kAsync
			case 2:
				kind, m = []int{kCall, kAsync, kBytes}[i], []string{"/e0", "/e1", "/e0"}[i]
			case 3:
				kind, m = []int{kAsync, kCtx, kCall}[i], []string{"/e1", "/e0", "/e1"}[i]
				if i == 1 {
					req = "x1"
				}
			}
			if rt == 4 {
				// with attached values
				rsp, vals := "", map[interface{}]interface{}{"k": i}
				var err error
				switch i {
				case 0:
					err = cli.Call(m, req, &rsp, hour, vals)
				case 1:
					err = cli.CallContext(background(), m, req, &rsp, vals)
				default:
					ch := make(chan error, 2)
					err = cli.CallAsync(m, req, func(ctx *arpc.Context, err error) {
						if err == nil {
							rsp = string(ctx.Body())
						}
						ch <- err
					}, hour, vals)
					if err == nil {
						err = <-ch
					}
				}
				mc.Assert(err == nil && rsp == "re:"+req, "call %s got response %q %v", req, rsp, err)
				return
			}
			rsp, err := call(cli, kind, m, req)
			if req[0] == 'x' {
				mc.Assert(err != nil && err.Error() == "err:"+req, "call %s must fail with its own error, got %q %v", req, rsp, err)
				return
			}
			mc.Assert(err == nil, "call %s: %v", req, err)
			mc.Assert(rsp == "re:"+req, "call %s got response %q", req, rsp)
		})
	}
	g.wait()
}

// both ends call each other over one connection at the same time
func c01Bidir(c *mc.Config) {
	r := newRig(c)
	acc := make(chan *arpc.Client, 1)
	r.srv.Handler.HandleConnected(func(x *arpc.Client) { acc <- x })
	r.srv.Handler.Handle("/m", func(ctx *arpc.Context) { ctx.Write("srv:" + string(ctx.Body())) }, true)
	r.serve()
	h := newHandler(c, "cli")
	h.Handle("/m", func(ctx *arpc.Context) { ctx.Write("cli:" + string(ctx.Body())) }, true)
	cli := r.client(h)
	sc := <-acc
	g := newGroup()
	for i := 0; i < 2; i++ {
		i := i
		g.run(func() {
			who, pre, req := cli, "srv:", "a"+itoa(i)
			if i == 1 {
				who, pre, req = sc, "cli:", "b"+itoa(i)
			}
			rsp, err := call(who, c.Get("kind"), "/m", req)
			mc.Assert(err == nil && rsp == pre+req, "call %s on side %d: %q %v", req, i, rsp, err)
			rsp, err = call(who, kCall, "/m", req+"'")
			mc.Assert(err == nil && rsp == pre+req+"'", "second call %s on side %d: %q %v", req, i, rsp, err)
		})
	}
	g.wait()
}

// a scripted peer answers in every order, with duplicates, unsolicited
// responses and mismatched kinds
func c01Scripted(c *mc.Config) {
	h := newHandler(c, "cli")
	miss := &evs{}
	h.HandleSessionMiss(func(_ *arpc.Client, m *arpc.Message) { miss.add(string(m.Data())) })
	cli, b := scripted(c, h)
	type res struct {
		rsp string
		err error
	}
	var out [3]res
	g := newGroup()
	for i := 0; i < 2; i++ {
		i := i
		kind := c.Get("k" + itoa(i))
		g.run(func() {
			rsp, err := call(cli, kind, "/m", "q"+itoa(i))
			mc.Sync()
			out[i] = res{rsp, err}
		})
	}
	// the peer
	req := map[string]*frame{}
	for i := 0; i < 2; i++ {
		f := mustFrame(b)
		mc.Assert(f.cmd == 1 && f.method == "/m", "unexpected frame %+v", f)
		req[f.data] = f
	}
	mc.Assert(len(req) == 2, "the two requests are not both sent: %v", req)
	mc.Assert(req["q0"].seq != req["q1"].seq, "two calls in flight share one sequence number")
	want := map[string]string{}
	wantErr := map[string]bool{}
	var unclaimed []string
	m := c.Get("m")
	for j := 0; j < m; j++ {
		var f frame
		to := ""
		switch k := mc.Choose(5); k {
		case 0, 1:
			to = "q" + itoa(k)
			f = frame{cmd: 2, method: "/m", seq: req[to].seq, flag: req[to].flag}
		case 2: // error response
			to = "q0"
			f = frame{cmd: 2, method: "/m", seq: req[to].seq, flag: req[to].flag | 1}
		case 3: // unsolicited
			f = frame{cmd: 2, method: "/m", seq: 999}
		case 4: // wrong kind: sync <-> async
			f = frame{cmd: 2, method: "/m", seq: req["q1"].seq, flag: req["q1"].flag ^ 2}
		}
		f.data = "r" + itoa(j)
		if to != "" && want[to] == "" {
			want[to] = f.data
			wantErr[to] = f.flag&1 != 0
		} else {
			unclaimed = append(unclaimed, f.data)
		}
		b.Write(f.bytes())
	}
	// those not answered yet are answered at the end: nothing is wedged
	for i := 0; i < 2; i++ {
		q := "q" + itoa(i)
		if want[q] == "" {
			want[q] = "end" + itoa(i)
			b.Write((&frame{cmd: 2, method: "/m", seq: req[q].seq, flag: req[q].flag, data: want[q]}).bytes())
		}
	}
	g.wait()
	mc.Assert(mc.Elapsed() == 0, "calls that were answered waited for their timeout")
	for i := 0; i < 2; i++ {
		q := "q" + itoa(i)
		o := out[i]
		if wantErr[q] {
			mc.Assert(o.err != nil && o.err.Error() == want[q], "call %s: want error %q, got %q %v", q, want[q], o.rsp, o.err)
		} else {
			mc.Assert(o.err == nil && o.rsp == want[q], "call %s: want %q, got %q %v", q, want[q], o.rsp, o.err)
		}
	}
	mc.Idle()
	got := miss.all()
	mc.Assert(len(got) == len(unclaimed), "unclaimed responses %v, session misses %v", unclaimed, got)
	for i := range got {
		mc.Assert(got[i] == unclaimed[i], "unclaimed responses %v, session misses %v", unclaimed, got)
	}
	// the connection still works
	g.run(func() {
		rsp, err := call(cli, kCall, "/m", "probe")
		mc.Assert(err == nil && rsp == "ok", "probe: %q %v", rsp, err)
	})
	f := mustFrame(b)
	b.Write((&frame{cmd: 2, method: "/m", seq: f.seq, flag: f.flag, data: "ok"}).bytes())
	g.wait()
}

// a response racing with its call's timeout, then another call
func c01Late(c *mc.Config) {
	h := newHandler(c, "cli")
	miss := &evs{}
	h.HandleSessionMiss(func(_ *arpc.Client, m *arpc.Message) { miss.add(string(m.Data())) })
	cli, b := scripted(c, h)
	go func() {
		for {
			f, err := readFrame(b)
			if err != nil {
				return
			}
			b.Write((&frame{cmd: 2, method: "/m", seq: f.seq, flag: f.flag, data: "re:" + f.data}).bytes())
		}
	}()
	var rsp string
	var err error
	switch c.Get("kind") {
	case kCall:
		err = cli.Call("/m", "A", &rsp, time.Second)
	case kCtx:
		ctx, cancel := context.WithTimeout(context.Background(), time.Second)
		err = cli.CallContext(ctx, "/m", "A", &rsp)
		cancel()
	case kAsync:
		ch := make(chan error, 3)
		err = cli.CallAsync("/m", "A", func(ctx *arpc.Context, e error) {
			if e == nil {
				rsp = string(ctx.Body())
			}
			ch <- e
		}, time.Second)
		if err == nil {
			err = <-ch
		}
	}
	to := err != nil
	mc.Assert(!to && rsp == "re:A" || to && err.Error() == "timeout", "call A: %q %v", rsp, err)
	b2 := ""
	err = cli.Call("/m", "B", &b2, hour)
	mc.Assert(err == nil && b2 == "re:B" || mc.EarlyFired() > 0 && err == arpc.ErrClientTimeout, "call B: %q %v", b2, err)
	mc.Idle()
	got := miss.String()
	// A timed-out call's response is a miss if it was answered at all.
	want := []string{""}
	if to {
		want = append(want, "re:A")
	}
	if err != nil {
		want = append(want, "re:B")
		if to {
			want = append(want, "re:A re:B")
		}
	}
	ok := false
	for _, w := range want {
		ok = ok || got == w
	}
	mc.Assert(ok, "session misses %q, want one of %q (timeout=%v)", got, want, to)
	mc.Outcome("%v %v", to, got)
}

// timedCall makes a call that waits for at most a second.
func timedCall(cli *arpc.Client, kind int, req string) (rsp string, err error) {
	switch kind {
	case kCtx:
		ctx, cancel := context.WithTimeout(context.Background(), time.Second)
		err = cli.CallContext(ctx, "/m", req, &rsp)
		cancel()
	case kAsync:
		ch := make(chan error, 3)
		got := ""
		err = cli.CallAsync("/m", req, func(ctx *arpc.Context, e error) {
			if e == nil {
				got = string(ctx.Body())
			}
			ch <- e
		}, time.Second)
		if err == nil {
			err = <-ch
			rsp = got
		}
	case kBytes:
		var b []byte
		err = cli.Call("/m", req, &b, time.Second)
		rsp = string(b)
	default:
		err = cli.Call("/m", req, &rsp, time.Second)
	}
	return rsp, err
}

// the responses to calls that gave up are reported and claimed by no one
func c01Expired(c *mc.Config) {
	miss := &evs{}
	cli, b := endpoint(c, c.Get("side"), func(h arpc.Handler) {
		h.HandleSessionMiss(func(_ *arpc.Client, m *arpc.Message) { miss.add(string(m.Data())) })
	})
	rsp, err := timedCall(cli, c.Get("kind"), "A")
	mc.Assert(err != nil && err.Error() == "timeout" && rsp == "", "call A: %q %v", rsp, err)
	fa := mustFrame(b)
	mc.Assert(fa.data == "A", "frame %+v", fa)
	g := newGroup()
	g.run(func() {
		rsp, err := call(cli, c.Get("kind"), "/m", "B")
		mc.Assert(err == nil && rsp == "re:B", "call B: %q %v", rsp, err)
	})
	fb := mustFrame(b)
	for i := 0; i < 2; i++ {
		b.Write((&frame{cmd: 2, method: "/m", seq: fa.seq, flag: fa.flag, data: "late" + itoa(i)}).bytes())
	}
	b.Write((&frame{cmd: 2, method: "/m", seq: fb.seq, flag: fb.flag, data: "re:B"}).bytes())
	b.Write((&frame{cmd: 2, method: "/m", seq: fb.seq, flag: fb.flag, data: "again"}).bytes())
	g.wait()
	mc.Idle()
	mc.Assert(miss.String() == "late0 late1 again", "session misses %q", miss.String())
	mc.Assert(mc.Elapsed() == time.Second, "call B waited: %v", mc.Elapsed())
}

// responses whose sequence number differs from every pending one
func c01Foreign(c *mc.Config) {
	h := newHandler(c, "cli")
	miss := &evs{}
	h.HandleSessionMiss(func(_ *arpc.Client, m *arpc.Message) { miss.add(string(m.Data())) })
	cli, b := scripted(c, h)
	n := c.Get("pend")
	g := newGroup()
	for i := 0; i < n; i++ {
		i := i
		g.run(func() {
			rsp, err := call(cli, c.Get("kind"), "/m", "q"+itoa(i))
			mc.Assert(err == nil && rsp == "re:q"+itoa(i), "call q%d: %q %v", i, rsp, err)
		})
	}
	var fs []*frame
	own := map[uint64]bool{}
	for i := 0; i < n; i++ {
		f := mustFrame(b)
		fs = append(fs, f)
		own[f.seq] = true
	}
	f := fs[mc.Choose(n)]
	k := mc.Choose(68)
	seq := uint64(0)
	switch {
	case k < 64:
		seq = f.seq ^ 1<<uint(k)
	case k == 64:
		seq = f.seq + 1
	case k == 65:
		seq = f.seq - 1
	case k == 66:
		seq = ^uint64(0)
	}
	want := ""
	if !own[seq] {
		want = "foreign"
		b.Write((&frame{cmd: 2, method: "/m", seq: seq, flag: f.flag, data: "foreign"}).bytes())
		mc.Idle()
	}
	for _, f := range fs {
		b.Write((&frame{cmd: 2, method: "/m", seq: f.seq, flag: f.flag, data: "re:" + f.data}).bytes())
	}
	g.wait()
	mc.Idle()
	mc.Assert(miss.String() == want, "session misses %q, want %q", miss.String(), want)
	mc.Assert(mc.Elapsed() == 0, "an answered call waited")
}

// the response arrives at the very moment of the timeout
func c01Tie(c *mc.Config) {
	h := newHandler(c, "cli")
	miss := &evs{}
	h.HandleSessionMiss(func(_ *arpc.Client, m *arpc.Message) { miss.add(string(m.Data())) })
	cli, b := scripted(c, h)
	go func() {
		f := mustFrame(b)
		time.Sleep(time.Second)
		b.Write((&frame{cmd: 2, method: "/m", seq: f.seq, flag: f.flag, data: "re:A"}).bytes())
		f = mustFrame(b)
		b.Write((&frame{cmd: 2, method: "/m", seq: f.seq, flag: f.flag, data: "re:B"}).bytes())
	}()
	rsp, err := timedCall(cli, c.Get("kind"), "A")
	mc.Assert(err == nil && rsp == "re:A" || err != nil && err.Error() == "timeout" && rsp == "", "call A: %q %v", rsp, err)
	r2, e2 := call(cli, c.Get("kind"), "/m", "B")
	mc.Assert(e2 == nil && r2 == "re:B", "call B: %q %v", r2, e2)
	mc.Idle()
	mc.Assert(miss.String() == "" || err != nil && miss.String() == "re:A", "session misses %q (call A: %v)", miss.String(), err)
}

// payloads and error texts of all kinds of sizes; what a call returned stays
// as it is whatever is called later
func c01Sizes(c *mc.Config) {
	r := newRig(c)
	isErr := c.Get("err") == 1
	r.srv.Handler.Handle("/m", func(ctx *arpc.Context) {
		s := append([]byte{}, ctx.Body()...)
		for i := range s {
			s[i] ^= 1
		}
		if isErr {
			ctx.Error(string(s))
			return
		}
		ctx.Write(s)
	}, c.Get("route") == 1)
	r.serve()
	cli := r.client(nil)
	lens := []int{1, 2, 14, 15, 16, 46, 47, 48, 62, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 2048, 4096, 8192, 65536, 70000}
	n := lens[mc.Choose(len(lens))]
	mk := func(j int) (string, string) {
		p, q := make([]byte, n), make([]byte, n)
		for i := range p {
			p[i] = byte(i*7+j*31) | 2
			q[i] = p[i] ^ 1
		}
		return string(p), string(q)
	}
	kind := c.Get("kind")
	var outs [3][]byte
	var errs [3]error
	for j := 0; j < 3; j++ {
		p, _ := mk(j)
		if kind == kBytes {
			errs[j] = cli.Call("/m", p, &outs[j], hour)
		} else {
			var s string
			s, errs[j] = call(cli, kind, "/m", p)
			outs[j] = []byte(s)
		}
	}
	for j := 0; j < 3; j++ {
		_, q := mk(j)
		if isErr {
			mc.Assert(errs[j] != nil && errs[j].Error() == q, "error text of length %d came as %.40q (length %d)", n, errStr(errs[j]), len(errStr(errs[j])))
		} else {
			mc.Assert(errs[j] == nil && string(outs[j]) == q, "payload of length %d came as length %d or with other content: %v", n, len(outs[j]), errs[j])
		}
	}
}

// a stale response on a new connection
func c01Reconnect(c *mc.Config) {
	h := newHandler(c, "cli")
	miss := &evs{}
	h.HandleSessionMiss(func(_ *arpc.Client, m *arpc.Message) { miss.add(string(m.Data())) })
	a2, b2 := mc.Pipe("p2", mc.NetConfig{})
	up := make(chan int, 4)
	h.HandleConnected(func(*arpc.Client) { up <- 1 })
	cli, b := scripted(c, h, a2)
	<-up
	g := newGroup()
	g.run(func() {
		rsp, err := call(cli, c.Get("kind"), "/m", "A")
		mc.Assert(err != nil && (errors.Is(err, arpc.ErrClientReconnecting) || err.Error() != ""), "call A over the lost connection: %q %v", rsp, err)
	})
	fa := mustFrame(b)
	b.Close()
	<-up
	g.run(func() {
		rsp, err := call(cli, c.Get("kind"), "/m", "B")
		mc.Assert(err == nil && rsp == "re:B", "call B over the new connection: %q %v", rsp, err)
	})
	fb := mustFrame(b2)
	mc.Assert(fb.data == "B", "unexpected frame on the new connection: %+v", fb)
	b2.Write((&frame{cmd: 2, method: "/m", seq: fa.seq, flag: fa.flag, data: "stale"}).bytes())
	b2.Write((&frame{cmd: 2, method: "/m", seq: fb.seq, flag: fb.flag, data: "re:B"}).bytes())
	g.wait()
	mc.Idle()
	mc.Assert(miss.String() == "stale", "session misses: %q", miss.String())
	mc.Assert(mc.Elapsed() == 0, "a call waited for its timeout")
}

type obj1 struct {
	A string
	B []int
	C map[string]string
}

// all payload kinds in both directions
func c01Types(c *mc.Config) {
	r := newRig(c)
	vals := []interface{}{"", "s", []byte{0, 255}, obj1{"x", []int{1, 2}, map[string]string{"k": "v"}}, 42, nil}
	wire := []string{"", "s", "\x00\xff", `{"A":"x","B":[1,2],"C":{"k":"v"}}`, "42", ""}
	i := mc.Choose(len(vals))
	isErr := mc.Choose(3)
	r.srv.Handler.Handle("/v", func(ctx *arpc.Context) {
		mc.Assert(string(ctx.Body()) == wire[i], "request %v arrived as %q", vals[i], ctx.Body())
		switch isErr {
		case 0:
			ctx.Write(vals[i])
		case 1:
			ctx.Error(vals[i])
		case 2:
			ctx.Write(errors.New("E" + itoa(i)))
		}
	})
	r.serve()
	cli := r.client(nil)
	kind := mc.Choose(4)
	rsp, err := call(cli, kind, "/v", vals[i])
	switch {
	case isErr == 0 || isErr == 1 && vals[i] == nil:
		mc.Assert(err == nil && rsp == wire[i], "%v returned as %q %v", vals[i], rsp, err)
	case isErr == 1:
		mc.Assert(err != nil && err.Error() == wire[i], "error %v returned as %q %v", vals[i], rsp, err)
	default:
		mc.Assert(err != nil && err.Error() == "E"+itoa(i), "error returned as %q %v", rsp, err)
	}
	if i == 3 && isErr == 0 {
		var o obj1
		err := cli.Call("/v", vals[i], &o, hour)
		mc.Assert(err == nil && o.A == "x" && len(o.B) == 2 && o.B[1] == 2 && o.C["k"] == "v", "struct: %v %v", o, err)
	}
}
