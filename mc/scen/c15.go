package scen

import (
	"context"
	"time"

	"github.com/lesismal/arpc"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

func init() {
	reg("C15", "full", c15Full, func(th bool) []mc.Config {
		n := 4
		if th {
			n = 5
		}
		return bound(cross("", "async", []int{1}, "side", i01, "bsend", i01, "queue", []int{0, 1, 2}, "n", []int{n}), 0, 1, th)
	})
	reg("C15", "race", c15Race, func(th bool) []mc.Config {
		return bound(orders(early(cat(
			cross("", "async", []int{1}, "bsend", i01, "sendbuf", []int{4096}, "queue", []int{0, 1, 2}, "k1", []int{0, 1}, "k2", []int{3, 4, 5}),
			cross("", "async", []int{1}, "bsend", i01, "sendbuf", []int{4096}, "queue", []int{1}, "k1", []int{2, 6, 7}, "k2", []int{0, 5}),
		)), 0, 1), 2, 3, th)
	})
	reg("C15", "flow", c15Flow, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", []int{1}, "bsend", i01, "sendbuf", []int{0, 40, 4096}, "queue", []int{0, 1, 2}, "limit", []int{0, 7}), 0, 1), 2, 3, th)
	})
	reg("C15", "end", c15End, func(th bool) []mc.Config {
		return bound(cross("", "async", []int{1}, "side", i01, "bsend", i01, "queue", []int{0, 1}, "cause", []int{0, 1, 2}, "k", []int{1, 2, 4, 5, 6, 7}), 2, 3, th)
	})
	reg("C15", "reply", c15Reply, func(th bool) []mc.Config {
		return bound(cross("", "async", []int{1}, "bsend", i01, "sendbuf", []int{4096}, "queue", []int{0, 1}), 2, 3, th)
	})
}

const c15Wait = 10 * time.Second

// post sends a message with the given payload in one of eight ways.
func post(cli *arpc.Client, k int, data string) error {
	switch k {
	case 0:
		return cli.Notify("/n", data, 0)
	case 1:
		return cli.Notify("/n", data, c15Wait)
	case 2:
		ctx, cancel := context.WithTimeout(context.Background(), c15Wait)
		defer cancel()
		return cli.NotifyContext(ctx, "/n", data)
	case 3:
		return cli.PushMsg(cli.NewMessage(arpc.CmdNotify, "/n", data), 0)
	case 4:
		return cli.PushMsg(cli.NewMessage(arpc.CmdNotify, "/n", data), c15Wait)
	case 5:
		return cli.CallAsync("/n", data, func(*arpc.Context, error) {}, c15Wait)
	case 6:
		return cli.PushMsg(cli.NewMessage(arpc.CmdNotify, "/n", data), -1)
	case 7:
		return cli.NotifyWith(context.Background(), "/n", data)
	}
	return nil
}

func zeroWait(k int) bool { return k == 0 || k == 3 }
func bounded(k int) bool  { return k < 6 }

// watchOver counts overstock callbacks per payload.
func watchOver(over *evs) func(arpc.Handler) {
	return func(h arpc.Handler) {
		h.HandleOverstock(func(c *arpc.Client, m *arpc.Message) {
			mc.Assert(m.Method() == "/n", "overstock callback for %q", m.Method())
			over.add(string(m.Data()))
		})
	}
}

// settle checks one attempt against what arrived.
func settle(k int, data string, err error, took time.Duration, got, over *evs) {
	n, o := got.count(data), over.count(data)
	if err == nil {
		mc.Assert(n == 1, "%s (kind %d) was accepted and arrived %d times (got %v)", data, k, n, got)
		mc.Assert(o == 0, "%s (kind %d) was accepted but reported as overstock", data, k)
	} else {
		mc.Assert(n == 0, "%s (kind %d) was refused (%v) but arrived", data, k, err)
	}
	if zeroWait(k) {
		mc.Assert(took == 0, "a send with zero wait took %v", took)
		mc.Assert(err == nil || err == arpc.ErrClientOverstock || err == arpc.ErrClientStopped || err == arpc.ErrClientReconnecting, "a send with zero wait returned %v", err)
		if err == arpc.ErrClientOverstock {
			mc.Assert(o == 1, "%s: overstock callback ran %d times", data, o)
		} else {
			mc.Assert(o == 0, "%s: overstock callback ran for %v", data, err)
		}
	} else {
		mc.Assert(o == 0, "%s (kind %d): overstock callback ran for a send that waits", data, k)
		mc.Assert(err != arpc.ErrClientOverstock, "%s (kind %d): %v", data, k, err)
	}
	if bounded(k) {
		mc.Assert(took <= c15Wait, "%s (kind %d) took %v", data, k, took)
	}
}

func collect(b *mc.Conn, got *evs) {
	for {
		f, err := readFrame(b)
		if err != nil {
			return
		}
		got.add(f.data)
	}
}

// every sequence of sends against a peer that takes nothing, then resumes
func c15Full(c *mc.Config) {
	over, got := &evs{}, &evs{}
	cli, b := endpointNet(c, c.Get("side"), watchOver(over), mc.NetConfig{BufLimit: 1})
	mc.Idle()
	q := c.Get("queue")
	type att struct {
		k    int
		err  error
		took time.Duration
	}
	var as []att
	okN := 0
	var order []string
	for i := 0; i < c.Get("n"); i++ {
		k := mc.Choose(6)
		t0 := mc.Elapsed()
		err := post(cli, k, "d"+itoa(i))
		took := mc.Elapsed() - t0
		as = append(as, att{k, err, took})
		if err == nil {
			mc.Assert(took == 0, "d%d (kind %d) waited %v although there was room", i, k, took)
			okN++
			order = append(order, "d"+itoa(i))
		} else {
			// the queue must really be full
			mc.Assert(okN >= q, "d%d (kind %d) refused (%v) with %d messages accepted, queue size %d", i, k, err, okN, q)
			if zeroWait(k) {
				mc.Assert(err == arpc.ErrClientOverstock, "d%d (kind %d) refused with %v", i, k, err)
			} else {
				mc.Assert(err == arpc.ErrClientTimeout, "d%d (kind %d) refused with %v", i, k, err)
				mc.Assert(took == c15Wait, "d%d (kind %d) refused after %v", i, k, took)
			}
		}
		mc.Idle()
	}
	mc.Assert(okN <= 2*q+2, "%d messages accepted by a queue of size %d", okN, q)
	go collect(b, got)
	mc.Idle()
	for i, a := range as {
		settle(a.k, "d"+itoa(i), a.err, a.took, got, over)
	}
	l := got.all()
	mc.Assert(len(l) == len(order), "arrived %v, accepted %v", l, order)
	for i := range l {
		mc.Assert(l[i] == order[i], "arrived %v, accepted %v", l, order)
	}
	// there is room again
	for k := 0; k < 6; k++ {
		err := post(cli, k, "again"+itoa(k))
		mc.Idle()
		mc.Assert(err == nil && got.count("again"+itoa(k)) == 1, "after the queue was drained, kind %d: %v, %v", k, err, got)
	}
	mc.Outcome("%d", okN)
}

// two senders race for places in the queue while the peer resumes
func c15Race(c *mc.Config) {
	over, got := &evs{}, &evs{}
	cli, b := endpointNet(c, 0, watchOver(over), mc.NetConfig{BufLimit: 12})
	g := newGroup()
	ks := [2]int{c.Get("k1"), c.Get("k2")}
	var errs [2][2]error
	var took [2][2]time.Duration
	for s := 0; s < 2; s++ {
		s := s
		g.run(func() {
			for i := 0; i < 2; i++ {
				t0, e0 := mc.Elapsed(), mc.EarlyFired()
				errs[s][i] = post(cli, ks[s], "s"+itoa(s)+itoa(i))
				if mc.EarlyFired() == e0 { // else the clock was moved by force
					took[s][i] = mc.Elapsed() - t0
				}
			}
		})
	}
	go collect(b, got)
	g.wait()
	mc.Idle()
	for s := 0; s < 2; s++ {
		last := -1
		for i := 0; i < 2; i++ {
			settle(ks[s], "s"+itoa(s)+itoa(i), errs[s][i], took[s][i], got, over)
			for p, x := range got.all() {
				if x == "s"+itoa(s)+itoa(i) {
					mc.Assert(p > last, "sender %d: order %v", s, got)
					last = p
				}
			}
		}
	}
	mc.Outcome("%v %v", errs, got)
}

// sends that may wait are never refused while the peer keeps reading
func c15Flow(c *mc.Config) {
	over, got := &evs{}, &evs{}
	cli, b := endpointNet(c, 0, watchOver(over), mc.NetConfig{BufLimit: c.Get("limit")})
	go collect(b, got)
	g := newGroup()
	for s := 0; s < 2; s++ {
		s := s
		g.run(func() {
			for i, k := range [][]int{{1, 4, 6}, {5, 2, 7}}[s] {
				err := post(cli, k, "s"+itoa(s)+itoa(i))
				mc.Assert(err == nil, "kind %d refused although the peer keeps reading: %v", k, err)
			}
		})
	}
	g.wait()
	mc.Assert(mc.Elapsed() == 0, "sending waited %v although the peer keeps reading", mc.Elapsed())
	mc.Idle()
	for s := 0; s < 2; s++ {
		var p []string
		for _, x := range got.all() {
			if x[:2] == "s"+itoa(s) {
				p = append(p, x)
			}
		}
		mc.Assert(len(p) == 3 && p[0] == "s"+itoa(s)+"0" && p[1] == "s"+itoa(s)+"1" && p[2] == "s"+itoa(s)+"2", "arrived %v", got)
	}
	mc.Assert(len(over.all()) == 0, "overstock %v", over)
}

// senders waiting for room while the client stops or its connection is lost
func c15End(c *mc.Config) {
	over, got := &evs{}, &evs{}
	cli, b := endpointNet(c, c.Get("side"), watchOver(over), mc.NetConfig{BufLimit: 1})
	mc.Idle()
	// fill up
	n := 0
	for ; n < 6; n++ {
		if post(cli, 0, "f"+itoa(n)) != nil {
			break
		}
		mc.Idle()
	}
	mc.Assert(n < 6, "a queue of size %d took %d messages", c.Get("queue"), n)
	g := newGroup()
	k := c.Get("k")
	var errs [2]error
	for i := 0; i < 2; i++ {
		i := i
		g.run(func() {
			errs[i] = post(cli, k, "w"+itoa(i))
			mc.Assert(mc.Elapsed() == 0, "a send waiting for room returned only after %v (%v)", mc.Elapsed(), errs[i])
		})
	}
	switch c.Get("cause") {
	case 0:
		cli.Stop()
	case 1:
		b.Close()
	case 2:
		b.Cut()
	}
	g.wait() // a client that reconnects drains its queue meanwhile
	mc.Idle()
	go collect(b, got)
	mc.Idle()
	for i := range errs {
		d := "w" + itoa(i)
		mc.Assert(got.count(d) == 0 || errs[i] == nil && got.count(d) == 1, "%s arrived %d times, send returned %v", d, got.count(d), errs[i])
		mc.Assert(over.count(d) == 0, "overstock callback for a waiting send")
		if errs[i] != nil {
			mc.Assert(errs[i] == arpc.ErrClientStopped || errs[i] == arpc.ErrClientReconnecting, "%s: %v", d, errs[i])
		}
	}
	if c.Get("cause") == 0 || c.Get("side") == 1 {
		for _, kk := range []int{0, 1, 2, 3, 4, 5} {
			err := post(cli, kk, "z")
			mc.Assert(err == arpc.ErrClientStopped, "kind %d on a stopped client: %v", kk, err)
		}
		mc.Idle()
		mc.Assert(got.count("z") == 0, "a stopped client sent something")
	}
	mc.Assert(mc.Elapsed() == 0, "took %v", mc.Elapsed())
	mc.Outcome("%v %v", errs, got)
}

// responses also wait for room and are all sent
func c15Reply(c *mc.Config) {
	r := newRigNet(c, mc.NetConfig{BufLimit: 3})
	over := &cnt{}
	r.srv.Handler.HandleOverstock(func(*arpc.Client, *arpc.Message) { over.inc() })
	for _, as := range []bool{false, true} {
		m := "/s"
		if as {
			m = "/a"
		}
		r.srv.Handler.Handle(m, func(ctx *arpc.Context) {
			mc.Assert(ctx.Write("r"+string(ctx.Body())) == nil, "answering failed")
		}, as)
	}
	r.serve()
	b := r.raw()
	go func() {
		for i := 0; i < 4; i++ {
			m := "/s"
			if i%2 == 1 {
				m = "/a"
			}
			b.Write((&frame{cmd: 1, method: m, seq: uint64(i), data: itoa(i)}).bytes())
		}
	}()
	seen := map[string]int{}
	for i := 0; i < 4; i++ {
		f := mustFrame(b)
		mc.Assert(f.cmd == 2 && f.data == "r"+itoa(int(f.seq)), "answer %+v", *f)
		seen[f.data]++
	}
	mc.Assert(len(seen) == 4, "answers %v", seen)
	mc.Idle()
	mc.Assert(len(b.Unread()) == 0 && over.get() == 0, "something else was sent")
	mc.Assert(mc.Elapsed() == 0, "took %v", mc.Elapsed())
}
