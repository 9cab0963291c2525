package scen

import (
	"errors"
	"fmt"
	"io"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/middleware/router"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

// Large populations under the default schedules of several orders: bounded
// resources (tables, queues, worker limits, counters) that smaller systems
// never exhaust.
func init() {
	big := func(run func(*mc.Config), prop string, cs func() []mc.Config) {
		reg(prop, "scale", run, func(th bool) []mc.Config {
			return with(orders(bound(cs(), 0, 0, th), 0, 1, 10), func(c *mc.Config) { c.MaxSteps, c.Calm = 2000000, true })
		})
	}
	big(scaleCalls, "C01", func() []mc.Config {
		return cross("", "async", i01, "n", []int{300}, "order", []int{0, 1, 2})
	})
	big(scaleLoss, "C02", func() []mc.Config {
		return cross("", "async", i01, "n", []int{300}, "how", []int{0, 1, 2}, "kind", []int{kCall, kCtx}, "side", i01)
	})
	big(scaleLoss, "C03", func() []mc.Config {
		return cross("", "async", i01, "n", []int{300}, "how", []int{0, 1, 2, 3}, "kind", []int{kAsync}, "side", i01)
	})
	big(scaleStream, "C09", func() []mc.Config {
		return cross("", "async", i01, "n", []int{1, 60}, "k", []int{5, 700}, "q", []int{0, 3, 4096}, "pool", i01)
	})
	big(scaleConns, "C10", func() []mc.Config {
		return cross("", "async", i01, "n", []int{130}, "how", []int{0, 1, 2, 3})
	})
	big(scaleConns, "C11", func() []mc.Config {
		return cross("", "async", i01, "n", []int{130}, "how", []int{4, 5})
	})
	big(scaleLosses, "C12", func() []mc.Config {
		return cross("", "async", i01, "n", []int{40})
	})
	big(scaleBroadcast, "C14", func() []mc.Config {
		return cat(cross("", "async", i01, "n", []int{100}, "coders", []int{0, 2}, "pool", i01, "filter", i01),
			cross("", "async", []int{1}, "n", []int{300}, "filter", i01))
	})
	big(scaleQueue, "C15", func() []mc.Config {
		return cross("", "async", []int{1}, "bsend", i01, "queue", []int{1, 50, 300}, "sendbuf", []int{64, 4096})
	})
	big(scaleTopics, "C17", func() []mc.Config {
		return cross("", "async", i01, "n", []int{40}, "topics", []int{30})
	})
	big(scaleGraceful, "C20", func() []mc.Config {
		return cross("", "async", i01, "n", []int{300})
	})
	big(scaleBlocked, "C21", func() []mc.Config {
		return cross("", "async", i01, "n", []int{1100}, "side", i01)
	})
}

func manyGroup(n int) *group { return &group{ch: make(chan struct{}, n)} }

// n calls of all kinds outstanding at once, answered in some order
func scaleCalls(c *mc.Config) {
	cli, b := scripted(c, nil)
	n := c.Get("n")
	g := manyGroup(n)
	for i := 0; i < n; i++ {
		p := "q" + itoa(i)
		k := i % 4
		g.run(func() {
			rsp, err := call(cli, k, "/m", p)
			mc.Assert(err == nil && rsp == "re:"+p, "call %s of %d: %q, %v", p, n, rsp, err)
		})
	}
	var fs []*frame
	for i := 0; i < n; i++ {
		fs = append(fs, mustFrame(b))
	}
	for i := range fs {
		f := fs[i]
		switch c.Get("order") {
		case 1:
			f = fs[n-1-i]
		case 2: // a permutation with long strides
			f = fs[i*7%n]
		}
		b.Write((&frame{cmd: 2, method: f.method, seq: f.seq, flag: f.flag, data: "re:" + f.data}).bytes())
	}
	g.wait()
	mc.Assert(mc.Elapsed() == 0, "took %v", mc.Elapsed())
}

// n calls outstanding when the connection ends
func scaleLoss(c *mc.Config) {
	n, kind := c.Get("n"), c.Get("kind")
	cli, b := endpoint(c, c.Get("side"), nil)
	g := manyGroup(n)
	runs := make([]int, n)
	for i := 0; i < n; i++ {
		i := i
		if kind == kAsync {
			err := cli.CallAsync("/m", "q"+itoa(i), func(ctx *arpc.Context, err error) {
				mc.Sync()
				runs[i]++
				mc.Assert(runs[i] == 1, "callback %d ran again", i)
				if c.Get("how") == 3 {
					mc.Assert(err == nil && string(ctx.Body()) == "re:q"+itoa(i), "callback %d: %v", i, err)
				} else {
					mc.Assert(err != nil, "callback %d ran without an error", i)
				}
			}, hour)
			mc.Assert(err == nil, "call %d: %v", i, err)
			continue
		}
		g.run(func() {
			_, err := call(cli, kind, "/m", "q"+itoa(i))
			mc.Sync()
			runs[i]++
			mc.Assert(err != nil, "call %d returned without an error", i)
		})
	}
	for i := 0; i < n; i++ {
		f := mustFrame(b)
		if c.Get("how") == 3 {
			b.Write((&frame{cmd: 2, method: f.method, seq: f.seq, flag: f.flag, data: "re:" + f.data}).bytes())
		}
	}
	mc.Idle()
	switch c.Get("how") {
	case 0:
		b.Close()
	case 1:
		b.Cut()
	case 2:
		cli.Stop()
	}
	g.wait()
	mc.Assert(mc.Elapsed() < time.Minute, "took %v", mc.Elapsed())
	if kind == kAsync {
		mc.IdleAll()
	}
	for i, x := range runs {
		mc.Assert(x == 1, "call %d of %d ended %d times", i, n, x)
	}
}

// many streams and long streams; the receiver starts late
func scaleStream(c *mc.Config) {
	r := newRig(c)
	n, k := c.Get("n"), c.Get("k")
	if n*k > 3000 {
		k = 3000 / n
	}
	h := newHandler(c, "cli")
	h.SetStreamQueueSize(c.Get("q"))
	h.SetSendQueueSize(64)
	r.srv.Handler.SetStreamQueueSize(c.Get("q"))
	runs := &cnt{}
	r.srv.Handler.HandleStream("/st", func(st *arpc.Stream) {
		runs.inc()
		var id, sum string
		for i := 0; ; i++ {
			s, err := recvKind(st, i%3)
			if err == io.EOF {
				mc.Assert(i == k, "stream %s: %d of %d messages before the end", id, i, k)
				break
			}
			mc.Assert(err == nil, "stream %s: %v", id, err)
			var a, j int
			fmt.Sscanf(s, "%d:%d", &a, &j)
			if i == 0 {
				id = itoa(a)
			}
			mc.Assert(itoa(a) == id && j == i, "stream %s: message %d is %q", id, i, s)
			sum = s
		}
		mc.Assert(st.SendAndClose("got "+sum) == nil, "answer")
	}, true)
	r.serve()
	cli := r.client(h)
	g := manyGroup(n)
	for a := 0; a < n; a++ {
		a := a
		g.run(func() {
			st := cli.NewStream("/st")
			for i := 0; i < k; i++ {
				err := st.Send(fmt.Sprintf("%d:%d", a, i))
				mc.Assert(err == nil, "send %d: %v", i, err)
			}
			st.CloseSendContext(background())
			m, err := recvKind(st, 0)
			mc.Assert(err == nil && m == fmt.Sprintf("got %d:%d", a, k-1), "stream %d: %q, %v", a, m, err)
			_, err = recvKind(st, 0)
			mc.Assert(err == io.EOF, "stream %d: %v at the end", a, err)
		})
	}
	g.wait()
	mc.Assert(runs.get() == n, "%d runs of the handler for %d streams", runs.get(), n)
}

// n connections come and end, twice
func scaleConns(c *mc.Config) {
	r := newRig(c)
	n := c.Get("n")
	t := track(r.srv.Handler, nil)
	r.srv.Handler.Handle("/hi", func(ctx *arpc.Context) { ctx.Write("hi") }, true)
	r.srv.Handler.Handle("/stop", func(ctx *arpc.Context) { ctx.Client.Stop() }, true)
	r.srv.MaxLoad = int64(n)
	r.up()
	total := 0
	for round := 0; round < 2; round++ {
		var bs []*mc.Conn
		for i := 0; i < n; i++ {
			b := r.raw()
			b.Write((&frame{cmd: 1, method: "/hi", seq: 1}).bytes())
			bs = append(bs, b)
		}
		total += n
		for i, b := range bs {
			f, err := readFrame(b)
			mc.Assert(err == nil && f.data == "hi", "connection %d of %d is not served: %v", i, n, err)
		}
		mc.Idle()
		seen := 0
		r.srv.ForEach(func(*arpc.Client) { seen++ })
		mc.Assert(seen == n && r.srv.CurrLoad == int64(n), "%d connections enumerated, load %d, want %d", seen, r.srv.CurrLoad, n)
		over := r.raw()
		mc.Idle()
		mc.Assert(over.Peer().IsClosed(), "a connection above the limit stays open")
		for i, b := range bs {
			switch c.Get("how") {
			case 0:
				b.Close()
			case 1:
				b.Cut()
			case 2:
				b.Write([]byte{0xff, 0xff, 0xff, 0xff, 0})
			case 3:
				if i%2 == 0 {
					b.Write((&frame{cmd: 3, method: "/stop"}).bytes())
				} else {
					b.Close()
				}
			}
		}
		if how := c.Get("how"); how >= 4 {
			stopServer(r, how-4)
			serverGone(r, t)
			return
		}
		mc.Idle()
		t.ended(r.srv, total)
	}
}

// a client survives any number of losses
func scaleLosses(c *mc.Config) {
	begin()
	h := newHandler(c, "cli")
	h.SetMaxReconnectTimes(3)
	l := newLife(h)
	w := &world{}
	cli, err := arpc.NewClient(w.dial, h)
	mc.Assert(err == nil, "%v", err)
	for i := 0; i < c.Get("n"); i++ {
		base := w.dials
		w.plan = func(n int) bool { return n > base+i%3 }
		loseConn(w, i%2)
		mc.IdleAll()
		usable(cli, "after loss "+itoa(i))
		mc.Assert(l.con.get() == i+2 && l.dis.get() == 0, "after loss %d: %d connected, %d disconnected callbacks", i, l.con.get(), l.dis.get())
	}
	cli.Stop()
	mc.Idle()
	stopped(cli, "end")
	w.closed()
	mc.Assert(mc.Live() == 0, "goroutines left: %s", mc.LiveDesc())
}

func scaleBroadcast(c *mc.Config) {
	n := c.Get("n")
	w := newCrowd(c, n)
	mc.Idle()
	odd := map[*arpc.Client]bool{}
	for i, p := range w.peer {
		odd[p] = i%2 == 1
	}
	if c.Get("filter") == 1 {
		w.r.srv.BroadcastWithFilter("/b", "hello", func(x *arpc.Client) bool { return odd[x] })
	} else {
		w.r.srv.Broadcast("/b", "hello")
	}
	mc.Idle()
	for i := range w.clis {
		want := 1
		if c.Get("filter") == 1 && !odd[w.peer[i]] {
			want = 0
		}
		l := w.got[i].all()
		mc.Assert(len(l) == want, "client %d of %d got %v", i, n, l)
		for _, m := range l {
			mc.Assert(m == "/b:hello", "client %d got %q", i, m)
		}
	}
}

// a queue of the configured size takes that many messages, in order
func scaleQueue(c *mc.Config) {
	cli, b := scripted(c, nil)
	q := c.Get("queue")
	mc.Idle()
	b.SetLimit(1)
	b.Stall(true)
	sent := 0
	refused := 0
	for i := 0; i < 2*q+8; i++ {
		err := cli.Notify("/n", itoa(sent), 0)
		if err == nil {
			sent++
		} else {
			mc.Assert(errors.Is(err, arpc.ErrClientOverstock), "send %d: %v", i, err)
			refused++
		}
		if i%5 == 0 {
			mc.Idle()
		}
	}
	mc.Assert(sent >= q, "only %d messages accepted by a queue of %d", sent, q)
	mc.Assert(refused > 0, "%d messages accepted by a queue of %d", sent, q)
	b.Stall(false)
	b.SetLimit(0)
	for i := 0; i < sent; i++ {
		f := mustFrame(b)
		mc.Assert(f.data == itoa(i), "message %d of %d arrived as %q", i, sent, f.data)
	}
	mc.Idle()
	mc.Assert(len(b.Unread()) == 0, "refused messages arrived")
}

// many subscribers and topics
func scaleTopics(c *mc.Config) {
	w := newHub(c)
	n, nt := c.Get("n"), c.Get("topics")
	w.join()
	for t := 0; t < nt; t++ {
		w.sub(0, "t"+itoa(t))
	}
	for i := 1; i < n; i++ {
		w.join()
		w.sub(i, "t"+itoa(i%nt))
	}
	mc.Idle()
	for t := 0; t < nt; t++ {
		w.pub(t%2-1, false, "t"+itoa(t), "d"+itoa(t))
	}
	mc.Idle()
	for i := 0; i < n; i++ {
		want := 1
		if i == 0 {
			want = nt
		}
		l := w.got[i].all()
		mc.Assert(len(l) == want, "client %d of %d got %v", i, n, l)
		if i > 0 {
			mc.Assert(l[0] == fmt.Sprintf("t%d=d%d", i%nt, i%nt), "client %d got %v", i, l)
		}
	}
	for i := 1; i < n; i++ {
		w.clis[i].Stop()
	}
	mc.Idle()
	w.pub(-1, true, "t1", "last")
	mc.Idle()
	mc.Assert(w.got[0].count("t1=last") == 1, "the last subscriber got %v", w.got[0])
}

// Shutdown waits for all of many requests
func scaleGraceful(c *mc.Config) {
	r := newRig(c)
	n := c.Get("n")
	gr := &router.Graceful{}
	r.srv.Handler.SetSendQueueSize(2*n + 8)
	r.srv.Handler.Use(gr.Handler())
	hold := newLatch()
	begun, ended := &cnt{}, &cnt{}
	r.srv.Handler.Handle("/m", func(ctx *arpc.Context) {
		begun.inc()
		hold.wait()
		ended.inc()
		ctx.Write("ok")
	}, true)
	r.up()
	b := r.raw()
	for i := 0; i < n; i++ {
		b.Write((&frame{cmd: 1, method: "/m", seq: uint64(i)}).bytes())
	}
	mc.Idle()
	mc.Assert(begun.get() == n, "%d of %d requests began", begun.get(), n)
	done := newLatch()
	go func() {
		gr.Shutdown()
		mc.Assert(ended.get() == n, "Shutdown returned after %d of %d requests", ended.get(), n)
		done.fire()
	}()
	mc.Idle()
	b.Write((&frame{cmd: 1, method: "/m", seq: uint64(n)}).bytes())
	f := mustFrame(b)
	mc.Assert(f.seq == uint64(n) && f.flag == 1, "%+v", f)
	hold.fire()
	done.wait()
	for i := 0; i < n; i++ {
		f := mustFrame(b)
		mc.Assert(f.flag == 0 && f.data == "ok", "%+v", f)
	}
	mc.Assert(begun.get() == n, "a request was handled after Shutdown")
}

// many blocked asynchronous handlers
func scaleBlocked(c *mc.Config) {
	n := c.Get("n")
	hold := newLatch()
	begun, ended := &cnt{}, &cnt{}
	b, _ := c21End(c, func(h arpc.Handler) {
		h.SetSendQueueSize(2 * n)
		h.Handle("/block", func(ctx *arpc.Context) {
			begun.inc()
			hold.wait()
			ended.inc()
			ctx.Write("late")
		}, true)
		h.Handle("/sync", func(ctx *arpc.Context) { ctx.Write("sync") }, false)
		h.Handle("/async", func(ctx *arpc.Context) { ctx.Write("async") }, true)
	})
	for i := 0; i < n; i++ {
		b.Write((&frame{cmd: 1, method: "/block", seq: uint64(i)}).bytes())
	}
	for i, m := range []string{"sync", "async"} {
		b.Write((&frame{cmd: 1, method: "/" + m, seq: uint64(9000 + i)}).bytes())
		mc.Idle()
		if len(b.Unread()) == 0 {
			mc.Fail("with %d asynchronous handlers blocked (%d begun) a request to /%s is not served", n, begun.get(), m)
		}
		f := mustFrame(b)
		mc.Assert(f.seq == uint64(9000+i) && f.data == m, "%+v", f)
	}
	mc.Assert(begun.get() == n, "%d of %d asynchronous handlers began", begun.get(), n)
	hold.fire()
	for i := 0; i < n; i++ {
		f := mustFrame(b)
		mc.Assert(f.data == "late", "%+v", f)
	}
	mc.Assert(ended.get() == n, "%d handlers ended", ended.get())
}
