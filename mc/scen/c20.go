package scen

import (
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/middleware/router"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

func init() {
	reg("C20", "drain", c20Drain, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "hasync", i01, "work", []int{0, 1, 2}, "n", []int{1, 2}), 0, 1), 3, 4, th)
	})
	reg("C20", "long", c20Drain, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "hasync", i01, "work", []int{4, 5}, "n", []int{1, 2}, "twice", i01), 0, 1), 2, 3, th)
	})
	reg("C20", "conns", c20Drain, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", []int{1}, "hasync", i01, "work", []int{0, 1}, "n", []int{2, 3}, "conns", []int{1}), 0, 1), 2, 3, th)
	})
	reg("C20", "stacked", c20Drain, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "hasync", i01, "work", []int{1}, "n", []int{1, 2}, "mid", []int{1, 2, 3}, "notify", i01, "twice", i01), 2, 3, th)
	})
	reg("C20", "panic", c20Drain, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "hasync", i01, "work", []int{3}, "n", []int{1, 2}, "mid", []int{0, 1}), 2, 3, th)
	})
}

func c20Drain(c *mc.Config) {
	r := newRig(c)
	g := &router.Graceful{}
	h := r.srv.Handler
	type reqState struct{ runs, ends, mids int }
	st := map[string]*reqState{}
	n := c.Get("n")
	names := []string{}
	for i := 0; i < n+2; i++ {
		k := itoa(i)
		names = append(names, k)
		st[k] = &reqState{}
	}
	over := false // Shutdown returned
	mid := c.Get("mid")
	if mid&1 == 1 {
		h.Use(router.Recover())
	}
	h.Use(g.Handler())
	if mid&2 == 2 {
		h.Use(func(ctx *arpc.Context) {
			mc.Sync()
			mc.Assert(!over, "a middleware behind it ran after Shutdown returned")
			st[string(ctx.Body())].mids++
			ctx.Next()
		})
	}
	h.Handle("/m", func(ctx *arpc.Context) {
		mc.Sync()
		k := string(ctx.Body())
		st[k].runs++
		mc.Assert(!over, "handler of request %s began after Shutdown returned", k)
		switch c.Get("work") {
		case 1:
			time.Sleep(time.Second)
		case 2:
			mc.Yield()
			mc.Yield()
		case 4:
			time.Sleep(47 * time.Minute)
		case 5:
			time.Sleep(11 * hour)
		case 3:
			time.Sleep(time.Millisecond)
			if k != "0" {
				panic("work")
			}
		}
		mc.Sync()
		mc.Assert(!over, "handler of request %s was still running when Shutdown returned", k)
		ctx.Write("done " + k)
		mc.Sync()
		st[k].ends++
	}, c.Get("hasync") == 1)
	r.up()
	newConn := func() *mc.Conn { return r.raw() }
	cmd := byte(1)
	if c.Get("notify") == 1 {
		cmd = 3
	}
	send := func(b *mc.Conn, i int) {
		b.Write((&frame{cmd: cmd, method: "/m", seq: uint64(100 + i), data: names[i]}).bytes())
	}
	b := newConn()
	peers := map[int]*mc.Conn{}
	// one before
	peers[0] = b
	send(b, 0)
	mc.IdleAll()
	// some at the same time
	gr := newGroup()
	for i := 1; i <= n; i++ {
		i := i
		x := b
		if c.Get("conns") == 1 {
			x = newConn()
		}
		peers[i] = x
		if c.Get("conns") == 1 {
			gr.run(func() { send(x, i) })
		}
	}
	if c.Get("conns") == 0 {
		gr.run(func() {
			for i := 1; i <= n; i++ {
				send(b, i)
			}
		})
	}
	if c.Get("twice") == 1 {
		gr.run(func() { g.Shutdown() })
	}
	g.Shutdown()
	mc.Sync()
	over = true
	for i, k := range names {
		if i <= n {
			mc.Assert(st[k].runs == st[k].ends || c.Get("work") == 3, "request %s began but was not finished when Shutdown returned", k)
		}
	}
	gr.wait()
	// one after
	peers[n+1] = b
	send(b, n+1)
	mc.IdleAll()
	got := map[uint64][]*frame{}
	seen := map[*mc.Conn]bool{}
	for _, x := range peers {
		if !seen[x] {
			seen[x] = true
			fs, whole := parseAll(x.Unread())
			mc.Assert(whole, "bytes % x", x.Unread())
			for _, f := range fs {
				got[f.seq] = append(got[f.seq], f)
			}
		}
	}
	rejected := 0
	for i, k := range names {
		fs := got[uint64(100+i)]
		x := st[k]
		if cmd == 3 {
			mc.Assert(len(fs) == 0, "notification %s was answered: %+v", k, fs)
			mc.Assert(x.runs <= 1 && (i != 0 || x.runs == 1) && (i != n+1 || x.runs == 0), "notification %s handled %d times", k, x.runs)
			continue
		}
		if x.runs > 0 {
			mc.Assert(x.runs == 1, "request %s was handled %d times", k, x.runs)
			mc.Assert(mid&2 == 0 || x.mids == 1, "middleware ran %d times for request %s", x.mids, k)
			if c.Get("work") == 3 && i > 0 {
				mc.Assert(len(fs) == 0, "request %s, whose handler panicked, was answered: %+v", k, fs)
			} else {
				mc.Assert(len(fs) == 1 && fs[0].cmd == 2 && fs[0].flag == 0 && fs[0].data == "done "+k, "request %s was handled and answered with %d frames: %+v", k, len(fs), fs)
			}
		} else {
			rejected++
			mc.Assert(x.mids == 0, "a middleware behind it ran for the rejected request %s", k)
			mc.Assert(len(fs) == 1 && fs[0].cmd == 2 && fs[0].flag == 1 && fs[0].data == router.ErrShutdown.Error(), "request %s was not handled and answered with %d frames: %+v", k, len(fs), fs)
		}
		mc.Assert(i != 0 || x.runs == 1, "the request before Shutdown was not handled")
		mc.Assert(i != n+1 || x.runs == 0, "the request after Shutdown was handled")
	}
	mc.Outcome("rejected %d", rejected)
}
