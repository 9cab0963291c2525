package scen

import (
	"fmt"
	"sync/atomic"
	"time"

	"github.com/lesismal/arpc"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

func init() {
	reg("C10", "end", c10End, func(th bool) []mc.Config {
		return cat(
			bound(orders(cross("", "async", i01, "cause", []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, "n", []int{1}, "call", i01), 0, 1), 2, 3, th),
			bound(cross("", "async", []int{1}, "cause", []int{0, 1, 4, 5, 8}, "n", []int{2}, "call", []int{0}), 2, 2, th),
		)
	})
	reg("C10", "load", c10Load, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "max", []int{0, 1, 2}, "n", []int{3}, "leave", i01), 0, 1), 2, 2, th)
	})
	reg("C10", "reuse", c10Reuse, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "max", []int{1, 2}), 1, 2, th)
	})
}

// tracker of the lifecycle callbacks of a server
type tracker struct {
	con, dis map[*arpc.Client]int
	order    []*arpc.Client
}

func track(h arpc.Handler, onCon func(*arpc.Client)) *tracker {
	t := &tracker{map[*arpc.Client]int{}, map[*arpc.Client]int{}, nil}
	h.HandleConnected(func(c *arpc.Client) {
		mc.Sync()
		t.con[c]++
		t.order = append(t.order, c)
		if onCon != nil {
			onCon(c)
		}
	})
	h.HandleDisconnected(func(c *arpc.Client) {
		mc.Sync()
		t.dis[c]++
	})
	return t
}

// ended checks that n connections were accepted and all of them ended properly.
func (t *tracker) ended(s *arpc.Server, n int) {
	mc.Assert(len(t.con) == n, "connected callback ran for %d connections of %d", len(t.con), n)
	mc.Assert(len(t.dis) == n, "disconnected callback ran for %d connections of %d", len(t.dis), n)
	for c, k := range t.con {
		mc.Assert(k == 1, "connected callback ran %d times for one connection", k)
		mc.Assert(t.dis[c] == 1, "disconnected callback ran %d times for one connection", t.dis[c])
	}
	load := atomic.LoadInt64(&s.CurrLoad)
	mc.Assert(load == 0, "load %d after all connections ended", load)
	k := 0
	s.ForEach(func(*arpc.Client) { k++ })
	mc.Assert(k == 0, "%d ended connections still enumerated", k)
	s.ForEachWithFilter(func(*arpc.Client) { k++ }, nil)
	mc.Assert(k == 0, "%d ended connections still enumerated", k)
}

func c10End(c *mc.Config) {
	r := newRig(c)
	cause := c.Get("cause")
	n := c.Get("n")
	calls := newGroup()
	r.srv.Handler.SetMaxBodyLen(100)
	t := track(r.srv.Handler, func(x *arpc.Client) {
		if c.Get("call") == 1 {
			calls.run(func() {
				err := x.Call("/x", "q", nil, hour)
				mc.Assert(err != nil, "a call nobody answers succeeded")
				mc.Assert(mc.Elapsed() == 0, "the waiting call returned only after %v", mc.Elapsed())
			})
		}
		if cause == 6 {
			x.Stop()
		}
	})
	r.srv.Handler.Handle("/stop", func(ctx *arpc.Context) { ctx.Client.Stop() }, false)
	r.srv.Handler.Handle("/astop", func(ctx *arpc.Context) { ctx.Client.Stop(); ctx.Write("x") }, true)
	r.up()
	g := newGroup()
	for i := 0; i < n; i++ {
		g.run(func() {
			b, err := r.ln.Dial()
			if err != nil {
				mc.Assert(cause >= 7, "dial: %v", err)
				return
			}
			switch cause {
			case 0:
				b.Close()
			case 1:
				b.Cut()
			case 2:
				b.Write([]byte{0xff, 0xff, 0, 0, 1})
			case 3:
				b.Write((&frame{cmd: 17, method: "m"}).bytes())
			case 4:
				b.Write((&frame{cmd: 3, method: "/stop"}).bytes())
				b.Write((&frame{cmd: 3, method: "/stop"}).bytes())
			case 5:
				b.Write((&frame{cmd: 1, method: "/astop"}).bytes())
			case 7:
				if c.Get("call") == 0 {
					b.Write((&frame{cmd: 1, method: "/stop"}).bytes()[:7])
				}
				r.srv.Stop()
			case 8:
				err := r.srv.Shutdown(background())
				mc.Assert(err == nil, "Shutdown: %v", err)
			case 9:
				b.FailWrites(nil)
				b.Peer().FailWrites(nil)
				b.Write((&frame{cmd: 1, method: "/none"}).bytes())
				b.Cut()
			}
		})
	}
	g.wait()
	mc.Idle()
	calls.wait()
	mc.Idle()
	if cause < 7 || cause == 9 {
		t.ended(r.srv, n)
		mc.Assert(mc.Live() == 1, "goroutines left: %s", mc.LiveDesc())
		r.srv.Stop()
	} else {
		t.ended(r.srv, len(t.con))
	}
	mc.Idle()
	mc.Assert(mc.Live() == 0, "goroutines left: %s", mc.LiveDesc())
	for _, cn := range r.ln.Conns {
		mc.Assert(cn.IsClosed(), "server side of a connection left open")
	}
	mc.Assert(mc.Elapsed() < time.Second, "took %v", mc.Elapsed())
}

// never more than MaxLoad connections are served
func c10Load(c *mc.Config) {
	r := newRig(c)
	max := c.Get("max")
	r.srv.MaxLoad = int64(max)
	check := func() {
		k := 0
		r.srv.ForEach(func(cl *arpc.Client) {
			// one that has ended may still be about to be removed
			if !cl.Conn.(*mc.Conn).IsClosed() {
				k++
			}
		})
		mc.Assert(max == 0 || k <= max, "%d open connections enumerated, limit %d", k, max)
	}
	t := track(r.srv.Handler, func(*arpc.Client) { check() })
	served := &cnt{}
	r.srv.Handler.Handle("/hi", func(ctx *arpc.Context) {
		served.inc()
		ctx.Write("hi")
		check()
	}, false)
	r.serve()
	n := c.Get("n")
	g := newGroup()
	refused := &cnt{}
	for i := 0; i < n; i++ {
		i := i
		g.run(func() {
			b := r.raw()
			b.Write((&frame{cmd: 1, method: "/hi", seq: 1}).bytes())
			f, err := readFrame(b)
			if err != nil {
				refused.inc()
				return
			}
			mc.Assert(f.data == "hi", "%+v", f)
			if c.Get("leave") == 1 && i < 2 {
				b.Close()
			}
		})
	}
	g.wait()
	mc.Idle()
	check()
	adm := n - refused.get()
	mc.Assert(served.get() == adm, "%d served, %d admitted", served.get(), adm)
	mc.Assert(len(t.con) == adm, "%d connected callbacks, %d admitted", len(t.con), adm)
	mc.Assert(int(r.srv.Accepted) == adm, "Accepted %d, %d admitted", r.srv.Accepted, adm)
	if max == 0 {
		mc.Assert(adm == n, "refused %d without a limit", n-adm)
	} else if c.Get("leave") == 0 {
		mc.Assert(adm == max, "%d admitted, limit %d, nobody left", adm, max)
	} else {
		mc.Assert(adm >= max, "only %d admitted, limit %d", adm, max)
	}
	open := 0
	for _, x := range r.ln.Conns {
		if !x.IsClosed() {
			open++
		}
	}
	load := atomic.LoadInt64(&r.srv.CurrLoad)
	mc.Assert(int(load) == open, "load %d, %d connections open", load, open)
	k := 0
	r.srv.ForEach(func(*arpc.Client) { k++ })
	mc.Assert(k == open, "%d connections enumerated, %d open", k, open)
	mc.Outcome("%d", adm)
}

// places given back are usable again, one for one
func c10Reuse(c *mc.Config) {
	r := newRig(c)
	max := c.Get("max")
	r.srv.MaxLoad = int64(max)
	t := track(r.srv.Handler, nil)
	r.serve()
	var open []*mc.Conn
	total := 0
	trace := ""
	for step := 0; step < 5; step++ {
		if len(open) > 0 && mc.Choose(2) == 1 {
			k := mc.Choose(len(open))
			open[k].Close()
			open = append(open[:k:k], open[k+1:]...)
			trace += "-"
		} else {
			b := r.raw()
			mc.Idle()
			trace += "+"
			if b.Peer().IsClosed() {
				mc.Assert(len(open) == max, "%s: refused with %d of %d places used", trace, len(open), max)
			} else {
				mc.Assert(len(open) < max, "%s: admitted with %d of %d places used", trace, len(open), max)
				open = append(open, b)
				total++
			}
		}
		mc.Idle()
		load := int(atomic.LoadInt64(&r.srv.CurrLoad))
		mc.Assert(load == len(open), "%s: load %d, %d open", trace, load, len(open))
		mc.Assert(int(r.srv.Accepted) == total && len(t.con) == total && len(t.dis) == total-len(open), "%s: accepted %d, connected %d, disconnected %d", trace, r.srv.Accepted, len(t.con), len(t.dis))
		k := 0
		r.srv.ForEach(func(*arpc.Client) { k++ })
		mc.Assert(k == len(open), "%s: %d enumerated", trace, k)
	}
	mc.Outcome("%s", fmt.Sprint(trace))
}
