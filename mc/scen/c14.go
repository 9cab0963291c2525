package scen

import (
	"fmt"
	"strings"

	"github.com/lesismal/arpc"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

func init() {
	reg("C14", "all", c14All, func(th bool) []mc.Config {
		return bound(cat(
			cross("", "async", []int{0}, "pool", i01, "coders", []int{0, 1, 2, 3}, "n", []int{0, 1, 2, 3}),
			cross("", "async", []int{1}, "bsend", i01, "pool", i01, "coders", []int{0, 1, 2, 3}, "n", []int{0, 1, 2, 3}),
		), 1, 2, th)
	})
	reg("C14", "two", c14Two, func(th bool) []mc.Config {
		return bound(orders(cat(
			cross("", "async", []int{0}, "pool", i01, "coders", []int{0, 2}),
			cross("", "async", []int{1}, "bsend", i01, "sendbuf", []int{4096}, "pool", i01, "coders", []int{0, 2}),
		), 0, 1), 2, 3, th)
	})
	reg("C14", "churn", c14Churn, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "bsend", i01, "pool", i01, "what", []int{0, 1, 2, 3, 4, 5}), 0, 1), 2, 3, th)
	})
	reg("C14", "overflow", c14Overflow, func(th bool) []mc.Config {
		return bound(cross("", "async", []int{1}, "bsend", i01, "pool", i01, "queue", []int{1, 2}, "filter", i01), 1, 2, th)
	})
	reg("C14", "foreach", c14ForEach, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "n", []int{0, 1, 2, 3}, "what", []int{0, 1, 2}), 2, 3, th)
	})
}

// crowd is a server with numbered clients.
type crowd struct {
	r    *rig
	clis []*arpc.Client
	peer []*arpc.Client // server side, same order
	got  []*evs
	vals []*evs
	want int // coders
}

func newCrowd(c *mc.Config, n int) *crowd {
	w := &crowd{r: newRig(c), want: c.Get("coders")}
	w.use(w.r.srv.Handler)
	w.r.srv.Handler.HandleConnected(func(x *arpc.Client) {
		mc.Sync()
		w.peer = append(w.peer, x)
	})
	w.r.serve()
	for i := 0; i < n; i++ {
		w.join()
	}
	return w
}

func (w *crowd) use(h arpc.Handler) {
	switch w.want {
	case 1:
		h.UseCoder(&marker{0, &evs{}, "x"})
		h.UseCoder(&marker{1, &evs{}, "x"})
	case 2:
		h.UseCoder(newAppender())
	case 3:
		c08Use(4, 60, h.UseCoder)
	}
}

func (w *crowd) join() *arpc.Client {
	mc.Sync()
	i := len(w.clis)
	g := &evs{}
	v := &evs{}
	w.got = append(w.got, g)
	w.vals = append(w.vals, v)
	h := newHandler(w.r.c, "cli")
	w.use(h)
	note := func(ctx *arpc.Context) {
		mc.Assert(ctx.Message.Cmd() == arpc.CmdNotify && !ctx.Message.IsError(), "client %d: command %d", i, ctx.Message.Cmd())
		g.add(ctx.Message.Method() + ":" + string(ctx.Body()))
		x, _ := ctx.Get("ap")
		v.add(fmt.Sprint(x))
	}
	h.Handle("/b", note, false)
	h.Handle("/b2", note, false)
	h.Handle("/echo", func(ctx *arpc.Context) { ctx.Write(ctx.Body()) }, false)
	cli := w.r.client(h)
	w.clis = append(w.clis, cli)
	mc.Idle()
	return cli
}

// expect checks what client i got, in any order
func (w *crowd) expect(i int, want ...string) {
	for _, x := range want {
		n := 0
		for _, y := range want {
			if x == y {
				n++
			}
		}
		mc.Assert(w.got[i].count(x) == n, "client %d of %d got %q %d times, want %d", i, len(w.clis), short(x), w.got[i].count(x), n)
	}
	mc.Assert(len(w.got[i].all()) == len(want), "client %d got %d messages, want %d", i, len(w.got[i].all()), len(want))
}

func (w *crowd) alive(i int) {
	rsp := ""
	err := w.peer[i].Call("/echo", "alive", &rsp, hour)
	mc.Assert(err == nil && rsp == "alive", "client %d after the broadcast: %q %v", i, rsp, err)
}

func c14All(c *mc.Config) {
	n := c.Get("n")
	w := newCrowd(c, n)
	pay := []string{"x", "", strings.Repeat("long", 60)}[mc.Choose(3)]
	var args []interface{}
	val := "<nil>"
	if mc.Choose(2) == 1 {
		args = append(args, map[interface{}]interface{}{"ap": "value"})
		if c.Get("coders") >= 2 {
			val = "value"
		}
	}
	mask := 1<<n - 1
	asked := map[*arpc.Client]int{}
	switch mc.Choose(3) {
	case 0:
		w.r.srv.Broadcast("/b", pay, args...)
	case 1:
		w.r.srv.BroadcastWithFilter("/b", pay, nil, args...)
	case 2:
		mask = mc.Choose(1 << n)
		w.r.srv.BroadcastWithFilter("/b", pay, func(x *arpc.Client) bool {
			asked[x]++
			for i, p := range w.peer {
				if p == x {
					return mask>>i&1 == 1
				}
			}
			mc.Fail("filter asked about an unknown client")
			return false
		}, args...)
		for i, p := range w.peer {
			mc.Assert(asked[p] == 1, "filter asked %d times about client %d", asked[p], i)
		}
	}
	mc.Idle()
	for i := 0; i < n; i++ {
		if mask>>i&1 == 1 {
			w.expect(i, "/b:"+pay)
			mc.Assert(w.vals[i].String() == val, "client %d: attached value %s, want %s", i, w.vals[i], val)
		} else {
			w.expect(i)
		}
		w.alive(i)
	}
}

func c14Two(c *mc.Config) {
	w := newCrowd(c, 2)
	g := newGroup()
	g.run(func() { w.r.srv.Broadcast("/b", "one", map[interface{}]interface{}{"ap": "v1"}) })
	w.r.srv.BroadcastWithFilter("/b2", "two", func(x *arpc.Client) bool { return x == w.peer[1] }, map[interface{}]interface{}{"ap": "v2"})
	g.wait()
	mc.Idle()
	w.expect(0, "/b:one")
	w.expect(1, "/b:one", "/b2:two")
	if c.Get("coders") > 0 {
		mc.Assert(w.vals[0].String() == "v1", "values %v", w.vals[0])
		mc.Assert(w.vals[1].count("v1") == 1 && w.vals[1].count("v2") == 1, "values %v", w.vals[1])
	}
	w.alive(0)
	w.alive(1)
}

// clients come and go during a broadcast
func c14Churn(c *mc.Config) {
	w := newCrowd(c, 2)
	g := newGroup()
	g.run(func() { w.r.srv.Broadcast("/b", "one") })
	switch c.Get("what") {
	case 0:
		w.clis[1].Stop()
	case 1:
		w.peer[1].Stop()
	case 2:
		w.r.ln.Conns[1].Cut()
	case 3:
		w.join()
	case 4:
		w.clis[1].Stop()
		w.join()
	case 5: // answering connection
		g.run(func() {
			rsp := ""
			mc.Assert(w.peer[0].Call("/echo", "q", &rsp, hour) == nil && rsp == "q", "call during a broadcast")
		})
	}
	g.wait()
	mc.Idle()
	w.expect(0, "/b:one")
	if k := c.Get("what"); k == 3 || k == 5 {
		w.expect(1, "/b:one")
	}
	w.r.srv.Broadcast("/b2", "two")
	mc.Idle()
	w.expect(0, "/b:one", "/b2:two")
	for i := 1; i < len(w.clis); i++ {
		one, two := w.got[i].count("/b:one"), w.got[i].count("/b2:two")
		mc.Assert(one <= 1 && two <= 1 && one+two == len(w.got[i].all()), "client %d got %v", i, w.got[i])
		switch c.Get("what") {
		case 3, 5:
			mc.Assert(two == 1, "client %d missed the second broadcast", i)
		case 0, 4:
			if i == 1 {
				mc.Assert(two == 0, "a stopped client got the second broadcast")
			} else {
				mc.Assert(two == 1, "a new client missed the second broadcast")
			}
		}
	}
}

// a client that does not take anything does not disturb the others
func c14Overflow(c *mc.Config) {
	w := newCrowd(c, 2)
	w.r.ln.Conns[0].SetLimit(1)
	w.r.ln.Conns[0].Stall(true)
	over := &cnt{}
	w.r.srv.Handler.HandleOverstock(func(x *arpc.Client, m *arpc.Message) {
		mc.Assert(x == w.peer[0], "overstock for a client with room")
		mc.Assert(m.Method() == "/b", "overstock for %q", m.Method())
		over.inc()
	})
	total := 5
	done := newLatch()
	go func() {
		for i := 0; i < total; i++ {
			if c.Get("filter") == 0 {
				w.r.srv.Broadcast("/b", itoa(i))
			} else {
				w.r.srv.BroadcastWithFilter("/b", itoa(i), func(*arpc.Client) bool { return true })
			}
			mc.Idle() // client 1 has room again
		}
		done.fire()
	}()
	done.wait()
	mc.Assert(mc.Elapsed() == 0, "broadcasting waited %v for a stalled client", mc.Elapsed())
	l := w.got[1].all()
	mc.Assert(len(l) == total, "the other client got %v", l)
	for i, x := range l {
		mc.Assert(x == "/b:"+itoa(i), "the other client got %v", l)
	}
	n := over.get()
	mc.Assert(n >= total-c.Get("queue")-2 && n < total, "%d overstocks", n)
	w.r.ln.Conns[0].Stall(false)
	w.r.ln.Conns[0].SetLimit(0)
	mc.Idle()
	mc.Assert(len(w.got[0].all()) == total-n, "the stalled client got %v after %d refusals", w.got[0], n)
	w.alive(0)
	w.alive(1)
}

func c14ForEach(c *mc.Config) {
	n := c.Get("n")
	w := newCrowd(c, n)
	seen := map[*arpc.Client]int{}
	mask := mc.Choose(1 << n)
	sel := func(x *arpc.Client) bool {
		for i, p := range w.peer {
			if p == x {
				return mask>>i&1 == 1
			}
		}
		mc.Fail("unknown client")
		return false
	}
	visit := func(x *arpc.Client) {
		mc.Sync()
		seen[x]++
		x.Notify("/b", "visit", 0)
		x.Set("visited", 1)
	}
	g := newGroup()
	gone := -1
	switch c.Get("what") {
	case 1: // one leaves before
		if n > 0 {
			w.clis[0].Stop()
			mc.Idle()
			gone = 0
		}
	case 2: // one leaves meanwhile
		if n > 0 {
			gone = 0
			g.run(func() { w.clis[0].Stop() })
		}
	}
	how := mc.Choose(3)
	switch how {
	case 0:
		w.r.srv.ForEach(visit)
	case 1:
		w.r.srv.ForEachWithFilter(visit, nil)
	case 2:
		w.r.srv.ForEachWithFilter(visit, sel)
	}
	g.wait()
	mc.Idle()
	sum := 0
	for i, p := range w.peer {
		s := seen[p]
		sum += s
		want := 1
		if how == 2 && mask>>i&1 == 0 {
			want = 0
		}
		if i == gone {
			if c.Get("what") == 1 {
				want = 0
			} else if s < want {
				want = s
			}
		}
		mc.Assert(s == want, "client %d of %d visited %d times, want %d", i, n, s, want)
		if i != gone {
			mc.Assert(len(w.got[i].all()) == want, "client %d got %v", i, w.got[i])
		}
	}
	mc.Assert(sum == len(seen) || len(seen) == 0, "unknown clients visited")
}
