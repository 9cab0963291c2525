package scend

import (
	"strings"
	"sync"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/micro"
	aredis "github.com/lesismal/arpc/extension/micro/redis"
	"github.com/lesismal/arpc/zmc/env/redis"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

const (
	ns     = "app"
	poll   = 2 * time.Second
	beat   = 5 * time.Second
	expire = 8 * time.Second
)

// view is a service manager that keeps the nodes it is told about.
type view struct {
	mux   sync.Mutex
	nodes map[string]string
	// paths that must not be withdrawn, nor added
	keep, never map[string]bool
}

func newView() *view {
	return &view{nodes: map[string]string{}, keep: map[string]bool{}, never: map[string]bool{}}
}

var _ micro.ServiceManager = (*view)(nil)

func (v *view) AddServiceNodes(path, value string) {
	v.mux.Lock()
	defer v.mux.Unlock()
	mc.Log("%v add %v %v", mc.Elapsed(), path, value)
	if v.never[path] {
		mc.Fail("%v is added although it is not registered", path)
	}
	v.nodes[path] = value
}

func (v *view) DeleteServiceNodes(path string) {
	v.mux.Lock()
	defer v.mux.Unlock()
	mc.Log("%v delete %v", mc.Elapsed(), path)
	if v.keep[path] {
		mc.Fail("%v is withdrawn although it is registered", path)
	}
	delete(v.nodes, path)
}

func (v *view) ClientBy(string) (*arpc.Client, error) { return nil, micro.ErrServiceNotFound }

func (v *view) guard(path string, keep, never bool) {
	v.mux.Lock()
	v.keep[path], v.never[path] = keep, never
	v.mux.Unlock()
}

func (v *view) has(path string) bool {
	v.mux.Lock()
	defer v.mux.Unlock()
	_, ok := v.nodes[path]
	return ok
}

func (v *view) weight(path string) string {
	v.mux.Lock()
	defer v.mux.Unlock()
	return v.nodes[path]
}

func (v *view) size() int {
	v.mux.Lock()
	defer v.mux.Unlock()
	return len(v.nodes)
}

func init() {
	reg("C27", "redis-life", c27RLife, func(th bool) []mc.Config {
		n := []int{1, 2}
		return bound(orders(cross("n", n, "watchers", []int{1, 2}, "first", i01, "end", i01), 0, 1), 1, 2, th)
	})
	reg("C27", "redis-stop", c27RStop, func(th bool) []mc.Config {
		return bound(orders(cross("at", []int{0, 1, 2}, "twice", i01, "fail", []int{0, 1, 2}), 0, 1), 3, 4, th)
	})
	reg("C27", "redis-start", c27RStart, func(th bool) []mc.Config {
		return bound(orders(cross("n", []int{1, 2}, "end", i01), 0, 1), 2, 3, th)
	})
	reg("C27", "redis-fault", c27RFault, func(th bool) []mc.Config {
		return bound(orders(cross("cmd", []int{0, 1, 2}, "nth", []int{0, 1, 2}, "count", []int{1, 2, 3}, "how", []int{1, 2}), 0), 0, 1, th)
	})
	reg("C27", "redis-junk", c27RJunk, func(th bool) []mc.Config {
		return bound(orders(cross("late", i01, "n", []int{1, 2}), 0), 0, 0, th)
	})
	reg("C27", "redis-restart", c27RRestart, func(th bool) []mc.Config {
		return bound(orders(cross("gap", []int{100, 1000, 3000, 4500, 6000, 7000, 7900, 10000, 12000}), 0, 1), 1, 2, th)
	})
	reg("C27", "redis-dstop", c27RDStop, func(th bool) []mc.Config {
		return bound(orders(cross("at", []int{0, 1}), 0, 1), 2, 3, th)
	})
	reg("C27", "redis-weight", c27RWeight, func(th bool) []mc.Config {
		return bound(cross("w", []int{-1, 0, 1, 2, 100}, "i", []int{0, 1, 2}), 0, 0, th)
	})
}

func rreg(addr string) *aredis.Register {
	r, err := aredis.NewRegister("redis", ns, "echo", addr, 1, beat, expire)
	mc.Assert(err == nil && r != nil, "NewRegister fails: %v", err)
	return r
}

func rdisc(v *view) *aredis.Discovery {
	d, err := aredis.NewDiscovery("redis", ns, poll, v)
	mc.Assert(err == nil && d != nil, "NewDiscovery fails: %v", err)
	return d
}

func rpath(addr string) string { return ns + "/echo/" + addr }

// registered services are known to all discoveries until they end.
func c27RLife(c *mc.Config) {
	begin()
	var vs []*view
	start := func() {
		for i := 0; i < c.P["watchers"]; i++ {
			v := newView()
			vs = append(vs, v)
			rdisc(v)
		}
	}
	if c.P["first"] == 1 {
		start()
	}
	n := c.P["n"]
	var rs []*aredis.Register
	c0 := len(redis.Clients)
	for i := 0; i < n; i++ {
		rs = append(rs, rreg("h"+itoa(i)))
	}
	if c.P["first"] == 0 {
		start()
	}
	for _, v := range vs {
		for i := 0; i < n; i++ {
			v.guard(rpath("h"+itoa(i)), true, false)
		}
	}
	time.Sleep(poll + 100*time.Millisecond)
	check := func(from int) {
		for _, v := range vs {
			for i := from; i < n; i++ {
				mc.Assert(v.has(rpath("h"+itoa(i))), "h%v is not known although it is registered", i)
				mc.Assert(v.weight(rpath("h"+itoa(i))) == "1", "weight of h%v is %v", i, v.weight(rpath("h"+itoa(i))))
			}
			mc.Assert(v.size() == n-from, "%v services known, want %v", v.size(), n-from)
		}
	}
	check(0)
	time.Sleep(21 * time.Second)
	check(0)
	// the first one ends
	for _, v := range vs {
		v.guard(rpath("h0"), false, false)
	}
	if c.P["end"] == 0 {
		mc.Assert(rs[0].Stop() == nil, "Stop fails")
		time.Sleep(poll + 100*time.Millisecond)
	} else {
		redis.Clients[c0].Cut()
		time.Sleep(expire + time.Second + poll + 100*time.Millisecond)
	}
	check(1)
	for _, v := range vs {
		v.guard(rpath("h0"), false, true)
	}
	time.Sleep(21 * time.Second)
	check(1)
	mc.Assert(len(redis.Hash(ns)) == n-1, "%v entries in the registry, want %v", len(redis.Hash(ns)), n-1)
}

// Stop at the moment of a refresh, with failures of its request, twice.
func c27RStop(c *mc.Config) {
	begin()
	v := newView()
	rdisc(v)
	r := rreg("h0")
	time.Sleep(beat * time.Duration(c.P["at"]))
	if f := c.P["fail"]; f > 0 {
		n := 0
		redis.Fault = func(_ *redis.Client, cmd string) int {
			if cmd == "HDEL" {
				if n++; n == 1 {
					return f
				}
			}
			return 0
		}
	}
	err := r.Stop()
	if c.P["fail"] > 0 {
		mc.Assert(err != nil, "Stop hides the failure of its request")
	} else {
		mc.Assert(err == nil, "Stop fails: %v", err)
	}
	if c.P["twice"] == 1 {
		err = r.Stop()
	}
	mc.Idle()
	if err != nil {
		// the entry lives on for its lifetime at most
		time.Sleep(expire + time.Second)
	}
	if err != nil {
		time.Sleep(poll)
	} else {
		mc.Assert(len(redis.Hash(ns)) == 0, "the service is registered after Stop: %v", len(redis.Hash(ns)))
	}
	time.Sleep(poll + 100*time.Millisecond)
	mc.Assert(!v.has(rpath("h0")), "the service is known after Stop")
	v.guard(rpath("h0"), false, true)
	time.Sleep(2*beat + expire)
	mc.Assert(len(redis.Hash(ns)) == 0, "the service is registered again after Stop")
}

// registrations and ends while a discovery starts.
func c27RStart(c *mc.Config) {
	begin()
	n := c.P["n"]
	v := newView()
	g := newGroup()
	var rs [2]*aredis.Register
	rs[0] = rreg("h0")
	if n == 2 {
		g.run(func() { rs[1] = rreg("h1") })
	}
	g.run(func() { rdisc(v) })
	if c.P["end"] == 1 {
		g.run(func() { rs[0].Stop() })
	}
	g.wait()
	time.Sleep(2*poll + 100*time.Millisecond)
	mc.Assert(v.has(rpath("h0")) == (c.P["end"] == 0), "h0 known: %v", v.has(rpath("h0")))
	if n == 2 {
		mc.Assert(v.has(rpath("h1")), "h1 is not known")
	}
	time.Sleep(21 * time.Second)
	mc.Assert(v.has(rpath("h0")) == (c.P["end"] == 0), "h0 known: %v", v.has(rpath("h0")))
}

// the nth and following requests of a kind fail.
func c27RFault(c *mc.Config) {
	begin()
	kind := []string{"HGETALL", "HSET", "HSETNX"}[c.P["cmd"]]
	nth, count := c.P["nth"], c.P["count"]
	if kind == "HSET" && count > 1 && nth+count > 2 {
		count = 1
	}
	n := 0
	redis.Fault = func(_ *redis.Client, cmd string) int {
		if cmd == "HSETNX" && kind == "HSET" {
			return 0
		}
		if cmd == kind || kind == "HSETNX" && cmd == "HSET" && nth == 0 {
			n++
			if n > nth && n <= nth+count {
				return c.P["how"]
			}
		}
		return 0
	}
	// one refresh may be lost without harm
	r, err := aredis.NewRegister("redis", ns, "echo", "h0", 1, beat, 3*beat)
	if err != nil {
		mc.Assert(r == nil, "a register and an error")
		mc.Assert(kind != "HGETALL" && nth == 0, "NewRegister fails: %v", err)
		redis.Fault = nil
		time.Sleep(beat)
		before := redis.Hash(ns)["echo/h0/1"]
		time.Sleep(3 * beat)
		mc.Assert(redis.Hash(ns)["echo/h0/1"] == before, "a failed register goes on refreshing its entry")
		return
	}
	mc.Assert(r != nil, "neither register nor error")
	v := newView()
	v.guard(rpath("h0"), true, false)
	d, err := aredis.NewDiscovery("redis", ns, poll, v)
	if err != nil {
		mc.Assert(d == nil, "a discovery and an error")
		mc.Assert(kind == "HGETALL" && nth == 0, "NewDiscovery fails: %v", err)
		time.Sleep(5 * poll)
		mc.Assert(v.size() == 0, "a failed discovery adds services")
		return
	}
	time.Sleep(4*poll + 100*time.Millisecond)
	mc.Assert(v.has(rpath("h0")), "the registered service is not known")
	time.Sleep(20 * time.Second)
	mc.Assert(v.has(rpath("h0")), "the registered service is not known")
	mc.Assert(r.Stop() == nil, "Stop fails")
	v.guard(rpath("h0"), false, false)
	time.Sleep(4*poll + 100*time.Millisecond)
	mc.Assert(!v.has(rpath("h0")), "the service is known after Stop")
}

var junkFields = []string{"", "/", "a", "a/b", "a/b/1/2", "echo/h1/1"}
var junkValues = []string{"", "x", "-1", "0", "1", "12x", "99999999999999999999999", "past", "future"}

// entries that are no live services are ignored, whatever else is there.
func c27RJunk(c *mc.Config) {
	begin()
	v := newView()
	r := rreg("h0")
	v.guard(rpath("h0"), true, false)
	want := map[string]bool{rpath("h0"): true}
	put := func() {
		for i := 0; i < c.P["n"]; i++ {
			f := junkFields[mc.Choose(len(junkFields))]
			x := junkValues[mc.Choose(len(junkValues))]
			live := x == "future" && strings.Count(f, "/") == 2
			switch x {
			case "past":
				x = itoa(int(time.Now().Add(-2 * time.Second).Unix()))
			case "future":
				x = itoa(int(time.Now().Add(time.Hour).Unix()))
			}
			redis.Put(ns, f, x)
			p := strings.Split(f, "/")
			if live {
				want[ns+"/"+p[0]+"/"+p[1]] = true
			} else if len(p) == 3 {
				delete(want, ns+"/"+p[0]+"/"+p[1])
			}
		}
	}
	if c.P["late"] == 0 {
		put()
	}
	d := rdisc(v)
	if c.P["late"] == 1 {
		put()
	}
	look := func() {
		for p := range want {
			mc.Assert(v.has(p), "%v is not known", p)
		}
		mc.Assert(v.size() == len(want), "%v services known, want %v", v.size(), len(want))
	}
	time.Sleep(poll + 100*time.Millisecond)
	look()
	time.Sleep(10 * time.Second)
	look()
	mc.Assert(len(redis.Hash(ns)) == len(want), "%v entries left, want %v", len(redis.Hash(ns)), len(want))
	_, _ = r, d
}

// a service that died comes back before its entry has run out.
func c27RRestart(c *mc.Config) {
	begin()
	v := newView()
	rdisc(v)
	c0 := len(redis.Clients)
	rreg("h0")
	time.Sleep(poll + 500*time.Millisecond)
	redis.Clients[c0].Cut()
	gap := time.Duration(c.P["gap"]) * time.Millisecond
	if gap > poll+500*time.Millisecond {
		time.Sleep(gap - poll - 500*time.Millisecond)
	}
	r := rreg("h0")
	time.Sleep(poll + 100*time.Millisecond)
	if gap > expire {
		// a discovery may have removed the renewed entry for the expired one
		time.Sleep(beat + poll)
	}
	mc.Assert(v.has(rpath("h0")), "the service is not known although it registered again")
	v.guard(rpath("h0"), true, false)
	time.Sleep(20 * time.Second)
	mc.Assert(v.has(rpath("h0")), "the service is not known although it registered again")
	v.guard(rpath("h0"), false, false)
	mc.Assert(r.Stop() == nil, "Stop fails")
	time.Sleep(poll + 100*time.Millisecond)
	mc.Assert(!v.has(rpath("h0")), "the service is known after Stop")
}

// after Stop a discovery leaves its manager alone.
func c27RDStop(c *mc.Config) {
	begin()
	v := newView()
	d := rdisc(v)
	rreg("h0")
	time.Sleep(poll + 100*time.Millisecond)
	mc.Assert(v.has(rpath("h0")), "the registered service is not known")
	if c.P["at"] == 1 {
		time.Sleep(poll - 100*time.Millisecond)
	}
	mc.Assert(d.Stop() == nil, "Stop fails")
	mc.Idle()
	time.Sleep(100 * time.Millisecond)
	rreg("h1")
	v.guard(rpath("h0"), true, false)
	v.guard(rpath("h1"), false, true)
	redis.Put(ns, "echo/h0/1", "1")
	time.Sleep(5 * poll)
}

// weights and default periods.
func c27RWeight(c *mc.Config) {
	begin()
	v := newView()
	rdisc(v)
	w := c.P["w"]
	i := []time.Duration{0, time.Second, beat}[c.P["i"]]
	x := []time.Duration{0, time.Second, expire}[mc.Choose(3)]
	r, err := aredis.NewRegister("redis", ns, "echo", "h0", w, i, x)
	mc.Assert(err == nil, "NewRegister fails: %v", err)
	v.guard(rpath("h0"), true, false)
	want := itoa(w)
	if w <= 0 {
		want = "1"
	}
	for j := 0; j < 20; j++ {
		time.Sleep(poll + 100*time.Millisecond)
		mc.Assert(v.weight(rpath("h0")) == want, "weight %v, want %v", v.weight(rpath("h0")), want)
	}
	mc.Assert(r.Stop() == nil, "Stop fails")
	v.guard(rpath("h0"), false, false)
	time.Sleep(poll + 100*time.Millisecond)
	mc.Assert(v.size() == 0, "the service is known after Stop")
}
