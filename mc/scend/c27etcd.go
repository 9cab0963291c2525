package scend

import (
	"strings"
	"time"

	aetcd "github.com/lesismal/arpc/extension/micro/etcd"
	"github.com/lesismal/arpc/zmc/env/clientv3"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

const ttl = 6

func init() {
	reg("C27", "etcd-start", c27EStart, func(th bool) []mc.Config {
		n := []int{1, 2}
		if th {
			n = append(n, 3)
		}
		return bound(orders(cross("have", []int{0, 1, 2, 3}, "n", n, "wait", i01), 0, 1), 3, 4, th)
	})
	reg("C27", "etcd-follow", c27EFollow, func(th bool) []mc.Config {
		n := []int{1, 2, 3, 4}
		if th {
			n = append(n, 5)
		}
		return bound(orders(cross("have", []int{0, 3}, "n", n), 0), 0, 1, th)
	})
	reg("C27", "etcd-life", c27ELife, func(th bool) []mc.Config {
		return bound(orders(cross("n", []int{1, 2}, "watchers", []int{1, 2}, "first", i01, "end", i01), 0, 1), 1, 2, th)
	})
	reg("C27", "etcd-same", c27ESame, func(th bool) []mc.Config {
		return bound(orders(cross("g", []int{2, 3}, "had", i01), 0, 1), 2, 3, th)
	})
	reg("C27", "etcd-fault", c27EFault, func(th bool) []mc.Config {
		return bound(orders(cross("who", i01, "nth", []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, "count", []int{1, 2, 100}, "how", []int{1, 2}), 0), 0, 1, th)
	})
	reg("C27", "etcd-stop", c27EStop, func(th bool) []mc.Config {
		return bound(orders(cross("at", i01, "how", []int{0, 1, 2}), 0, 1), 2, 3, th)
	})
}

func ereg(addr, w string) *aetcd.Register {
	r, err := aetcd.NewRegister([]string{"etcd"}, rpath(addr), w, ttl)
	mc.Assert(err == nil && r != nil, "NewRegister fails: %v", err)
	return r
}

func edisc(v *view) *aetcd.Discovery {
	d, err := aetcd.NewDiscovery([]string{"etcd"}, ns+"/", v)
	mc.Assert(err == nil && d != nil, "NewDiscovery fails: %v", err)
	return d
}

// same compares what a discovery knows with the registry.
func (v *view) same() {
	e := clientv3.Entries(ns + "/")
	for p, w := range e {
		mc.Assert(v.has(p), "%v is not known although it is registered", p)
		mc.Assert(v.weight(p) == w, "%v is known with %v, registered with %v", p, v.weight(p), w)
	}
	v.mux.Lock()
	defer v.mux.Unlock()
	for p := range v.nodes {
		_, ok := e[p]
		mc.Assert(ok, "%v is known although it is not registered", p)
	}
}

func change(i int) {
	op := mc.Choose(4)
	p := rpath("h" + itoa(op/2))
	if op%2 == 0 {
		mc.Log("%v put %v", mc.Elapsed(), p)
		clientv3.Set(p, itoa(i+1))
	} else {
		mc.Log("%v remove %v", mc.Elapsed(), p)
		clientv3.Remove(p)
	}
}

// changes while a discovery starts.
func c27EStart(c *mc.Config) {
	begin()
	clientv3.Set("other/echo/h9", "1")
	for i := 0; i < 2; i++ {
		if c.P["have"]&(1<<uint(i)) != 0 {
			clientv3.Set(rpath("h"+itoa(i)), "9")
		}
	}
	if c.P["have"] > 0 {
		clientv3.Compact()
	}
	v := newView()
	g := newGroup()
	g.run(func() { edisc(v) })
	g.run(func() {
		for i := 0; i < c.P["n"]; i++ {
			if i == 0 && c.P["wait"] == 1 || i > 0 && mc.Deviate(2) == 1 {
				time.Sleep(10 * time.Millisecond)
			}
			change(i)
		}
	})
	g.wait()
	time.Sleep(time.Second)
	mc.Idle()
	v.same()
	change(8)
	time.Sleep(time.Second)
	mc.Idle()
	v.same()
}

// all sequences of changes once a discovery has started.
func c27EFollow(c *mc.Config) {
	begin()
	for i := 0; i < 2; i++ {
		if c.P["have"]&(1<<uint(i)) != 0 {
			clientv3.Set(rpath("h"+itoa(i)), "9")
		}
	}
	v := newView()
	edisc(v)
	v.same()
	for i := 0; i < c.P["n"]; i++ {
		change(i)
		if mc.Choose(2) == 0 {
			time.Sleep(time.Second)
			v.same()
		}
	}
	time.Sleep(time.Second)
	v.same()
}

// registered services are known to all discoveries until they end.
func c27ELife(c *mc.Config) {
	begin()
	var vs []*view
	start := func() {
		for i := 0; i < c.P["watchers"]; i++ {
			v := newView()
			vs = append(vs, v)
			edisc(v)
		}
	}
	if c.P["first"] == 1 {
		start()
	}
	n := c.P["n"]
	var rs []*aetcd.Register
	c0 := len(clientv3.Clients)
	for i := 0; i < n; i++ {
		rs = append(rs, ereg("h"+itoa(i), itoa(i+1)))
	}
	if c.P["first"] == 0 {
		start()
	}
	for _, v := range vs {
		for i := 0; i < n; i++ {
			v.guard(rpath("h"+itoa(i)), true, false)
		}
	}
	check := func(from int) {
		for _, v := range vs {
			for i := from; i < n; i++ {
				mc.Assert(v.has(rpath("h"+itoa(i))), "h%v is not known although it is registered", i)
				mc.Assert(v.weight(rpath("h"+itoa(i))) == itoa(i+1), "weight of h%v is %v", i, v.weight(rpath("h"+itoa(i))))
			}
			mc.Assert(v.size() == n-from, "%v services known, want %v", v.size(), n-from)
		}
	}
	time.Sleep(time.Second)
	check(0)
	time.Sleep(25 * time.Second)
	check(0)
	for _, v := range vs {
		v.guard(rpath("h0"), false, false)
	}
	if c.P["end"] == 0 {
		mc.Assert(rs[0].Stop() == nil, "Stop fails")
		time.Sleep(time.Second)
	} else {
		clientv3.Clients[c0].Cut()
		time.Sleep((ttl + 1) * time.Second)
	}
	check(1)
	for _, v := range vs {
		v.guard(rpath("h0"), false, true)
	}
	time.Sleep(25 * time.Second)
	check(1)
	// the name is free again
	for _, v := range vs {
		v.guard(rpath("h0"), false, false)
	}
	ereg("h0", "1")
	time.Sleep(time.Second)
	check(0)
}

// one of several registrations of a key succeeds, the others are refused.
func c27ESame(c *mc.Config) {
	begin()
	p := rpath("h0")
	var old *aetcd.Register
	if c.P["had"] == 1 {
		old = ereg("h0", "7")
	}
	won := 0
	var win *aetcd.Register
	weight := ""
	g := newGroup()
	for i := 0; i < c.P["g"]; i++ {
		i := i
		g.run(func() {
			r, err := aetcd.NewRegister([]string{"etcd"}, p, itoa(i+1), ttl)
			mc.Sync()
			if err == nil {
				mc.Assert(r != nil, "neither a register nor an error")
				won++
				win = r
				weight = itoa(i + 1)
			} else {
				mc.Assert(r == nil, "a register and an error")
			}
		})
	}
	g.wait()
	if old != nil {
		mc.Assert(won == 0, "a key in use is registered again")
		win, weight = old, "7"
	} else {
		mc.Assert(won == 1, "%v registrations of one key succeed", won)
	}
	time.Sleep(100 * time.Second)
	mc.Assert(clientv3.Entries(p)[p] == weight, "the entry holds %v, want %v", clientv3.Entries(p)[p], weight)
	mc.Assert(win.Stop() == nil, "Stop fails")
	mc.Assert(len(clientv3.Entries(ns)) == 0, "the service is registered after Stop")
	ereg("h0", "1")
}

// the nth and following requests fail, with or without effect.
func c27EFault(c *mc.Config) {
	begin()
	v := newView()
	if c.P["who"] == 1 {
		clientv3.Set(rpath("h1"), "1")
	}
	clientv3.Compact()
	nth, count := c.P["nth"], c.P["count"]
	n := 0
	clientv3.Fault = func(_ *clientv3.Client, req string) int {
		n++
		if n > nth && n <= nth+count {
			return c.P["how"]
		}
		return 0
	}
	if c.P["who"] == 1 {
		d, err := aetcd.NewDiscovery([]string{"etcd"}, ns+"/", v)
		clientv3.Fault = nil
		if err != nil {
			mc.Assert(d == nil, "a discovery and an error")
			mc.Assert(n > nth, "NewDiscovery fails: %v", err)
			clientv3.Set(rpath("h2"), "1")
			time.Sleep(time.Second)
			mc.Assert(v.size() == 0, "a discovery that failed adds services")
			mc.Assert(clientv3.Watchers() == 0, "a discovery that failed goes on watching")
			return
		}
		mc.Assert(d != nil, "neither a discovery nor an error")
		clientv3.Set(rpath("h2"), "1")
		time.Sleep(time.Second)
		v.same()
		return
	}
	edisc := func() {
		_, err := aetcd.NewDiscovery([]string{"etcd"}, ns+"/", v)
		mc.Assert(err == nil, "NewDiscovery fails: %v", err)
	}
	done := newLatch()
	var r *aetcd.Register
	var err error
	go func() {
		r, err = aetcd.NewRegister([]string{"etcd"}, rpath("h0"), "1", ttl)
		done.fire()
	}()
	done.wait()
	clientv3.Fault = nil
	edisc()
	if err == nil {
		mc.Assert(r != nil, "neither a register nor an error")
		time.Sleep(100 * time.Second)
		mc.Assert(v.has(rpath("h0")), "the registered service is not known")
	} else {
		mc.Assert(r == nil, "a register and an error")
		mc.Assert(n > nth, "NewRegister fails: %v", err)
		time.Sleep(100 * time.Second)
		mc.Assert(!v.has(rpath("h0")), "a registration that failed stays known")
	}
	// others can register all the same
	ok := false
	go func() {
		ereg("h1", "1")
		mc.Sync()
		ok = true
	}()
	time.Sleep(100 * time.Second)
	mc.Sync()
	mc.Assert(ok, "nobody else can register any more")
	mc.Assert(v.has(rpath("h1")), "the other service is not known")
	for k := range clientv3.Entries("") {
		mc.Assert(strings.HasPrefix(k, ns+"/"), "a lock is left behind: %v", k)
	}
}

// after Stop a discovery leaves its manager alone, and a register is gone.
func c27EStop(c *mc.Config) {
	begin()
	v := newView()
	d := edisc(v)
	r := ereg("h0", "1")
	time.Sleep(time.Second)
	mc.Assert(v.has(rpath("h0")), "the registered service is not known")
	if c.P["at"] == 1 {
		// the moment of a renewal
		time.Sleep(time.Second)
	}
	g := newGroup()
	switch c.P["how"] {
	case 0:
		mc.Assert(d.Stop() == nil, "Stop fails")
		mc.Idle()
		v.guard(rpath("h0"), true, false)
		v.guard(rpath("h1"), false, true)
		ereg("h1", "1")
		mc.Assert(r.Stop() == nil, "Stop fails")
	case 1:
		g.run(func() { mc.Assert(r.Stop() == nil, "Stop fails") })
		g.run(func() { ereg("h1", "1") })
	case 2:
		g.run(func() { d.Stop() })
		g.run(func() { r.Stop() })
	}
	g.wait()
	time.Sleep(100 * time.Second)
	_, left := clientv3.Entries(ns)[rpath("h0")]
	mc.Assert(!left, "the service is registered after Stop")
	if c.P["how"] == 1 {
		v.same()
	}
}
