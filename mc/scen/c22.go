package scen

import (
	"errors"
	"net"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/micro"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

func init() {
	reg("C22", "history", c22History, func(th bool) []mc.Config {
		n := []int{2, 3, 4}
		if th {
			n = append(n, 5)
		}
		return bound(cross("", "n", n, "op0", []int{0, 1, 2, 3, 4}), 0, 0, th)
	})
	reg("C22", "weights", c22Weights, func(th bool) []mc.Config {
		return bound(cross("", "up", i01), 0, 1, th)
	})
	reg("C22", "race", c22Race, func(th bool) []mc.Config {
		return bound(orders(cross("", "nodes", []int{2, 3}, "healthy", []int{0, 1, 2}, "g", []int{2, 3}, "how", i01), 0, 1), 3, 4, th)
	})
	reg("C22", "change", c22Change, func(th bool) []mc.Config {
		return bound(orders(cross("", "op", []int{0, 1, 2, 3, 4, 5}, "w", []int{1, 2}), 0, 1), 2, 3, th)
	})
	reg("C22", "again", c22Again, func(th bool) []mc.Config {
		return bound(orders(cross("", "first", i01, "w", []int{1, 2}, "conc", i01, "del", i01), 0, 1), 2, 3, th)
	})
	reg("C22", "retry", c22Retry, func(th bool) []mc.Config {
		return bound(orders(cross("", "del", []int{0, 1, 2, 3}, "w", []int{1, 2}), 0, 1), 2, 3, th)
	})
}

// fleet hands out connections to nodes by address.
type fleet struct {
	sm    micro.ServiceManager
	down  map[string]bool
	mine  []*mc.Conn
	peers []*mc.Conn
	addr  []string
	dials int
}

func newFleet() *fleet {
	begin()
	c := &mc.Config{P: map[string]int{}}
	arpc.DefaultHandler = newHandler(c, "node")
	f := &fleet{down: map[string]bool{}}
	f.sm = micro.NewServiceManager(func(addr string) (net.Conn, error) {
		mc.Sync()
		f.dials++
		if f.down[addr] {
			return nil, errors.New("dial refused")
		}
		a, b := mc.Pipe(addr+"#"+itoa(len(f.mine)), mc.NetConfig{})
		f.mine = append(f.mine, a)
		f.peers = append(f.peers, b)
		f.addr = append(f.addr, addr)
		go answer(b)
		return a, nil
	})
	return f
}

// node returns the address a client is connected to.
func (f *fleet) node(c *arpc.Client) string {
	mc.Sync()
	for i, x := range f.mine {
		if c.Conn == net.Conn(x) {
			return f.addr[i]
		}
	}
	mc.Fail("a client of no node")
	return ""
}

// open counts the open connections to a node.
func (f *fleet) open(addr string) (n int) {
	mc.Sync()
	for i, x := range f.mine {
		if f.addr[i] == addr && !x.IsClosed() {
			n++
		}
	}
	return n
}

// cut ends all connections to a node from its side.
func (f *fleet) cut(addr string) {
	f.down[addr] = true
	for i, x := range f.peers {
		if f.addr[i] == addr {
			x.Close()
		}
	}
}

// every history of registering, deleting, losing and regaining nodes
func c22History(c *mc.Config) {
	f := newFleet()
	addrs := []string{"h1", "h2"}
	svcs := []string{"s", "t"}
	type key struct{ s, a string }
	regd := map[key]int{}
	hist := ""
	for i := 0; i < c.Get("n"); i++ {
		op, a, s := c.Get("op0"), addrs[0], svcs[0]
		if i > 0 { // the first one, by symmetry
			op = mc.Choose(5)
			a = addrs[mc.Choose(2)]
			if op < 3 {
				s = svcs[mc.Choose(2)]
			}
		}
		k := key{s, a}
		switch op {
		case 0, 1:
			w := op + 1
			hist += " +" + s + "/" + a + "*" + itoa(w)
			f.sm.AddServiceNodes("app/"+s+"/"+a, itoa(w))
			if regd[k] == 0 {
				regd[k] = w
			}
		case 2:
			hist += " -" + s + "/" + a
			f.sm.DeleteServiceNodes("app/" + s + "/" + a)
			delete(regd, k)
		case 3:
			hist += " down " + a
			f.cut(a)
		case 4:
			hist += " up " + a
			f.down[a] = false
		}
		time.Sleep(3 * time.Second) // retries and reconnects every second
		for _, s := range svcs {
			total, up := 0, 0
			for _, a := range addrs {
				if w := regd[key{s, a}]; w > 0 {
					total++
					if !f.down[a] {
						up += w
					}
				}
			}
			picks := map[string]int{}
			for j := 0; j < 2*up+1; j++ {
				cl, err := f.sm.ClientBy(s)
				switch {
				case total == 0:
					mc.Assert(err == micro.ErrServiceNotFound && cl == nil, "%s: service %s without nodes: %v", hist, s, err)
				case up == 0:
					mc.Assert(err == micro.ErrServiceUnreachable && cl == nil, "%s: service %s with no node connected: %v", hist, s, err)
				default:
					mc.Assert(err == nil && cl != nil && cl.CheckState() == nil, "%s: service %s: %v", hist, s, err)
					a := f.node(cl)
					mc.Assert(regd[key{s, a}] > 0, "%s: service %s returned node %s, which is not registered for it", hist, s, a)
					if j < 2*up {
						picks[a]++
					}
				}
			}
			for a, n := range picks {
				mc.Assert(n == 2*regd[key{s, a}], "%s: service %s: %d of %d picks went to %s of weight %d", hist, s, n, 2*up, a, regd[key{s, a}])
			}
		}
		for _, a := range addrs {
			want := 0
			for _, s := range svcs {
				if regd[key{s, a}] > 0 && !f.down[a] {
					want++
				}
			}
			mc.Assert(f.open(a) == want, "%s: %d connections to %s, want %d", hist, f.open(a), a, want)
		}
	}
	for _, s := range svcs {
		for _, a := range addrs {
			f.sm.DeleteServiceNodes("app/" + s + "/" + a)
		}
	}
	time.Sleep(3 * time.Second)
	mc.IdleAll()
	mc.Assert(f.open("h1")+f.open("h2") == 0, "%s: connections left after every node was deleted", hist)
	d := f.dials
	time.Sleep(time.Minute)
	mc.Assert(f.dials == d, "%s: a deleted node was dialed again", hist)
	mc.Assert(mc.Live() == 0, "%s: goroutines left: %s", hist, mc.LiveDesc())
}

func c22Weights(c *mc.Config) {
	f := newFleet()
	vals := []string{"1", "2", "3", "0", "-2", "x", "", "5"}
	want := []int{1, 2, 3, 1, 1, 1, 1, 5}
	i, j := mc.Choose(len(vals)), mc.Choose(len(vals))
	// paths that are no node
	for _, p := range []string{"", "app", "app/s"} {
		f.sm.AddServiceNodes(p, "1")
		f.sm.DeleteServiceNodes(p)
	}
	mc.Assert(f.dials == 0, "a path that names no node was dialed")
	if c.Get("up") == 0 {
		f.down["h1"] = true
	}
	f.sm.AddServiceNodes("app/s/h1", vals[i])
	f.sm.AddServiceNodes("app/s/h2", vals[j])
	f.sm.AddServiceNodes("app/other/h3", "1")
	f.down["h1"] = false
	time.Sleep(3 * time.Second)
	n := map[string]int{}
	for k := 0; k < 3*(want[i]+want[j]); k++ {
		cl, err := f.sm.ClientBy("s")
		mc.Assert(err == nil, "ClientBy: %v", err)
		n[f.node(cl)]++
	}
	mc.Assert(n["h1"] == 3*want[i] && n["h2"] == 3*want[j], "weights %q %q: picks %v", vals[i], vals[j], n)
	mc.Assert(f.open("h1") == 1 && f.open("h2") == 1, "connections: %d and %d", f.open("h1"), f.open("h2"))
	cl, err := f.sm.ClientBy("other")
	mc.Assert(err == nil && f.node(cl) == "h3", "other service: %v", err)
	usable(cl, "picked client")
}

// concurrent picks with one connected node
func c22Race(c *mc.Config) {
	f := newFleet()
	n, hm := c.Get("nodes"), c.Get("healthy")
	if hm >= n {
		return
	}
	for i := 0; i < n; i++ {
		a := "h" + itoa(i)
		if i != hm && c.Get("how") == 0 {
			f.down[a] = true // never connected
		}
		f.sm.AddServiceNodes("app/s/"+a, "1")
	}
	for i := 0; i < n; i++ {
		if i != hm && c.Get("how") == 1 {
			f.cut("h" + itoa(i)) // lost
		}
	}
	mc.Idle()
	g := newGroup()
	for k := 0; k < c.Get("g"); k++ {
		g.run(func() {
			cl, err := f.sm.ClientBy("s")
			mc.Assert(err == nil, "ClientBy with node %d of %d connected: %v", hm, n, err)
			mc.Assert(f.node(cl) == "h"+itoa(hm), "ClientBy returned node %s, only h%d is connected", f.node(cl), hm)
		})
	}
	g.wait()
}

// picks while the list changes
func c22Change(c *mc.Config) {
	f := newFleet()
	w := itoa(c.Get("w"))
	f.sm.AddServiceNodes("app/s/h0", w)
	op := c.Get("op")
	if op >= 2 {
		f.sm.AddServiceNodes("app/s/h1", w)
	}
	mc.Idle()
	gone := false
	g := newGroup()
	for k := 0; k < 2; k++ {
		g.run(func() {
			mc.Sync()
			was := gone
			cl, err := f.sm.ClientBy("s")
			mc.Assert(err == nil, "ClientBy with h0 connected throughout: %v", err)
			a := f.node(cl)
			mc.Assert(!was || a != "h1", "ClientBy returned a node deleted before")
		})
	}
	switch op {
	case 0, 1: // add
		if op == 1 {
			f.down["h1"] = true
		}
		f.sm.AddServiceNodes("app/s/h1", w)
	case 2, 3: // delete
		if op == 3 {
			f.cut("h1")
		}
		f.sm.DeleteServiceNodes("app/s/h1")
		mc.Sync()
		gone = true
	case 4:
		f.cut("h1")
	case 5: // other services
		f.sm.AddServiceNodes("app/t/h1", w)
		f.sm.DeleteServiceNodes("app/t/h0")
		f.sm.DeleteServiceNodes("app/t/h1")
	}
	g.wait()
	time.Sleep(3 * time.Second)
	for k := 0; k < 3; k++ {
		cl, err := f.sm.ClientBy("s")
		mc.Assert(err == nil, "ClientBy: %v", err)
		a := f.node(cl)
		mc.Assert(a == "h0" || op == 0 || op == 5, "ClientBy returned %s", a)
	}
	switch op {
	case 0, 5:
		mc.Assert(f.open("h1") == 1, "%d connections to h1", f.open("h1"))
	default:
		mc.Assert(f.open("h1") == 0, "%d connections to h1", f.open("h1"))
	}
	mc.Assert(f.open("h0") == 1, "%d connections to h0", f.open("h0"))
}

// registering the same node again
func c22Again(c *mc.Config) {
	f := newFleet()
	w := c.Get("w")
	if c.Get("first") == 1 {
		f.down["h"] = true
	}
	g := newGroup()
	add := func() { f.sm.AddServiceNodes("app/s/h", itoa(w)) }
	if c.Get("conc") == 1 {
		g.run(add)
		g.run(add)
	} else {
		add()
		mc.Sync()
		f.down["h"] = false
		add()
	}
	g.wait()
	mc.Sync()
	f.down["h"] = false
	time.Sleep(4 * time.Second)
	mc.Assert(f.open("h") == 1, "%d connections to a node registered twice", f.open("h"))
	cl, err := f.sm.ClientBy("s")
	mc.Assert(err == nil, "ClientBy: %v", err)
	usable(cl, "client")
	d := f.dials
	if c.Get("del") == 1 {
		f.sm.DeleteServiceNodes("app/s/h")
		time.Sleep(4 * time.Second)
		mc.Assert(f.open("h") == 0 && f.dials == d, "connections %d, dials %d after the node was deleted", f.open("h"), f.dials-d)
		_, err := f.sm.ClientBy("s")
		mc.Assert(err == micro.ErrServiceNotFound, "ClientBy: %v", err)
		mc.IdleAll()
		mc.Assert(mc.Live() == 0, "goroutines left: %s", mc.LiveDesc())
	} else {
		f.cut("h")
		f.down["h"] = false
		time.Sleep(4 * time.Second)
		mc.Assert(f.open("h") == 1, "%d connections to the node after a loss", f.open("h"))
	}
}

// a node that cannot be dialed at first; deleted around its retry
func c22Retry(c *mc.Config) {
	f := newFleet()
	w := itoa(c.Get("w"))
	f.down["h"] = true
	f.sm.AddServiceNodes("app/s/h", w)
	_, err := f.sm.ClientBy("s")
	mc.Assert(err == micro.ErrServiceUnreachable, "ClientBy: %v", err)
	f.down["h"] = false
	del := c.Get("del")
	time.Sleep(time.Second + time.Duration(del%2)*10*time.Millisecond) // at the retry, or at its end
	if del > 0 {
		f.sm.DeleteServiceNodes("app/s/h")
		if del == 3 {
			f.sm.AddServiceNodes("app/s/h", w)
		}
	}
	_, err = f.sm.ClientBy("s")
	if del == 1 || del == 2 {
		mc.Assert(err == micro.ErrServiceNotFound, "ClientBy: %v", err)
	}
	time.Sleep(5 * time.Second)
	want := 1
	if del == 1 || del == 2 {
		want = 0
	}
	mc.Assert(f.open("h") == want, "%d connections, want %d", f.open("h"), want)
	for k := 0; k < 3; k++ {
		cl, err := f.sm.ClientBy("s")
		if want == 0 {
			mc.Assert(err == micro.ErrServiceNotFound, "ClientBy: %v", err)
		} else {
			mc.Assert(err == nil && f.node(cl) == "h", "ClientBy: %v", err)
			usable(cl, "client")
		}
	}
	f.sm.DeleteServiceNodes("app/s/h")
	time.Sleep(5 * time.Second)
	mc.IdleAll()
	mc.Assert(f.open("h") == 0, "a connection to a deleted node is open")
	mc.Assert(mc.Live() == 0, "goroutines left: %s", mc.LiveDesc())
}
