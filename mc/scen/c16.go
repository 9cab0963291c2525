package scen

import (
	"errors"
	"net"

	"github.com/lesismal/arpc"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

func init() {
	reg("C16", "health", c16Health, func(th bool) []mc.Config {
		return bound(cross("", "async", []int{1}, "n", []int{1, 2, 3}, "ctor", i01), 0, 1, th)
	})
	reg("C16", "race", c16Race, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", []int{1}, "n", []int{2, 3}, "healthy", []int{0, 1, 2}, "state", []int{1, 2}, "g", []int{2, 3}), 0, 1), 3, 4, th)
	})
	reg("C16", "even", c16Even, func(th bool) []mc.Config {
		return bound(cross("", "async", []int{1}, "n", []int{2, 3}), 3, 4, th)
	})
	reg("C16", "dying", c16Dying, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "how", []int{0, 1, 2}), 0, 1), 3, 4, th)
	})
	reg("C16", "create", c16Create, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "n", []int{1, 2, 3}, "ctor", i01), 0, 1), 1, 2, th)
	})
	reg("C16", "stop", c16Stop, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "n", []int{1, 2, 3}, "ctor", i01), 0, 1), 1, 2, th)
	})
}

// poolWorld hands out connections to the members of a pool.
type poolWorld struct {
	mine  []*mc.Conn // ends used by the clients
	peers []*mc.Conn
	owner []int
	fail  int // dial that fails (-1: none)
	dials int
	down  map[int]bool
}

func (w *poolWorld) dial(member int) (net.Conn, error) {
	mc.Sync()
	k := w.dials
	w.dials++
	if k == w.fail || w.down[member] {
		return nil, errors.New("dial refused")
	}
	a, b := mc.Pipe("m"+itoa(k), mc.NetConfig{})
	w.mine = append(w.mine, a)
	w.peers = append(w.peers, b)
	w.owner = append(w.owner, member)
	go answer(b)
	return a, nil
}

func newPoolWorld() *poolWorld {
	begin()
	return &poolWorld{fail: -1, down: map[int]bool{}}
}

func (w *poolWorld) make(c *mc.Config, n int) (*arpc.ClientPool, error) {
	h := newHandler(c, "cli")
	if c.Get("ctor") == 0 {
		i := -1
		return arpc.NewClientPool(func() (net.Conn, error) {
			mc.Sync()
			i++
			if i < n {
				return w.dial(i)
			}
			return nil, errors.New("dial refused") // members of this pool do not come back
		}, n, h)
	}
	var ds []arpc.DialerFunc
	for i := 0; i < n; i++ {
		i := i
		ds = append(ds, func() (net.Conn, error) { return w.dial(i) })
	}
	return arpc.NewClientPoolFromDialers(ds, h)
}

// set puts member i into a state: 0 connected, 1 stopped, 2 reconnecting.
func (w *poolWorld) set(p *arpc.ClientPool, i, st int) {
	switch st {
	case 1:
		p.Get(i).Stop()
	case 2:
		w.down[i] = true
		w.peers[i].Close()
	}
	mc.Idle()
}

func member(p *arpc.ClientPool, n int, x *arpc.Client) int {
	for i := 0; i < n; i++ {
		if p.Get(i) == x {
			return i
		}
	}
	mc.Fail("a client that is not in the pool was returned")
	return -1
}

func c16Health(c *mc.Config) {
	n := c.Get("n")
	w := newPoolWorld()
	p, err := w.make(c, n)
	mc.Assert(err == nil && p.Size() == n, "pool: %v", err)
	mc.Idle()
	for i := 0; i < 2*n+1; i++ {
		mc.Assert(p.Get(i) == p.Get(i%n), "Get(%d) is not Get(%d)", i, i%n)
		for j := 0; j < i && j < n && i < n; j++ {
			mc.Assert(p.Get(i) != p.Get(j), "members %d and %d are the same", i, j)
		}
	}
	for _, i := range []int{1 << 31, 1<<32 + 1, 1<<33 + 2, 1<<62 + 5, 1<<63 - 1} {
		mc.Assert(p.Get(i) == p.Get(i%n), "Get(%d) is not Get(%d)", i, i%n)
	}
	state := make([]int, n)
	alive := 0
	picks := make([]int, n)
	for phase := 0; phase < 2; phase++ {
		for k := mc.Choose(3); k > 0; k-- { // start somewhere
			picks[member(p, n, p.Next())]++
		}
		for i := range state {
			if state[i] == 0 {
				state[i] = mc.Choose(3)
				w.set(p, i, state[i])
			}
		}
		alive = 0
		for i := range state {
			picks[i] = 0
			if state[i] == 0 {
				alive++
			}
		}
		for k := 0; k < 3*n; k++ {
			x := p.Next()
			mc.Assert(x != nil, "Next returned nil")
			i := member(p, n, x)
			if alive > 0 {
				mc.Assert(state[i] == 0, "Next returned member %d in state %d with %d of %d connected (states %v)", i, state[i], alive, n, state)
			}
			picks[i]++
			if alive > 0 {
				lo, hi := 1<<30, 0
				for j := range state {
					if state[j] == 0 {
						if picks[j] < lo {
							lo = picks[j]
						}
						if picks[j] > hi {
							hi = picks[j]
						}
					}
				}
				mc.Assert(hi-lo <= 1, "picks %v after %d calls, states %v", picks, k+1, state)
			}
		}
		mc.Assert(p.Handler() == p.Get(0).Handler, "the pool's handler is another one")
	}
	if alive > 0 {
		usable(p.Next(), "picked client")
	}
}

// concurrent picks with only one connected member
func c16Race(c *mc.Config) {
	n, hm := c.Get("n"), c.Get("healthy")
	if hm >= n {
		return
	}
	c.P["ctor"] = 1
	w := newPoolWorld()
	p, err := w.make(c, n)
	mc.Assert(err == nil, "pool: %v", err)
	mc.Idle()
	for i := 0; i < n; i++ {
		if i != hm {
			w.set(p, i, c.Get("state"))
		}
	}
	g := newGroup()
	for k := 0; k < c.Get("g"); k++ {
		g.run(func() {
			i := member(p, n, p.Next())
			mc.Assert(i == hm, "Next returned member %d, only %d of %d is connected", i, hm, n)
		})
	}
	g.wait()
}

// concurrent picks with all members connected
func c16Even(c *mc.Config) {
	n := c.Get("n")
	c.P["ctor"] = 1
	w := newPoolWorld()
	p, err := w.make(c, n)
	mc.Assert(err == nil, "pool: %v", err)
	mc.Idle()
	got := &evs{}
	g := newGroup()
	for k := 0; k < 2; k++ {
		g.run(func() {
			for j := 0; j < n; j++ {
				got.add(itoa(member(p, n, p.Next())))
			}
		})
	}
	g.wait()
	for i := 0; i < n; i++ {
		mc.Assert(got.count(itoa(i)) == 2, "picks %v", got)
	}
}

// a member dies while clients are picked
func c16Dying(c *mc.Config) {
	c.P["ctor"] = 1
	w := newPoolWorld()
	p, err := w.make(c, 3)
	mc.Assert(err == nil, "pool: %v", err)
	mc.Idle()
	w.set(p, 2, 1) // stopped before
	g := newGroup()
	for k := 0; k < 2; k++ {
		g.run(func() {
			for j := 0; j < 2; j++ {
				i := member(p, 3, p.Next())
				mc.Assert(i != 2, "Next returned the stopped member")
			}
		})
	}
	switch c.Get("how") {
	case 0:
		p.Get(0).Stop()
	case 1:
		w.down[0] = true
		w.peers[0].Close()
	case 2:
		w.peers[0].Cut() // and comes back
	}
	g.wait()
	mc.Idle()
	for j := 0; j < 4; j++ {
		i := member(p, 3, p.Next())
		mc.Assert(i == 1 || i == 0 && c.Get("how") == 2, "Next returned member %d", i)
	}
}

// creating fails at every position
func c16Create(c *mc.Config) {
	n := c.Get("n")
	w := newPoolWorld()
	w.fail = mc.Choose(n+1) - 1
	p, err := w.make(c, n)
	if w.fail < 0 {
		mc.Assert(err == nil && p != nil && p.Size() == n, "pool: %v", err)
		for i := 0; i < n; i++ {
			usable(p.Get(i), "member")
		}
		p.Stop()
	} else {
		mc.Assert(err != nil && err.Error() == "dial refused" && p == nil, "failed dial: %v %v", p, err)
	}
	mc.IdleAll()
	for i, x := range w.mine {
		mc.Assert(x.IsClosed(), "connection %d of %d was left open", i, n)
	}
	mc.Assert(mc.Live() == 0, "goroutines left: %s", mc.LiveDesc())
	// nothing to dial
	if c.Get("ctor") == 1 {
		p, err := arpc.NewClientPoolFromDialers(nil)
		mc.Assert(err == arpc.ErrClientInvalidPoolDialers && p == nil, "no dialers: %v", err)
	}
}

// stopping stops every member, whatever its state
func c16Stop(c *mc.Config) {
	n := c.Get("n")
	w := newPoolWorld()
	p, err := w.make(c, n)
	mc.Assert(err == nil, "pool: %v", err)
	for i := 0; i < n; i++ {
		if st := mc.Choose(3); st > 0 {
			w.set(p, i, st)
		}
	}
	g := newGroup()
	g.run(func() { p.Next() })
	p.Stop()
	g.wait()
	mc.IdleAll()
	for i := 0; i < n; i++ {
		mc.Assert(p.Get(i).CheckState() == arpc.ErrClientStopped, "member %d: %v", i, p.Get(i).CheckState())
		stopped(p.Get(i), "member")
	}
	for i, x := range w.mine {
		mc.Assert(x.IsClosed(), "connection %d was left open", i)
	}
	mc.Assert(mc.Live() == 0, "goroutines left: %s", mc.LiveDesc())
}
