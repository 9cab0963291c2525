package scen

import (
	"errors"
	"net"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/listener"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

func init() {
	reg("C23", "history", c23History, func(th bool) []mc.Config {
		n := []int{1, 2, 3, 4, 5}
		if th {
			n = append(n, 6, 7)
		}
		return bound(cross("", "n", n, "max", []int{0, 1, 2, 3}, "late", i01), 0, 0, th)
	})
	reg("C23", "race", c23Race, func(th bool) []mc.Config {
		return bound(orders(cross("", "max", []int{0, 1, 2}, "dials", []int{1, 2, 3}, "off", i01, "close", i01, "late", i01), 0, 1, 2), 3, 4, th)
	})
	reg("C23", "errors", c23Errors, func(th bool) []mc.Config {
		return bound(cross("", "temp", []int{1, 2, 3, 7, 9}, "end", []int{0, 1, 2}, "max", i01), 0, 1, th)
	})
	reg("C23", "full", c23Full, func(th bool) []mc.Config {
		return with(bound(cross("", "max", []int{0, 1, 5000}, "end", []int{0, 1}), 0, 0, th), func(c *mc.Config) { c.MaxSteps = 400000 })
	})
	reg("C23", "servers", c23Servers, func(th bool) []mc.Config {
		return bound(orders(cross("", "max", []int{0, 1, 2}, "drop", i01), 0, 1), 1, 2, th)
	})
}

// split is a splitting listener with a record of who got which connection.
type split struct {
	l    *listener.Listener
	sim  *mc.Listener
	got  [2][]net.Conn
	end  [2]error // what ended each side
	done *latch   // Run has returned
	runs bool
}

func newSplit(max int) *split {
	begin()
	l, err := listener.Listen("tcp", "split", max, "")
	mc.Assert(err == nil, "Listen failed: %v", err)
	s := &split{l: l, sim: mc.FindListener("split"), done: newLatch(), runs: true}
	mc.Assert(s.sim != nil && l.Addr().String() == "split", "the listener does not listen at the given address")
	go func() {
		l.Run()
		mc.Sync()
		s.runs = false
		s.done.fire()
	}()
	return s
}

// accept starts accepting at both sides.
func (s *split) accept() {
	a, b := s.l.Listeners()
	for i, x := range []net.Listener{a, b} {
		i, x := i, x
		mc.Assert(x.Addr().String() == "split", "side %d has address %v", i, x.Addr())
		go func() {
			for {
				c, err := x.Accept()
				mc.Sync()
				if err != nil {
					mc.Assert(c == nil, "side %d returned a connection and error %v", i, err)
					s.end[i] = err
					_, err = x.Accept()
					mc.Assert(errors.Is(err, net.ErrClosed), "accepting once more after the end of side %d: %v", i, err)
					return
				}
				s.got[i] = append(s.got[i], c)
			}
		}()
	}
}

// where returns the side that got a connection, 2 if it was closed unseen and
// 3 if neither; a connection that got two fates is a violation.
func (s *split) where(c *mc.Conn) int {
	mc.Sync()
	r, n := 3, 0
	for i, g := range s.got {
		for _, x := range g {
			if x == net.Conn(c) {
				r = i
				n++
			}
		}
	}
	mc.Assert(n <= 1, "a connection was handed out %d times", n)
	if c.IsClosed() {
		mc.Assert(n == 0, "a connection was handed to side %d and closed by the listener", r)
		return 2
	}
	return r
}

// every history of connections, offline reports, accept errors and the end
func c23History(c *mc.Config) {
	max := c.Get("max")
	s := newSplit(max)
	if c.Get("late") == 0 {
		s.accept()
	}
	online, hist := 0, ""
	var want []int
	ended := 0 // 1: permanent error, 2: closed
	for i := 0; i < c.Get("n"); i++ {
		k := 5
		if online == 0 {
			k = 4
		}
		switch mc.Choose(k) {
		case 0:
			hist += " dial"
			_, err := s.sim.Dial()
			if ended == 2 {
				mc.Assert(err != nil, "connecting succeeds after Close,%s", hist)
				continue
			}
			if ended == 1 {
				continue
			}
			if online < max {
				online++
				want = append(want, 0)
			} else {
				want = append(want, 1)
			}
		case 1:
			hist += " temp"
			s.sim.PushErr(tempErr{})
			if i == 0 {
				s.sim.PushErr(tempErr{})
			}
		case 2:
			hist += " perm"
			s.sim.PushErr(errors.New("broken for good"))
			if ended == 0 {
				ended = 1
			}
		case 3:
			hist += " close"
			if ended == 2 {
				return // another history of length n-1
			}
			err := s.l.Close()
			mc.Assert(err == nil, "Close failed: %v,%s", err, hist)
			ended = 2
		case 4:
			hist += " offline"
			if online > 0 {
				online--
			}
			s.l.OfflineA()
		}
		time.Sleep(3 * time.Second) // accept errors are retried within a second
		mc.IdleAll()
		mc.Sync()
		mc.Assert(s.runs == (ended == 0), "the accept loop runs: %v,%s", s.runs, hist)
	}
	if c.Get("late") == 1 {
		s.accept()
	}
	mc.IdleAll()
	for i, w := range want {
		mc.Assert(s.where(s.sim.Conns[i]) == w, "connection %d was handed to side %d, not %d,%s (limit %d)", i, s.where(s.sim.Conns[i]), w, hist, max)
	}
	mc.Sync()
	mc.Assert(len(s.got[0])+len(s.got[1]) == len(want), "%d connections handed out, %d made,%s", len(s.got[0])+len(s.got[1]), len(want), hist)
	order := [2]int{}
	for i, w := range want { // each side in order of arrival
		mc.Assert(s.got[w][order[w]] == net.Conn(s.sim.Conns[i]), "side %d got its connections out of order,%s", w, hist)
		order[w]++
	}
	for i, e := range s.end {
		if ended == 2 {
			mc.Assert(errors.Is(e, net.ErrClosed), "side %d reports %v after Close,%s", i, e, hist)
		} else {
			mc.Assert(e == nil, "side %d ended with %v,%s", i, e, hist)
		}
	}
	mc.Outcome(itoa(len(s.got[0])) + "/" + itoa(len(s.got[1])))
}

// connections, offline reports and Close at the same time
func c23Race(c *mc.Config) {
	max, n := c.Get("max"), c.Get("dials")
	s := newSplit(max)
	if c.Get("late") == 0 {
		s.accept()
	}
	g := newGroup()
	first := 0
	if c.Get("off") == 1 { // one online already, going offline meanwhile
		s.sim.Dial()
		mc.Idle()
		if max > 0 {
			first = 1
			g.run(s.l.OfflineA)
		}
	}
	g.run(func() {
		for i := 0; i < n; i++ {
			s.sim.Dial()
		}
	})
	if c.Get("close") == 1 {
		g.run(func() {
			err := s.l.Close()
			mc.Assert(err == nil, "Close failed: %v", err)
		})
	}
	g.wait()
	mc.IdleAll()
	if c.Get("late") == 1 {
		s.accept()
		mc.IdleAll()
	}
	inA, inB, closed := 0, 0, 0
	for i, x := range s.sim.Conns {
		switch s.where(x) {
		case 0:
			inA++
		case 1:
			inB++
		case 2:
			closed++
		default:
			mc.Fail("connection %d was neither handed out nor closed", i)
		}
	}
	total := len(s.sim.Conns)
	mc.Assert(inA <= max+first, "side A got %d connections, limit %d and %d offline reports", inA, max, first)
	if c.Get("close") == 0 {
		mc.Assert(closed == 0, "%d connections closed by an open listener", closed)
		lo := max
		if total < lo {
			lo = total
		}
		mc.Assert(inA >= lo, "side A got %d of %d connections, limit %d", inA, total, max)
		// with all reports in, the places left are exactly max-(inA-first)
		free := max - (inA - first)
		k := len(s.sim.Conns)
		for i := 0; i < free+1; i++ {
			s.sim.Dial()
		}
		mc.IdleAll()
		for i := 0; i < free+1; i++ {
			w := 0
			if i == free {
				w = 1
			}
			mc.Assert(s.where(s.sim.Conns[k+i]) == w, "with %d places free connection %d went to side %d", free, i, s.where(s.sim.Conns[k+i]))
		}
	} else {
		mc.Sync()
		mc.Assert(!s.runs, "the accept loop runs on after Close")
		mc.Assert(s.sim.IsClosed(), "the underlying listener is open after Close")
		for i, e := range s.end {
			mc.Assert(errors.Is(e, net.ErrClosed), "side %d reports %v after Close", i, e)
		}
	}
	mc.Outcome(itoa(inA) + "/" + itoa(inB) + "/" + itoa(closed))
}

// a run of transient errors, then a connection, a permanent error or Close
func c23Errors(c *mc.Config) {
	s := newSplit(c.Get("max"))
	s.accept()
	for round := 0; round < 2; round++ {
		for i := 0; i < c.Get("temp"); i++ {
			s.sim.PushErr([]error{tempErr{}, tempTimeout{}}[i&1])
		}
		switch c.Get("end") {
		case 0:
			s.sim.Dial()
		case 1:
			s.sim.Dial()
			s.sim.PushErr(errors.New("broken for good"))
		case 2:
			time.Sleep(30 * time.Millisecond) // in the middle
			err := s.l.Close()
			mc.Assert(err == nil, "Close failed: %v", err)
		}
		time.Sleep(time.Duration(c.Get("temp"))*time.Second + time.Second)
		mc.IdleAll()
		mc.Sync()
		switch c.Get("end") {
		case 0:
			mc.Assert(s.runs, "the accept loop ended on a transient error")
			mc.Assert(s.where(s.sim.Conns[round]) < 2, "no connection accepted after %d transient errors", c.Get("temp"))
		case 1:
			mc.Assert(!s.runs, "the accept loop runs on after a permanent error")
			mc.Assert(s.where(s.sim.Conns[0]) < 2, "no connection accepted after %d transient errors", c.Get("temp"))
			return
		case 2:
			mc.Assert(!s.runs, "the accept loop runs on after Close")
			return
		}
	}
}

// more connections than anyone accepts
func c23Full(c *mc.Config) {
	max := c.Get("max")
	s := newSplit(max)
	const n = 4200
	for i := 0; i < n; i++ {
		s.sim.Dial()
	}
	mc.Idle()
	if c.Get("end") == 1 {
		err := s.l.Close()
		mc.Assert(err == nil, "Close failed: %v", err)
		mc.IdleAll()
		mc.Assert(!s.runs, "the accept loop runs on after Close")
	}
	s.accept()
	mc.IdleAll()
	in := map[net.Conn]int{}
	for i, g := range s.got {
		for _, x := range g {
			_, dup := in[x]
			mc.Assert(!dup, "a connection was handed out twice")
			in[x] = i
		}
	}
	lost, closed := 0, 0
	for i, x := range s.sim.Conns {
		side, ok := in[x]
		switch {
		case ok && x.IsClosed():
			mc.Fail("connection %d was handed out and closed", i)
		case ok:
			w := 0
			if i >= max {
				w = 1
			}
			mc.Assert(side == w, "connection %d was handed to side %d, limit %d", i, side, max)
		case x.IsClosed():
			closed++
		default:
			lost++
		}
	}
	mc.Assert(lost == 0, "%d connections were neither handed out nor closed", lost)
	mc.Assert(closed == 0 || c.Get("end") == 1, "%d connections closed by an open listener", closed)
}

// two servers behind one address
func c23Servers(c *mc.Config) {
	max := c.Get("max")
	begin()
	l, err := listener.Listen("tcp", "split", max, "")
	mc.Assert(err == nil, "Listen failed: %v", err)
	sim := mc.FindListener("split")
	la, lb := l.Listeners()
	p := &mc.Config{P: map[string]int{}}
	for i, x := range []net.Listener{la, lb} {
		i, x := i, x
		srv := newServer(p)
		srv.Handler.Handle("who", func(ctx *arpc.Context) { ctx.Write(itoa(i)) })
		if i == 0 {
			srv.Handler.HandleDisconnected(func(*arpc.Client) { l.OfflineA() })
		}
		go srv.Serve(x)
	}
	go l.Run()
	var cls []*arpc.Client
	ask := func() int {
		cli, err := arpc.NewClient(dialer(sim), newHandler(p, "cli"))
		mc.Assert(err == nil, "NewClient failed: %v", err)
		cls = append(cls, cli)
		r, err := call(cli, 0, "who", "")
		mc.Assert(err == nil, "Call failed: %v", err)
		if r == "0" {
			return 0
		}
		return 1
	}
	for i := 0; i < 3; i++ {
		w := 0
		if i >= max {
			w = 1
		}
		mc.Assert(ask() == w, "client %d is served by the wrong side, limit %d", i, max)
	}
	if c.Get("drop") == 1 {
		cls[0].Stop()
		mc.Idle()
		w := 0
		if max == 0 {
			w = 1
		}
		mc.Assert(ask() == w, "after a client of the first side left, the next went to the wrong one, limit %d", max)
		mc.Assert(ask() == 1, "one client leaving freed two places, limit %d", max)
	}
}
