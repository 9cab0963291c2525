package scenq

import (
	"bytes"
	"context"
	"errors"
	"io"
	"net"
	"time"

	"github.com/lesismal/arpc"
	aquic "github.com/lesismal/arpc/extension/protocol/quic"
	"github.com/lesismal/arpc/zmc/env/quic"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

func init() {
	reg("C28", "bytes", c28Bytes, func(th bool) []mc.Config {
		n := []int{1, 2, 3}
		if th {
			n = append(n, 4, 5)
		}
		return bound(cross("n", n, "back", i01, "window", []int{1, 2, 100}), 0, 0, th)
	})
	reg("C28", "sizes", c28Sizes, func(th bool) []mc.Config {
		cs := bound(cross("size", []int{100, 65535, 65536, 65537, 1 << 20, 8 << 20}, "read", []int{97, 4096, 1 << 20}, "window", []int{1 << 16, 1 << 24}, "back", []int{0, 1}), 0, 0, th)
		for i := range cs {
			cs[i].MaxSteps = 4000000
		}
		return cs
	})
	reg("C28", "duplex", c28Duplex, func(th bool) []mc.Config {
		return bound(orders(cross("n", []int{1, 2}, "window", []int{1, 100}, "g", []int{1, 2}), 0, 1), 2, 3, th)
	})
	reg("C28", "accept", c28Accept, func(th bool) []mc.Config {
		n := []int{1, 2, 3}
		if th {
			n = append(n, 4)
		}
		return bound(orders(cross("n", n), 0, 1), 1, 2, th)
	})
	reg("C28", "late", c28Late, func(th bool) []mc.Config {
		return bound(orders(cross("n", []int{1, 2, 3}, "timeout", []int{0, 1, 7200}, "wait", []int{0, 1, 10, 29}), 0, 1), 0, 1, th)
	})
	reg("C28", "closing", c28Closing, func(th bool) []mc.Config {
		return bound(orders(cross("dials", []int{0, 1, 2}, "accepters", []int{1, 2}), 0, 1), 2, 4, th)
	})
	reg("C28", "unblock", c28Unblock, func(th bool) []mc.Config {
		return bound(orders(cross("side", i01, "read", i01, "write", i01, "how", []int{0, 1, 2}), 0, 1), 3, 5, th)
	})
	reg("C28", "refuse", c28Refuse, func(th bool) []mc.Config {
		return bound(cross("what", []int{0, 1, 2, 3, 4, 5}), 0, 1, th)
	})
	reg("C28", "deadline", c28Deadline, func(th bool) []mc.Config {
		return bound(cross("side", i01, "what", []int{0, 1, 2}), 1, 2, th)
	})
	reg("C28", "rpc", c28RPC, func(th bool) []mc.Config {
		return bound(orders(cross("async", i01, "silent", i01, "end", []int{0, 1, 2}), 0, 1), 1, 2, th)
	})
}

func setup() net.Listener {
	begin()
	quic.Window = 1 << 16
	l, err := aquic.Listen("q", nil)
	mc.Assert(err == nil, "Listen: %v", err)
	return l
}

func dial() net.Conn {
	c, err := aquic.Dial("q", nil, nil, time.Second)
	mc.Assert(err == nil && c != nil, "Dial: %v", err)
	return c
}

// couple returns both ends of a connection.
func couple(l net.Listener) (net.Conn, net.Conn) {
	a := dial()
	n, err := a.Write([]byte("!"))
	mc.Assert(n == 1 && err == nil, "Write: %v %v", n, err)
	b, err := l.Accept()
	mc.Assert(err == nil, "Accept: %v", err)
	var x [1]byte
	n, err = b.Read(x[:])
	mc.Assert(n == 1 && err == nil && x[0] == '!', "Read: %v %v %v", n, err, x)
	mc.Assert(a.LocalAddr().String() == b.RemoteAddr().String() && a.RemoteAddr().String() == b.LocalAddr().String(), "addresses")
	return a, b
}

// all write sizes, read sizes, short reads and windows.
func c28Bytes(c *mc.Config) {
	a, b := couple(setup())
	if c.P["back"] == 1 {
		a, b = b, a
	}
	quic.Window = c.P["window"]
	quic.Short = func(n int) int { return n - mc.Choose(min(n, 2)) }
	var want []byte
	var sizes []int
	for i := 0; i < c.P["n"]; i++ {
		sizes = append(sizes, mc.Choose(4))
	}
	go func() {
		x := byte(0)
		for _, n := range sizes {
			p := make([]byte, n)
			for i := range p {
				x++
				p[i] = x
			}
			q := append([]byte{}, p...)
			k, err := a.Write(p)
			mc.Assert(k == n && err == nil, "Write of %v returns %v, %v", n, k, err)
			mc.Assert(bytes.Equal(p, q), "Write changes its data")
		}
		mc.Assert(a.Close() == nil, "Close fails")
	}()
	for x, n := byte(0), 0; n < len(sizes); n++ {
		for i := 0; i < sizes[n]; i++ {
			x++
			want = append(want, x)
		}
	}
	var got []byte
	r := 1 + mc.Choose(3)
	for {
		p := make([]byte, r)
		n, err := b.Read(p)
		got = append(got, p[:n]...)
		if err != nil {
			mc.Assert(err == io.EOF, "Read: %v", err)
			break
		}
	}
	mc.Assert(bytes.Equal(got, want), "read %v, written %v", got, want)
}

// large writes
func c28Sizes(c *mc.Config) {
	a, b := couple(setup())
	if c.P["back"] == 1 {
		a, b = b, a
	}
	quic.Window = c.P["window"]
	size := c.P["size"]
	read := c.P["read"]
	if size/read > 100000 {
		read = 4096
	}
	want := make([]byte, size)
	for i := range want {
		want[i] = byte(i*7 + i>>8 + i>>16)
	}
	go func() {
		for _, p := range [][]byte{want, []byte("end")} {
			k, err := a.Write(p)
			mc.Assert(k == len(p) && err == nil, "Write of %v returns %v, %v", len(p), k, err)
		}
		mc.Assert(a.Close() == nil, "Close fails")
	}()
	var got []byte
	p := make([]byte, read)
	for {
		n, err := b.Read(p)
		got = append(got, p[:n]...)
		if err != nil {
			mc.Assert(err == io.EOF, "Read: %v", err)
			break
		}
	}
	mc.Assert(string(got) == string(want)+"end", "%d bytes written, %d read, or altered", len(want)+3, len(got))
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// both directions at once, several writers each.
func c28Duplex(c *mc.Config) {
	a, b := couple(setup())
	quic.Window = c.P["window"]
	n, w := c.P["n"], c.P["g"]
	g := newGroup()
	for k, x := range []net.Conn{a, b} {
		for j := 0; j < w; j++ {
			k, x, j := k, x, j
			g.run(func() {
				for i := 0; i < n; i++ {
					p := []byte{byte(100*k + 10*j), byte(100*k + 10*j + 1)}
					m, err := x.Write(p)
					mc.Assert(m == 2 && err == nil, "Write: %v %v", m, err)
				}
			})
		}
		x, k := x, k
		g.run(func() {
			p := make([]byte, 2*n*w)
			m, err := io.ReadFull(x, p)
			mc.Assert(err == nil, "read %v bytes: %v", m, err)
			for i := 0; i < len(p); i += 2 {
				mc.Assert(int(p[i])/100 == 1-k && p[i+1] == p[i]+1, "writes are mixed: %v", p)
			}
		})
	}
	g.wait()
}

// peers of every kind: each usable one is accepted once, the others harm none.
func c28Accept(c *mc.Config) {
	l := setup()
	n := c.P["n"]
	var want int
	g := newGroup()
	var conns []net.Conn
	for i := 0; i < n; i++ {
		i := i
		kind := mc.Choose(5)
		if kind == 0 || kind == 4 {
			want++
		}
		g.run(func() {
			switch kind {
			case 0:
				x := dial()
				_, err := x.Write([]byte{byte(i)})
				mc.Assert(err == nil, "Write: %v", err)
				mc.Sync()
				conns = append(conns, x)
			case 1:
				// opens a stream but sends nothing
				dial()
			case 2:
				_, err := quic.DialAddr(context.Background(), "q", nil, nil)
				mc.Assert(err == nil, "DialAddr: %v", err)
			case 3:
				x, err := quic.DialAddr(context.Background(), "q", nil, nil)
				mc.Assert(err == nil, "DialAddr: %v", err)
				x.CloseWithError(7, "bye")
			case 4:
				x := dial()
				_, err := x.Write([]byte{byte(i)})
				mc.Assert(err == nil, "Write: %v", err)
				mc.Assert(x.Close() == nil, "Close fails")
			}
		})
	}
	seen := map[byte]bool{}
	ended := false
	done := newLatch()
	go func() {
		defer done.fire()
		for {
			x, err := l.Accept()
			mc.Sync()
			if err != nil {
				mc.Assert(ended, "Accept fails although the listener is open: %v", err)
				return
			}
			mc.Assert(!ended, "accepted after Close")
			var p [1]byte
			k, err := x.Read(p[:])
			mc.Assert(k == 1 && err == nil, "Read: %v %v", k, err)
			mc.Sync()
			mc.Assert(!seen[p[0]], "connection %v is accepted twice", p[0])
			seen[p[0]] = true
			x.Write(p[:])
		}
	}()
	g.wait()
	mc.Idle()
	mc.Assert(len(seen) == want, "%v of %v connections accepted", len(seen), want)
	for _, x := range conns {
		var p [1]byte
		k, err := x.Read(p[:])
		mc.Assert(k == 1 && err == nil && seen[p[0]], "Read: %v %v", k, err)
	}
	ended = true
	mc.Assert(l.Close() == nil, "Close fails")
	done.wait()
}

// connections that wait long to be accepted, dialed with any timeout.
func c28Late(c *mc.Config) {
	l := setup()
	n := c.P["n"]
	if c.P["wait"] == 1 {
		// Accept was called once already
		couple(l)
	}
	var l1 []net.Conn
	for i := 0; i < n; i++ {
		x, err := aquic.Dial("q", nil, nil, time.Duration(c.P["timeout"])*time.Second)
		mc.Assert(err == nil, "Dial: %v", err)
		_, err = x.Write([]byte{byte(i)})
		mc.Assert(err == nil, "Write: %v", err)
		l1 = append(l1, x)
	}
	time.Sleep(time.Duration(c.P["wait"]) * time.Second)
	if c.P["wait"] == 1 {
		time.Sleep(20 * time.Second)
	}
	seen := map[byte]bool{}
	for i := 0; i < n; i++ {
		y, err := l.Accept()
		mc.Assert(err == nil, "Accept: %v", err)
		var p [2]byte
		k, err := y.Read(p[:])
		mc.Assert(k == 1 && err == nil && !seen[p[0]], "Read: %v %v", k, err)
		seen[p[0]] = true
		y.Write(p[:1])
		x := l1[p[0]]
		k, err = x.Read(p[:])
		mc.Assert(k == 1 && err == nil, "Read: %v %v", k, err)
		x.Close()
		k, err = y.Read(p[:])
		mc.Assert(k == 0 && err == io.EOF, "Read: %v %v", k, err)
	}
}

// closing the listener while connections arrive and Accepts wait.
func c28Closing(c *mc.Config) {
	l := setup()
	g := newGroup()
	closed := false
	for i := 0; i < c.P["dials"]; i++ {
		g.run(func() {
			x, err := aquic.Dial("q", nil, nil, time.Second)
			if err == nil {
				x.Write([]byte("x"))
				// answered, or ended with the listener
				var p [1]byte
				n, err := x.Read(p[:])
				mc.Assert(err != nil || n == 1 && p[0] == 'y', "Read returns data nobody wrote")
			}
		})
	}
	for i := 0; i < c.P["accepters"]; i++ {
		g.run(func() {
			for {
				x, err := l.Accept()
				if err != nil {
					mc.Sync()
					mc.Assert(closed, "Accept fails although the listener is open: %v", err)
					return
				}
				mc.Assert(x != nil, "neither connection nor error")
				x.Write([]byte("y"))
				x.Close()
			}
		})
	}
	g.run(func() {
		closed = true
		mc.Sync()
		mc.Assert(l.Close() == nil, "Close fails")
	})
	g.wait()
	mc.Idle()
	_, err := l.Accept()
	mc.Assert(err != nil, "Accept succeeds after Close")
	mc.Idle()
	mc.Assert(mc.Live() == 0, "goroutines left: %v", mc.LiveDesc())
}

// Close, the peer's Close and the loss of the connection end blocked calls.
func c28Unblock(c *mc.Config) {
	a, b := couple(setup())
	if c.P["side"] == 1 {
		a, b = b, a
	}
	quic.Window = 2
	g := newGroup()
	if c.P["read"] == 1 {
		g.run(func() {
			var p [4]byte
			_, err := a.Read(p[:])
			mc.Assert(err != nil, "Read returns data nobody wrote")
			if c.P["how"] == 1 {
				mc.Assert(err == io.EOF, "Read returns %v when the peer closes, want EOF", err)
			}
		})
	}
	if c.P["write"] == 1 {
		g.run(func() {
			n, err := a.Write([]byte("more than the peer takes"))
			mc.Assert(err != nil && n <= 2, "Write: %v %v", n, err)
		})
	}
	if mc.Choose(2) == 1 {
		mc.Idle()
	}
	switch c.P["how"] {
	case 0:
		a.Close()
	case 1:
		b.Close()
	case 2:
		quic.Conns[0].Lose()
	}
	g.wait()
	// the end is final at this end
	a.Close()
	n, err := a.Write([]byte("x"))
	mc.Assert(n == 0 && err != nil, "Write after Close: %v %v", n, err)
	n, err = a.Read(make([]byte, 1))
	mc.Assert(n == 0 && err != nil, "Read after Close: %v %v", n, err)
}

// Dial and Listen report what fails and leave nothing behind.
func c28Refuse(c *mc.Config) {
	l := setup()
	switch c.P["what"] {
	case 0:
		t := mc.Elapsed()
		x, err := aquic.Dial("nowhere", nil, nil, 3*time.Second)
		mc.Assert(err != nil && x == nil, "Dial of nobody: %v %v", x, err)
		mc.Assert(mc.Elapsed()-t == 3*time.Second, "Dial gives up after %v, want 3s", mc.Elapsed()-t)
	case 1:
		quic.OpenFault = errors.New("too many streams")
		x, err := aquic.Dial("q", nil, nil, 3*time.Second)
		mc.Assert(err != nil && x == nil, "Dial without a stream: %v %v", x, err)
		for _, q := range quic.Conns {
			mc.Assert(q.Ended(), "a connection is left behind")
		}
	case 2:
		_, err := aquic.Listen("q", nil)
		mc.Assert(err != nil, "an address is listened on twice")
	case 3:
		l.Close()
		x, err := aquic.Dial("q", nil, nil, time.Second)
		mc.Assert(err != nil && x == nil, "Dial of a closed listener: %v %v", x, err)
		_, err = aquic.Listen("q", nil)
		mc.Assert(err == nil, "the address is not free again: %v", err)
	case 4, 5:
		quic.NoStreams = true
		m, err := aquic.Listen("mute", nil)
		mc.Assert(err == nil, "Listen: %v", err)
		t := mc.Elapsed()
		if c.P["what"] == 5 {
			go func() {
				time.Sleep(time.Second)
				for _, q := range quic.Conns {
					q.CloseWithError(0, "")
				}
			}()
		}
		x, err := aquic.Dial("mute", nil, nil, 3*time.Second)
		mc.Assert(err != nil && x == nil, "Dial of a peer that allows no stream: %v %v", x, err)
		mc.Assert(mc.Elapsed()-t == time.Duration(3-2*(c.P["what"]-4))*time.Second, "Dial gives up after %v", mc.Elapsed()-t)
		for _, q := range quic.Conns {
			mc.Assert(q.Ended(), "a connection is left behind")
		}
		m.Close()
	}
}

// deadlines end blocked calls in time and can be taken back.
func c28Deadline(c *mc.Config) {
	a, b := couple(setup())
	if c.P["side"] == 1 {
		a, b = b, a
	}
	quic.Window = 2
	t := time.Now().Add(5 * time.Second)
	switch c.P["what"] {
	case 0:
		a.SetReadDeadline(t)
	case 1:
		a.SetWriteDeadline(t)
	case 2:
		a.SetDeadline(t)
	}
	t0 := mc.Elapsed()
	g := newGroup()
	if c.P["what"] != 1 {
		g.run(func() {
			n, err := a.Read(make([]byte, 1))
			ne, ok := err.(net.Error)
			mc.Assert(n == 0 && ok && ne.Timeout(), "Read: %v %v", n, err)
			mc.Assert(mc.Elapsed()-t0 == 5*time.Second, "Read ends after %v", mc.Elapsed()-t0)
		})
	}
	if c.P["what"] != 0 {
		g.run(func() {
			n, err := a.Write([]byte("abcd"))
			ne, ok := err.(net.Error)
			mc.Assert(n == 2 && ok && ne.Timeout(), "Write: %v %v", n, err)
			mc.Assert(mc.Elapsed()-t0 == 5*time.Second, "Write ends after %v", mc.Elapsed()-t0)
		})
	}
	g.wait()
	a.SetDeadline(time.Time{})
	p := make([]byte, 4)
	if c.P["what"] != 0 {
		n, err := b.Read(p)
		mc.Assert(n == 2 && err == nil, "Read: %v %v", n, err)
	}
	n, err := a.Write([]byte("x"))
	mc.Assert(n == 1 && err == nil, "Write without deadline: %v %v", n, err)
	n, err = b.Write([]byte("y"))
	mc.Assert(n == 1 && err == nil, "Write: %v %v", n, err)
	n, err = a.Read(p)
	mc.Assert(n == 1 && err == nil && p[0] == 'y', "Read without deadline: %v %v", n, err)
}

// calls over the adapter, with peers that say nothing or go away.
func c28RPC(c *mc.Config) {
	l := setup()
	h := arpc.NewHandler()
	h.SetAsyncWrite(c.P["async"] == 1)
	s := &arpc.Server{}
	s = arpc.NewServer()
	s.Handler = h
	h.Handle("/x", func(ctx *arpc.Context) {
		var x string
		ctx.Bind(&x)
		ctx.Write(x + "!")
	})
	served := newLatch()
	go func() {
		s.Serve(l)
		served.fire()
	}()
	if c.P["silent"] == 1 {
		x, err := quic.DialAddr(context.Background(), "q", nil, nil)
		mc.Assert(err == nil, "DialAddr: %v", err)
		y, err := quic.DialAddr(context.Background(), "q", nil, nil)
		mc.Assert(err == nil, "DialAddr: %v", err)
		y.CloseWithError(0, "")
		_ = x
	}
	ch := arpc.NewHandler()
	ch.SetAsyncWrite(c.P["async"] == 1)
	cli, err := arpc.NewClient(func() (net.Conn, error) { return aquic.Dial("q", nil, nil, time.Second) }, ch)
	mc.Assert(err == nil, "NewClient: %v", err)
	g := newGroup()
	for i := 0; i < 2; i++ {
		i := i
		g.run(func() {
			var r string
			err := cli.Call("/x", itoa(i), &r, time.Hour)
			mc.Assert(err == nil && r == itoa(i)+"!", "Call: %q %v", r, err)
		})
	}
	g.wait()
	switch c.P["end"] {
	case 0:
		cli.Stop()
		s.Stop()
	case 1:
		s.Stop()
		served.wait()
		time.Sleep(time.Second)
		cli.Stop()
	case 2:
		quic.Conns[len(quic.Conns)-1].Lose()
		time.Sleep(5 * time.Second)
		var r string
		err := cli.Call("/x", "z", &r, time.Hour)
		mc.Assert(err == nil && r == "z!", "Call after reconnecting: %q %v", r, err)
		cli.Stop()
		s.Stop()
	}
	served.wait()
	time.Sleep(5 * time.Second)
	mc.Idle()
	mc.Assert(mc.Live() == 0, "goroutines left: %v", mc.LiveDesc())
}
