package scenx

import (
	"bufio"
	"bytes"
	"errors"
	"io"
	"net"
	"net/http"
	"time"

	gorilla "github.com/gorilla/websocket"
	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/protocol/websocket"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

func init() {
	reg("C26", "bytes", c26Bytes, func(th bool) []mc.Config {
		n := []int{1, 2, 3, 4}
		if th {
			n = append(n, 5, 6)
		}
		m := []int{1, 2, 3}
		if th {
			m = append(m, 4)
		}
		return bound(cat(cross("n", n, "back", i01, "empty", []int{0}), cross("n", m, "back", i01, "empty", []int{1})), 0, 0, th)
	})
	reg("C26", "sizes", c26Sizes, func(th bool) []mc.Config {
		cs := bound(cat(cross("size", []int{1<<20 + 1, 8 << 20, 40 << 20}, "read", []int{8192, 1 << 20}, "back", i01), cross("size", []int{1, 125, 126, 127, 4081, 4095, 4096, 4097, 8192, 65535, 65536, 65600}, "read", []int{1, 100, 4096, 8192, 70000}, "back", i01)), 0, 0, th)
		for i := range cs {
			cs[i].MaxSteps = 4000000
		}
		return cs
	})
	reg("C26", "writers", c26Writers, func(th bool) []mc.Config {
		return bound(orders(cat(cross("g", []int{2, 3}, "n", []int{1, 2}, "size", []int{2, 5000}, "back", i01),
			cross("g", []int{2}, "n", []int{1}, "size", []int{70000, 140000, 1100000}, "back", i01)), 0, 1), 2, 3, th)
	})
	reg("C26", "duplex", c26Duplex, func(th bool) []mc.Config {
		return bound(orders(cross("n", []int{1, 2}, "close", i01), 0, 1), 2, 3, th)
	})
	reg("C26", "accept", c26Accept, func(th bool) []mc.Config {
		n := []int{1, 2, 3, 4}
		if th {
			n = append(n, 5, 6)
		}
		return bound(cross("n", n), 0, 0, th)
	})
	reg("C26", "closing", c26Closing, func(th bool) []mc.Config {
		return bound(orders(cross("queued", i01, "dials", []int{0, 1}, "accepters", []int{1, 2}), 0, 1), 3, 4, th)
	})
	reg("C26", "refuse", c26Refuse, func(th bool) []mc.Config {
		return bound(cross("what", []int{0, 1, 2, 3}), 0, 0, th)
	})
	reg("C26", "rpc", c26RPC, func(th bool) []mc.Config {
		return bound(orders(cross("async", i01, "bsend", i01, "ping", i01), 0, 1), 1, 2, th)
	})
}

// web serves HTTP on simulated connections, just enough for an upgrade.
type web struct {
	ln      net.Listener
	h       http.HandlerFunc
	closing bool
	// ends of the connections dialed
	mine, peers []*mc.Conn
}

type hijacker struct {
	c    net.Conn
	brw  *bufio.ReadWriter
	code int
	hd   http.Header
	sent []byte
}

func (h *hijacker) Header() http.Header                          { return h.hd }
func (h *hijacker) Write(b []byte) (int, error)                  { h.sent = append(h.sent, b...); return len(b), nil }
func (h *hijacker) WriteHeader(code int)                         { h.code = code }
func (h *hijacker) Hijack() (net.Conn, *bufio.ReadWriter, error) { return h.c, h.brw, nil }

func newWeb() *web {
	begin()
	ln, err := websocket.Listen("127.0.0.1:80", nil)
	mc.Assert(err == nil, "Listen: %v", err)
	return &web{ln: ln, h: ln.(*websocket.Listener).Handler}
}

// dial connects and runs the HTTP side for this connection.
func (w *web) dial(network, addr string) (net.Conn, error) {
	mc.Sync()
	a, b := mc.Pipe("ws"+itoa(len(w.mine)), mc.NetConfig{})
	w.mine = append(w.mine, a)
	w.peers = append(w.peers, b)
	go func() {
		brw := bufio.NewReadWriter(bufio.NewReader(b), bufio.NewWriter(b))
		r, err := http.ReadRequest(brw.Reader)
		if err != nil {
			return
		}
		w.h(&hijacker{c: b, brw: brw, hd: http.Header{}}, r)
	}()
	return a, nil
}

func (w *web) client() net.Conn {
	c, err := websocket.Dial("ws://127.0.0.1:80/ws", &gorilla.Dialer{NetDial: w.dial})
	mc.Assert(err == nil, "Dial: %v", err)
	return c
}

// pair returns the two ends of a connection, the writing one first.
func (w *web) pair(back int) (net.Conn, net.Conn) {
	c := w.client()
	s, err := w.ln.Accept()
	mc.Assert(err == nil, "Accept: %v", err)
	mc.Idle()
	if back == 1 {
		return s, c
	}
	return c, s
}

// every split into writes, every sequence of read sizes
func c26Bytes(c *mc.Config) {
	wr, rd := newWeb().pair(c.Get("back"))
	text := "a\x00b\x00\x00\xff\n\x00"[:c.Get("n")]
	desc := ""
	// writing as much as chosen, then reading as much as chosen of it
	sent, got := "", ""
	msgs := []int{}
	for len(got) < len(text) {
		if len(sent) < len(text) && (len(sent) == len(got) || mc.Choose(2) == 0) {
			lo := 1
			if c.Get("empty") == 1 && len(msgs) < 2 {
				lo = 0
			}
			k := lo + mc.Choose(len(text)-len(sent)+1-lo)
			n, err := wr.Write([]byte(text[len(sent) : len(sent)+k]))
			desc += " w" + itoa(k)
			mc.Assert(err == nil && n == k, "Write of %d bytes returned %d, %v", k, n, err)
			sent += text[len(sent) : len(sent)+k]
			msgs = append(msgs, k)
			continue
		}
		k := 1 + mc.Choose(3)
		b := bytes.Repeat([]byte{'#'}, k+1)
		n, err := rd.Read(b[:k])
		desc += " r" + itoa(k)
		mc.Assert(err == nil && n >= 0 && n <= k, "Read into %d bytes returned %d, %v,%s", k, n, err, desc)
		mc.Assert(b[k] == '#', "Read wrote past its buffer,%s", desc)
		got += string(b[:n])
		mc.Assert(got == text[:len(got)] && len(got) <= len(sent), "read %q of %q,%s", got, sent, desc)
	}
	wr.Close()
	n, err := rd.Read(make([]byte, 4))
	for i := 0; i < 3 && err == nil && n == 0; i++ { // an empty message may be left
		n, err = rd.Read(make([]byte, 4))
	}
	mc.Assert(n == 0 && err != nil, "Read at the end returned %d, %v,%s", n, err, desc)
}

// message sizes around the boundaries of the framing
func c26Sizes(c *mc.Config) {
	wr, rd := newWeb().pair(c.Get("back"))
	size := c.Get("size")
	data := make([]byte, size)
	for i := range data {
		data[i] = byte(i*7 + i>>8)
	}
	for _, more := range [][]byte{data, []byte("end")} {
		n, err := wr.Write(more)
		mc.Assert(err == nil && n == len(more), "Write of %d bytes returned %d, %v", len(more), n, err)
	}
	data = append(data, "end"...)
	var got []byte
	b := make([]byte, c.Get("read"))
	for len(got) < len(data) {
		n, err := rd.Read(b)
		mc.Assert(err == nil && n <= len(b), "Read returned %d, %v", n, err)
		got = append(got, b[:n]...)
	}
	mc.Assert(bytes.Equal(got, data), "%d bytes arrive altered", len(data))
}

// several goroutines writing
func c26Writers(c *mc.Config) {
	wr, rd := newWeb().pair(c.Get("back"))
	g := newGroup()
	size := c.Get("size")
	for i := 0; i < c.Get("g"); i++ {
		i := i
		g.run(func() {
			for k := 0; k < c.Get("n"); k++ {
				b := bytes.Repeat([]byte{byte('a' + i)}, size)
				b[0] = byte('0' + k)
				n, err := wr.Write(b)
				mc.Assert(err == nil && n == size, "Write of %d bytes returned %d, %v", size, n, err)
			}
		})
	}
	g.wait()
	seen := map[byte]int{}
	for i := 0; i < c.Get("g")*c.Get("n"); i++ {
		b := make([]byte, size)
		_, err := io.ReadFull(rd, b)
		mc.Assert(err == nil, "Read: %v", err)
		who := b[1]
		for _, x := range b[1:] {
			mc.Assert(x == who, "the bytes of two writes are mixed")
		}
		mc.Assert(int(b[0]-'0') == seen[who], "write %c of goroutine %c arrives as number %d", b[0], who, seen[who])
		seen[who]++
	}
}

// both directions at the same time
func c26Duplex(c *mc.Config) {
	x, y := newWeb().pair(0)
	g := newGroup()
	for i, e := range []net.Conn{x, y} {
		i, e := i, e
		g.run(func() {
			for k := 0; k < c.Get("n"); k++ {
				_, err := e.Write([]byte{byte('a' + i), byte('0' + k)})
				mc.Assert(err == nil, "Write: %v", err)
			}
		})
		g.run(func() {
			b := make([]byte, 2*c.Get("n"))
			_, err := io.ReadFull(e, b)
			mc.Assert(err == nil, "Read: %v", err)
			for k := 0; k < c.Get("n"); k++ {
				mc.Assert(b[2*k] == byte('b'-i) && b[2*k+1] == byte('0'+k), "read %q", b)
			}
		})
	}
	g.wait()
	if c.Get("close") == 1 {
		g.run(func() {
			_, err := y.Read(make([]byte, 1))
			mc.Assert(err != nil, "Read succeeds on a closed connection")
		})
		g.run(func() { x.Close() })
		g.wait()
		_, err := x.Write([]byte("x"))
		mc.Assert(err != nil, "Write succeeds on a closed connection")
	}
}

// every history of connecting, accepting and closing
func c26Accept(c *mc.Config) {
	w := newWeb()
	hist := ""
	closed := false
	queued := 0
	var accepted []net.Conn
	addrs := map[string]bool{}
	for i := 0; i < c.Get("n"); i++ {
		switch mc.Choose(3) {
		case 0:
			hist += " dial"
			if _, err := websocket.Dial("ws://127.0.0.1:80/ws", &gorilla.Dialer{NetDial: w.dial}); err == nil && !closed {
				queued++
			}
			mc.Idle()
		case 1:
			if queued == 0 && !closed {
				return // it would block
			}
			hist += " accept"
			x, err := w.ln.Accept()
			if closed {
				mc.Assert(errors.Is(err, websocket.ErrClosed) && x == nil, "Accept after Close returned %v, %v,%s", x, err, hist)
				continue
			}
			mc.Assert(err == nil, "Accept: %v,%s", err, hist)
			queued--
			accepted = append(accepted, x)
			a := x.RemoteAddr().String()
			mc.Assert(!addrs[a], "a connection was handed out twice,%s", hist)
			addrs[a] = true
		case 2:
			hist += " close"
			err := w.ln.Close()
			mc.Assert(err == nil, "Close: %v", err)
			closed = true
		}
	}
	for _, x := range accepted { // accepted ones stay usable
		_, err := x.Write([]byte("hi"))
		mc.Assert(err == nil, "Write: %v,%s", err, hist)
	}
	mc.Outcome(itoa(len(accepted)) + "/" + itoa(queued))
}

// closing while others accept and connect
func c26Closing(c *mc.Config) {
	w := newWeb()
	for i := 0; i < c.Get("queued"); i++ {
		w.client()
	}
	mc.Idle()
	g := newGroup()
	addrs := map[string]bool{}
	closed := false
	for i := 0; i < c.Get("accepters"); i++ {
		g.run(func() {
			for {
				mc.Sync()
				after := closed
				x, err := w.ln.Accept()
				mc.Sync()
				if err != nil {
					mc.Assert(errors.Is(err, websocket.ErrClosed), "Accept: %v", err)
					mc.Assert(w.closing, "Accept reports the end of an open listener")
					return
				}
				mc.Assert(!after, "Accept begun after Close returned a connection")
				a := x.RemoteAddr().String()
				mc.Assert(!addrs[a], "a connection was handed out twice")
				addrs[a] = true
			}
		})
	}
	for i := 0; i < c.Get("dials"); i++ {
		g.run(func() {
			websocket.Dial("ws://127.0.0.1:80/ws", &gorilla.Dialer{NetDial: w.dial})
		})
	}
	g.run(func() {
		mc.Sync()
		w.closing = true
		w.ln.Close()
		mc.Sync()
		closed = true
	})
	g.wait()
}

// requests that are no upgrades
func c26Refuse(c *mc.Config) {
	w := newWeb()
	r, _ := http.NewRequest("GET", "http://127.0.0.1/ws", nil)
	switch c.Get("what") {
	case 1:
		r.Header.Set("Connection", "Upgrade")
	case 2:
		r.Header.Set("Connection", "Upgrade")
		r.Header.Set("Upgrade", "websocket")
	case 3:
		r.Header.Set("Connection", "Upgrade")
		r.Header.Set("Upgrade", "websocket")
		r.Header.Set("Sec-Websocket-Version", "12")
		r.Header.Set("Sec-Websocket-Key", "AAAAAAAAAAAAAAAAAAAAAA==")
	}
	h := &hijacker{hd: http.Header{}}
	w.h(h, r)
	mc.Assert(h.code >= 400, "a plain request is answered %d", h.code)
	x, y := w.pair(0)
	x.Write([]byte("a"))
	b := make([]byte, 1)
	n, err := y.Read(b)
	mc.Assert(n == 1 && err == nil && b[0] == 'a', "Read after a refused request: %d, %v", n, err)
}

// calls over the adapter
func c26RPC(c *mc.Config) {
	w := newWeb()
	srv := arpc.NewServer()
	set := func(h arpc.Handler) {
		h.SetAsyncWrite(c.Get("async") == 1)
		h.SetBatchSend(c.Get("bsend") == 1)
		h.SetSendQueueSize(32)
		h.SetRecvBufferSize(512)
	}
	set(srv.Handler)
	srv.Handler.Handle("echo", func(ctx *arpc.Context) { ctx.Write(append([]byte("re:"), ctx.Body()...)) })
	go srv.Serve(w.ln)
	h := arpc.NewHandler()
	set(h)
	cli, err := arpc.NewClient(func() (net.Conn, error) {
		return websocket.Dial("ws://127.0.0.1:80/ws", &gorilla.Dialer{NetDial: w.dial})
	}, h)
	mc.Assert(err == nil, "NewClient: %v", err)
	mc.Idle()
	g := newGroup()
	for i := 0; i < 2; i++ {
		i := i
		g.run(func() {
			rsp := ""
			err := cli.Call("echo", "q"+itoa(i), &rsp, time.Hour)
			mc.Assert(err == nil && rsp == "re:q"+itoa(i), "Call returned %q, %v", rsp, err)
		})
	}
	if c.Get("ping") == 1 {
		g.run(cli.Ping)
	}
	g.wait()
	mc.Idle()
}
