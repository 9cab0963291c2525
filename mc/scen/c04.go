package scen

import (
	"fmt"
	"strings"

	"github.com/lesismal/arpc"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

func init() {
	reg("C04", "senders", c04Senders, func(th bool) []mc.Config {
		return cat(
			bound(cross("", "async", []int{0}, "mix", []int{0, 1, 2, 3}, "n", []int{2}, "side", i01), 2, 3, th),
			bound(cross("", "async", []int{1}, "bsend", []int{0}, "mix", []int{0, 1, 2, 3}, "n", []int{2}, "side", i01, "pool", i01), 2, 3, th),
			bound(orders(cross("", "async", []int{1}, "bsend", []int{1}, "sendbuf", []int{0, 1, 40, 4096}, "mix", []int{0, 1, 2, 3}, "n", []int{2}, "side", []int{0}, "pool", []int{0}), 0, 1), 2, 3, th),
			bound(cross("", "async", []int{1}, "bsend", []int{1}, "sendbuf", []int{40, 4096}, "mix", []int{0, 2}, "n", []int{2}, "side", []int{1}, "pool", []int{1}), 2, 3, th),
			bound(cross("", "async", []int{1}, "bsend", i01, "sendbuf", []int{40}, "mix", []int{0, 1}, "n", []int{3}, "side", []int{0}), 1, 2, th),
		)
	})
	reg("C04", "long", c04Senders, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "bsend", i01, "sendbuf", []int{0, 100000}, "mix", []int{0, 1}, "n", []int{2}, "side", []int{0}, "pool", i01, "long", []int{5000, 70000}), 0, 1), 1, 2, th)
	})
	reg("C04", "answers", c04Answers, func(th bool) []mc.Config {
		return bound(orders(cross("", "queue", []int{0, 1, 2}, "bsend", i01, "side", i01, "how", []int{0, 1, 2}, "limit", []int{20, 0}), 0, 1), 1, 2, th)
	})
	reg("C04", "slow", c04Senders, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "bsend", i01, "sendbuf", []int{0, 60}, "mix", []int{0, 2}, "n", []int{2}, "side", []int{0}, "limit", []int{7, 30}), 1, 2, th)
	})
	reg("C04", "recv", c04Recv, func(th bool) []mc.Config {
		return bound(cross("", "brecv", i01, "rbuf", []int{0, 16, 21}, "side", i01, "pool", i01, "dir", []int{0}), 2, 3, th)
	})
	reg("C04", "cuts", c04Cuts, func(th bool) []mc.Config {
		return bound(cross("", "brecv", i01, "rbuf", []int{0, 16, 21}, "side", i01, "pool", i01), 0, 0, th)
	})
	reg("C04", "e2e", c04E2E, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "bsend", i01, "sendbuf", []int{0, 100}, "pool", i01), 1, 2, th)
	})
	reg("C04", "sizes", c04Sizes, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "brecv", i01, "rbuf", []int{0, 16, 100}, "pool", i01, "sendbuf", []int{0, 3000}), 0, 0, th)
	})
}

// concurrent senders against a scripted peer that checks the byte stream
func c04Senders(c *mc.Config) {
	cli, b := endpointNet(c, c.Get("side"), nil, mc.NetConfig{BufLimit: c.Get("limit")})
	n := c.Get("n")
	mix := c.Get("mix")
	long := c.Get("long")
	const per = 2
	total := n * per
	done := make(chan struct{})
	type rec struct {
		frame
		from, idx int
	}
	pings := 0
	var st *arpc.Stream
	if mix == 3 {
		st = cli.NewStream("/st")
	}
	for i := 0; i < n; i++ {
		i := i
		go func() {
			for j := 0; j < per; j++ {
				p := fmt.Sprintf("%d.%d", i, j) + strings.Repeat("x", 3*i+j+long)
				var err error
				switch {
				case mix == 1 && (i+j)%2 == 0:
					err = cli.CallAsync("/a", p, func(*arpc.Context, error) {}, hour)
				case mix == 1:
					err = cli.PushMsg(cli.NewMessage(arpc.CmdNotify, "/n", p), arpc.TimeForever)
				case mix == 2 && i == 0:
					cli.Ping()
					err = cli.Notify("/n", p, hour)
				case mix == 3 && i == 0:
					err = st.Send(p)
				case (i+j)%2 == 0:
					err = cli.Notify("/n", p, hour)
				default:
					err = cli.NotifyContext(background(), "/n", p)
				}
				mc.Assert(err == nil, "send %s: %v", p, err)
			}
		}()
	}
	if mix == 2 {
		total += per
	}
	go func() {
		next := make([]int, n)
		for k := 0; k < total; k++ {
			f, err := readFrame(b)
			mc.Assert(err == nil, "byte stream: %v", err)
			if f.cmd == 4 {
				mc.Assert(f.method == "" && f.data == "" && f.seq == 0 && f.flag == 0 && f.reserved == 0, "ping frame %+v", f)
				pings++
				continue
			}
			var i, j int
			_, err = fmt.Sscanf(f.data, "%d.%d", &i, &j)
			mc.Assert(err == nil && i < n && j < per && f.data == fmt.Sprintf("%d.%d", i, j)+strings.Repeat("x", 3*i+j+long), "payload %.60q", f.data)
			mc.Assert(j == next[i], "sender %d: message %d arrived, expected %d", i, j, next[i])
			next[i]++
			cmd, method, flag := byte(3), "/n", byte(2)
			switch {
			case mix == 1 && (i+j)%2 == 0:
				cmd, method, flag = 1, "/a", 2
			case mix == 1:
				flag = 0
			case mix == 3 && i == 0:
				cmd, method, flag = 6|0x80, "/st", 0
			}
			mc.Assert(f.cmd == cmd && f.method == method && f.flag == flag && f.reserved == 0, "header of %.60q: %+v", f.data, f.cmd)
		}
		close(done)
	}()
	<-done
	mc.Idle()
	mc.Assert(len(b.Unread()) == 0, "extra bytes after all messages: % x", b.Unread())
	if mix == 2 {
		mc.Assert(pings == per, "%d pings arrived", pings)
	}
	mc.Assert(mc.Elapsed() == 0, "sending had to wait for a timer")
}

// synchronous handlers answer faster than the peer reads: the answers come
// in the order of the requests
func c04Answers(c *mc.Config) {
	c.P["async"] = 1
	_, b := endpointNet(c, c.Get("side"), func(h arpc.Handler) {
		h.Handle("/m", func(ctx *arpc.Context) {
			var err error
			switch c.Get("how") {
			case 0:
				err = ctx.Write("re:" + string(ctx.Body()))
			case 1:
				err = ctx.WriteWithTimeout("re:"+string(ctx.Body()), hour)
			case 2:
				err = ctx.Error("re:" + string(ctx.Body()))
			}
			mc.Assert(err == nil, "answer: %v", err)
		}, false)
	}, mc.NetConfig{BufLimit: c.Get("limit")})
	const n = 4
	go func() {
		for i := 0; i < n; i++ {
			b.Write((&frame{cmd: 1, method: "/m", seq: uint64(100 + i), data: "q" + itoa(i)}).bytes())
		}
	}()
	for i := 0; i < n; i++ {
		f := mustFrame(b)
		mc.Assert(f.cmd == 2 && f.seq == uint64(100+i) && f.data == "re:q"+itoa(i), "answer %d is %+v", i, f)
	}
	mc.Idle()
	mc.Assert(len(b.Unread()) == 0, "extra bytes")
}

// server under test receiving from a scripted peer; returns the events channel
func receiver(c *mc.Config, nc mc.NetConfig, got *evs) *mc.Conn {
	set := func(h arpc.Handler) {
		if v := c.Get("rbuf"); v > 0 {
			h.SetRecvBufferSize(v)
		}
		if c.Get("brecv") == 1 && c.Get("rbuf") > 0 {
			// a clone keeps the reader wrapper of the handler it was cloned from
			n := c.Get("rbuf")
			h.SetReaderWrapper(bufReader(n))
		}
		rec := func(ctx *arpc.Context) {
			m := ctx.Message
			got.add(fmt.Sprintf("%d %s %d %v %v %q", m.Cmd(), m.Method(), m.Seq(), m.IsAsync(), m.IsError(), string(m.Data())))
		}
		h.Handle("/a", rec, false)
		h.Handle("/b", rec, false)
		h.Handle(strings.Repeat("m", 127), rec, false)
	}
	_, b := endpointNet(c, c.Get("side"), set, nc)
	return b
}

var c04frames = []frame{
	{cmd: 3, method: "/a", seq: 1, data: ""},
	{cmd: 1, method: "/b", seq: 1 << 40, flag: 2, data: "hello"},
	{cmd: 4},
	{cmd: 3, method: "/b", seq: 3, data: "\x00\xff0123456789012345678901234567890123456789"},
	{cmd: 5},
	{cmd: 3, method: "/a", seq: 4, data: "z"},
}

func c04Expect(fs []frame) []string {
	var w []string
	for _, f := range fs {
		if f.cmd == 4 || f.cmd == 5 {
			continue
		}
		w = append(w, fmt.Sprintf("%d %s %d %v %v %q", f.cmd, f.method, f.seq, f.flag&2 != 0, f.flag&1 != 0, f.data))
	}
	return w
}

func c04Check(got *evs, want []string) {
	g := got.all()
	mc.Assert(len(g) == len(want), "dispatched %q, want %q", g, want)
	for i := range g {
		mc.Assert(g[i] == want[i], "dispatched %q, want %q", g, want)
	}
}

// reads may return any prefix (deviations)
func c04Recv(c *mc.Config) {
	got := &evs{}
	b := receiver(c, mc.NetConfig{Segment: true}, got)
	for _, f := range c04frames {
		b.Write(f.bytes())
	}
	mc.Idle()
	c04Check(got, c04Expect(c04frames))
}

// the byte stream arrives in two or three pieces, cut at every pair of places
func c04Cuts(c *mc.Config) {
	got := &evs{}
	b := receiver(c, mc.NetConfig{}, got)
	var all []byte
	for _, f := range c04frames {
		all = append(all, f.bytes()...)
	}
	i := mc.Choose(len(all))
	j := i + mc.Choose(4)*mc.Choose(8) // near and farther second cut
	if j > len(all) {
		j = len(all)
	}
	for _, p := range [][]byte{all[:i], all[i:j], all[j:]} {
		if len(p) > 0 {
			b.Write(p)
			mc.Idle()
		}
	}
	c04Check(got, c04Expect(c04frames))
}

// real client to real server, synchronous handlers
func c04E2E(c *mc.Config) {
	r := newRig(c)
	got := &evs{}
	rec := func(ctx *arpc.Context) {
		got.add(ctx.Message.Method() + ":" + string(ctx.Body()))
		if ctx.Message.Cmd() == arpc.CmdRequest {
			ctx.Write("re:" + string(ctx.Body()))
		}
	}
	r.srv.Handler.Handle("/a", rec, false)
	r.serve()
	cli := r.client(nil)
	g := newGroup()
	for i := 0; i < 2; i++ {
		i := i
		g.run(func() {
			p := "s" + itoa(i)
			mc.Assert(cli.Notify("/a", p+"0", hour) == nil, "notify")
			mc.Assert(cli.Notify("/a", p+"1", hour) == nil, "notify")
			rsp, err := call(cli, []int{kCall, kAsync}[i], "/a", p+"2")
			mc.Assert(err == nil && rsp == "re:"+p+"2", "call %q %v", rsp, err)
		})
	}
	g.wait()
	mc.Idle()
	next := [2]int{}
	l := got.all()
	mc.Assert(len(l) == 6, "dispatched %q", l)
	for _, x := range l {
		var i, j int
		_, err := fmt.Sscanf(x, "/a:s%1d%1d", &i, &j)
		mc.Assert(err == nil && x == fmt.Sprintf("/a:s%d%d", i, j) && next[i] == j, "dispatched %q", l)
		next[i]++
	}
}

// payload sizes around all buffer boundaries
func c04Sizes(c *mc.Config) {
	r := newRig(c)
	if v := c.Get("rbuf"); v > 0 {
		r.srv.Handler.SetReaderWrapper(bufReader(v))
	}
	lens := []int{0, 1, 15, 16, 17, 47, 48, 63, 64, 65, 83, 84, 85, 99, 100, 101, 2030, 2031, 2032, 2033, 4096, 8191, 8192, 8193, 65536, 70000}
	var want []string
	got := &evs{}
	r.srv.Handler.Handle("/a", func(ctx *arpc.Context) { got.add(string(ctx.Body())) }, false)
	r.serve()
	cli := r.client(nil)
	k := mc.Choose(len(lens))
	for j := 0; j < 3; j++ {
		n := lens[(k+j*7)%len(lens)]
		p := make([]byte, n)
		for i := range p {
			p[i] = byte(i*7 + j)
		}
		want = append(want, string(p))
		mc.Assert(cli.Notify("/a", p, hour) == nil, "notify")
	}
	mc.Idle()
	l := got.all()
	mc.Assert(len(l) == 3, "%d messages arrived", len(l))
	for i := range l {
		mc.Assert(l[i] == want[i], "payload of length %d arrived as length %d or with other content", len(want[i]), len(l[i]))
	}
}
