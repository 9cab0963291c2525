package scen

import (
	"encoding/binary"
	"errors"
	"fmt"
	"strings"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/middleware/coder"
	"github.com/lesismal/arpc/extension/middleware/coder/gzip"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

func init() {
	reg("C06", "frame", c06Frame, func(th bool) []mc.Config {
		return cat(
			bound(cross("", "side", i01, "coder", []int{0, 1, 2, 3}, "async", []int{1}, "pool", i01, "bits", []int{0, 1, 2, 3}), 0, 0, th),
			bound(cross("", "side", i01, "coder", []int{0}, "async", []int{0}, "pool", i01, "bits", []int{0, 1, 2, 3}), 0, 0, th),
		)
	})
	reg("C06", "length", c06Length, func(th bool) []mc.Config {
		return bound(cross("", "side", i01, "pool", i01, "brecv", i01), 0, 1, th)
	})
	reg("C06", "truncated", c06Truncated, func(th bool) []mc.Config {
		return bound(cross("", "side", i01, "pool", i01, "brecv", i01, "async", i01), 0, 1, th)
	})
	reg("C06", "sequence", c06Sequence, func(th bool) []mc.Config {
		d := 2
		if th {
			d = 3
		}
		return cat(
			bound(cross("", "side", i01, "async", i01, "depth", []int{d}, "act", []int{0}), 0, 0, th),
			bound(cross("", "side", i01, "async", []int{1}, "depth", []int{d}, "act", []int{1, 2}, "pool", i01), 0, 1, th),
		)
	})
	reg("C06", "others", c06Others, func(th bool) []mc.Config {
		return bound(cross("", "what", []int{0, 1, 2, 3, 4, 5}, "async", i01), 2, 3, th)
	})
}

// victim is an endpoint with routes, one pending call and a scripted peer.
type victim struct {
	c      *mc.Config
	cli    *arpc.Client
	b      *mc.Conn
	got    *evs
	misses *cnt
	disc   *cnt
	big    int // largest buffer asked for
}

const c06Max = 64

func newVictim(c *mc.Config) *victim {
	v := &victim{c: c, got: &evs{}, misses: &cnt{}, disc: &cnt{}}
	set := func(h arpc.Handler) {
		h.SetMaxBodyLen(c06Max)
		h.HandleSessionMiss(func(*arpc.Client, *arpc.Message) { v.misses.inc() })
		h.HandleDisconnected(func(*arpc.Client) { v.disc.inc() })
		switch c.Get("coder") {
		case 1:
			h.UseCoder(gzip.New(1 << 20))
		case 2:
			h.UseCoder(newAppender())
		case 3:
			h.UseCoder(newAppender())
			h.UseCoder(gzip.New(1 << 20))
		}
		if c.Get("pool") == 1 {
			h.HandleMalloc(func(n int) []byte {
				if n > v.big {
					v.big = n
				}
				return arpc.DefaultAllocator.Malloc(n)
			})
		} else {
			h.HandleMalloc(func(n int) []byte {
				if n > v.big {
					v.big = n
				}
				return make([]byte, n)
			})
		}
		h.Handle("/ok", func(ctx *arpc.Context) {
			v.got.add("ok:" + string(ctx.Body()))
			ctx.Write("re:" + string(ctx.Body()))
		}, false)
		h.Handle("/bindstruct", func(ctx *arpc.Context) {
			var s c05Struct
			v.got.add("bind:" + fmt.Sprint(ctx.Bind(&s) == nil))
		}, false)
		h.HandleStream("/st", func(st *arpc.Stream) {
			v.got.add("stream")
			switch c.Get("act") {
			case 1:
				for {
					s := ""
					if err := st.Recv(&s); err != nil {
						v.got.add("end")
						st.CloseSend()
						return
					}
					v.got.add("got:" + s)
				}
			case 2:
				st.CloseRecv()
				st.CloseSend()
			}
		}, true)
	}
	v.cli, v.b = endpoint(c, c.Get("side"), set)
	return v
}

func newAppender() *coder.Appender {
	return coder.NewAppender("ap", 1, func(v interface{}) ([]byte, error) {
		s, ok := v.(string)
		if !ok {
			return nil, errors.New("not a string")
		}
		return []byte(s), nil
	}, func(b []byte) (interface{}, error) { return string(b), nil })
}

// alive checks that a valid request is still served on the same connection.
func (v *victim) alive(what string) {
	before := v.got.count("ok:probe")
	v.b.Write((&frame{cmd: 1, method: "/ok", seq: 777, data: "probe"}).bytes())
	mc.Idle()
	mc.Assert(v.got.count("ok:probe") == before+1, "after %s a valid request of the same connection was not served (dispatched %v)", what, v.got)
	for {
		f, err := readFrame(v.b)
		mc.Assert(err == nil, "after %s: connection gone: %v", what, err)
		if f.cmd == 2 && f.seq == 777 {
			mc.Assert(f.data == "re:probe" && f.flag == 0, "after %s: answer %+v", what, f)
			return
		}
	}
}

// gone checks that the connection was closed.
func (v *victim) gone(what string) {
	mc.Idle()
	if !v.b.Peer().IsClosed() {
		mc.Fail("%s: connection not closed", what)
	}
	if v.c.Get("side") == 1 {
		mc.Assert(v.disc.get() == 1, "%s: disconnected callback ran %d times", what, v.disc.get())
	}
}

// one well-framed frame with every header combination of a small domain
func c06Frame(c *mc.Config) {
	v := newVictim(c)
	bits := []byte{0, 0x40, 0x80, 0xc0}
	cmd := byte(mc.Choose(9))
	if cmd == 8 {
		cmd = 0x3f
	}
	cmdByte := cmd | bits[c.Get("bits")]
	flag := byte(mc.Choose(4))
	if c.Get("coder") == 0 && mc.Choose(2) == 1 {
		flag |= 0xfc
	}
	res := byte(0)
	if c.Get("coder") != 0 {
		res = []byte{0, 2, 0x80, 0x82, 0xff}[mc.Choose(5)]
	}
	type mp struct {
		ml byte
		b  string
	}
	bodies := []mp{
		{0, ""}, {0, "/ok"}, {0, "\x00\x00"},
		{1, ""}, {4, "/ok"}, {200, "/ok"}, {127, "x"}, {128, strings.Repeat("m", 30)}, {255, strings.Repeat("m", 64)},
		{3, "/ok"}, {3, "/ok\x00\x03"}, {3, "/okapX\x00\x05"}, {3, "/ok\xff\xff"}, {3, "/okap\x00\x04"},
		{3, "/st"}, {3, "/stdata"}, {3, "/xx"}, {11, "/bindstruct{"},
	}
	b := bodies[mc.Choose(len(bodies))]
	seq := []uint64{0, 2, 1<<64 - 1}[mc.Choose(3)]
	raw := make([]byte, 16)
	binary.LittleEndian.PutUint32(raw, uint32(len(b.b)))
	raw[4], raw[5], raw[6], raw[7] = res, cmdByte, flag, b.ml
	binary.LittleEndian.PutUint64(raw[8:], seq)
	raw = append(raw, b.b...)
	what := fmt.Sprintf("frame % x", raw)
	v.b.Write(raw)
	mc.Idle()
	valid := b.ml > 0 && int(b.ml) <= len(b.b) && b.ml <= 127
	if res == 0 && c.Get("coder") == 0 && valid && (cmd == 0 || cmd > 6) {
		v.gone(what)
		return
	}
	if (cmd == 0 || cmd > 6) && v.b.Peer().IsClosed() {
		return // a coder changed whether the method is valid
	}
	if res == 0 && !valid && cmd != 4 && cmd != 5 {
		mc.Assert(len(v.got.all()) == 0, "%s: dispatched %v", what, v.got)
		mc.Assert(len(v.b.Unread()) == 0, "%s: answered with % x", what, v.b.Unread())
		mc.Assert(v.misses.get() == 0, "%s: session-miss callback ran %d times", what, v.misses.get())
	}
	v.alive(what)
	if c.Get("coder") == 0 && cmd == 2 && valid {
		mc.Assert(v.misses.get() == 1, "%s: session-miss callback ran %d times", what, v.misses.get())
	}
	if c.Get("side") == 1 {
		mc.Assert(v.disc.get() == 0, "%s: disconnected", what)
	}
}

// announced lengths around and above the limit
func c06Length(c *mc.Config) {
	v := newVictim(c)
	mc.Idle()
	lens := []uint32{c06Max - 1, c06Max, c06Max + 1, 2 * c06Max, 1 << 16, 1 << 24, 1 << 26, 1<<31 - 1, 1 << 31, 1<<31 + 5, 1<<32 - 16, 1<<32 - 1}
	n := lens[mc.Choose(len(lens))]
	hd := make([]byte, 16)
	binary.LittleEndian.PutUint32(hd, n)
	hd[5], hd[7] = 3, 3
	first := []int{4, 16}[mc.Choose(2)]
	v.big = 0
	v.b.Write(hd[:first])
	mc.Idle()
	what := fmt.Sprintf("announced body length %d", n)
	if n > c06Max {
		v.gone(what)
		mc.Assert(v.big == 0 || c.Get("side") == 0 && v.big <= 16+c06Max, "%s: a buffer of %d bytes was allocated", what, v.big)
		mc.Assert(len(v.got.all()) == 0, "%s: dispatched %v", what, v.got)
		return
	}
	mc.Assert(v.big <= 16+c06Max, "%s: allocated %d", what, v.big)
	v.b.Write(hd[first:])
	body := append([]byte("/ok"), make([]byte, int(n)-3)...)
	v.b.Write(body)
	mc.Idle()
	mc.Assert(len(v.got.all()) == 1, "%s: dispatched %v", what, v.got)
	v.alive(what)
}

// a valid byte stream truncated at every place, then closed
func c06Truncated(c *mc.Config) {
	v := newVictim(c)
	all := append((&frame{cmd: 3, method: "/ok", seq: 1, data: "one"}).bytes(), (&frame{cmd: 3, method: "/ok", seq: 2, data: "two"}).bytes()...)
	k := mc.Choose(len(all) + 1)
	v.b.Write(all[:k])
	if mc.Choose(2) == 0 {
		mc.Idle()
	}
	v.b.Close()
	v.gone(fmt.Sprintf("stream cut after %d bytes", k))
	want := k / (len(all) / 2)
	g := v.got.all()
	mc.Assert(len(g) == want, "cut after %d bytes: dispatched %v", k, g)
	if want > 0 {
		mc.Assert(g[0] == "ok:one", "dispatched %v", g)
	}
}

// sequences of protocol-violating but well-framed messages
func c06Sequence(c *mc.Config) {
	v := newVictim(c)
	res := make(chan string, 1)
	go func() {
		rsp, err := call(v.cli, kCall, "/mine", "q")
		res <- rsp + "|" + errStr(err)
	}()
	f := mustFrame(v.b)
	alpha := []frame{
		{cmd: 2, method: "/mine", seq: f.seq + 1, data: "bad"},
		{cmd: 2, method: "/mine", seq: f.seq, flag: 2, data: "bad"},
		{cmd: 2, method: "/mine", seq: f.seq + 1, flag: 3, data: "bad"},
		{cmd: 6, method: "/st", seq: 5, data: "x"},
		{cmd: 6 | 0x40, method: "/st", seq: 5, data: "y"},
		{cmd: 6 | 0x80, method: "/st", seq: 5, data: "d"},
		{cmd: 6 | 0x80 | 0x40, method: "/st", seq: 5},
		{cmd: 6 | 0x80 | 0x40, method: "/st", seq: 5, data: "e"},
		{cmd: 6 | 0x80, method: "/nostream", seq: 6, data: "e"},
		{cmd: 6 | 0x80, method: "/st", seq: 0, data: "e"},
		{cmd: 6 | 0x80, method: "/other", seq: 5, data: "f"},
		{cmd: 1, method: "/nomethod", seq: 5, data: "e"},
		{cmd: 3, method: "/nomethod", seq: 5, data: "e"},
		{cmd: 1, method: "/bindstruct", seq: 5, data: "{{{"},
		{cmd: 4, data: "payload"},
		{cmd: 5, method: "m"},
	}
	what := "sequence"
	for d := 0; d < c.Get("depth"); d++ {
		x := alpha[mc.Choose(len(alpha))]
		v.b.Write(x.bytes())
		what += fmt.Sprintf(" [cmd=%#x method=%s seq=%d flag=%d data=%q]", x.cmd, x.method, x.seq, x.flag, x.data)
		if c.Get("act") == 0 {
			mc.Idle()
		}
	}
	v.alive(what)
	v.b.Write((&frame{cmd: 2, method: "/mine", seq: f.seq, data: "good"}).bytes())
	r := <-res
	mc.Assert(r == "good|nil", "%s: the pending call returned %s", what, r)
}

// a hostile connection next to a healthy one
func c06Others(c *mc.Config) {
	r := newRig(c)
	r.srv.Handler.SetMaxBodyLen(c06Max)
	got := &evs{}
	r.srv.Handler.Handle("/ok", func(ctx *arpc.Context) {
		got.add(string(ctx.Body()))
		ctx.Write("re:" + string(ctx.Body()))
	}, false)
	r.srv.Handler.HandleStream("/st", func(st *arpc.Stream) {}, false)
	r.serve()
	g := newGroup()
	g.run(func() {
		b := r.raw()
		switch c.Get("what") {
		case 0:
			b.Write([]byte{0xff, 0xff, 0xff, 0xff})
		case 1:
			b.Write((&frame{cmd: 9, method: "/ok", data: "x"}).bytes())
		case 2:
			b.Write([]byte{5, 0, 0})
			b.Close()
		case 3:
			for i := 0; i < 8; i++ { // more than the stream's queue, never read
				b.Write((&frame{cmd: 6 | 0x80, method: "/st", seq: 9, data: "x"}).bytes())
			}
		case 4:
			b.Write((&frame{cmd: 2, method: "/ok", seq: 2, data: "x"}).bytes())
			b.Write((&frame{cmd: 2, method: "/ok", seq: 2, flag: 2, data: "x"}).bytes())
			b.Cut()
		case 5:
			b.SetLimit(1)
			b.Peer().SetLimit(1)
			for i := 0; i < 2; i++ {
				b.Inject((&frame{cmd: 1, method: "/ok", seq: 9, data: "h"}).bytes())
			}
		}
	})
	g.run(func() {
		cli := r.client(nil)
		rsp, err := call(cli, kCall, "/ok", "a")
		mc.Assert(err == nil && rsp == "re:a", "healthy connection: %q %v", rsp, err)
		rsp, err = call(cli, kCall, "/ok", "b")
		mc.Assert(err == nil && rsp == "re:b", "healthy connection: %q %v", rsp, err)
	})
	g.wait()
	mc.Idle()
	mc.Assert(got.count("a") == 1 && got.count("b") == 1, "served %v", got)
	mc.Assert(mc.Elapsed() == 0, "delayed %v", mc.Elapsed())
}
