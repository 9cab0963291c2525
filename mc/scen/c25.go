package scen

import (
	"bytes"
	"errors"
	"io"
	"net/http"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/codec"
	"github.com/lesismal/arpc/extension/arpchttp"
	"github.com/lesismal/arpc/extension/middleware/coder"
	"github.com/lesismal/arpc/extension/middleware/coder/gzip"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

func init() {
	reg("C25", "frame", c25Frame, func(th bool) []mc.Config {
		return bound(cross("", "pool", i01, "coder", []int{0, 1, 2}, "cmd", rangeInts(10), "routes", i01), 0, 0, th)
	})
	reg("C25", "cut", c25Cut, func(th bool) []mc.Config {
		return bound(cross("", "pool", i01, "cmd", []int{1, 3, 4, 6, 7}, "coder", []int{0, 1, 2}), 0, 0, th)
	})
	reg("C25", "pair", c25Pair, func(th bool) []mc.Config {
		return bound(orders(cross("", "pool", i01, "a", []int{0, 1, 2, 3}, "b", []int{0, 1, 2, 3}), 0, 1), 2, 3, th)
	})
	reg("C25", "large", c25Large, func(th bool) []mc.Config {
		return bound(cross("", "pool", i01, "coder", []int{0, 1, 2}, "size", []int{496, 512, 1000, 1024, 2048, 4079, 4080, 4096, 8192, 32768, 65536, 70000, 1 << 20}), 0, 0, th)
	})
	reg("C25", "limit", c25Large, func(th bool) []mc.Config {
		return bound(cross("", "pool", i01, "coder", []int{0, 2}, "size", []int{0, 1, 100, 4096, 70000}, "room", []int{1, 2, 9, 16, 17, 20}), 0, 0, th)
	})
	reg("C25", "body", c25Body, func(th bool) []mc.Config {
		return bound(cross("", "kind", []int{0, 1, 2, 3, 4}), 0, 0, th)
	})
}

// page is a recording http.ResponseWriter.
type page struct {
	h    http.Header
	code int
	body []byte
	done bool
	fail bool
}

func (p *page) Header() http.Header { return p.h }
func (p *page) Write(b []byte) (int, error) {
	mc.Sync()
	mc.Assert(!p.done, "the response is written after the HTTP handler returned")
	if p.fail {
		return 0, errors.New("peer gone")
	}
	if p.code == 0 {
		p.code = 200
	}
	p.body = append(p.body, b...)
	return len(b), nil
}
func (p *page) WriteHeader(code int) { p.code = code }

type webBody struct {
	io.Reader
	closed int
}

func (b *webBody) Close() error { b.closed++; return nil }

// webPost sends a body to the bridge.
func webPost(h http.HandlerFunc, b []byte) *page {
	p := &page{h: http.Header{}}
	wb := &webBody{Reader: bytes.NewReader(append([]byte{}, b...))}
	h(p, &http.Request{Method: "POST", Body: wb})
	p.done = true
	return p
}

func c25Handler(c *mc.Config) arpc.Handler {
	h := arpc.NewHandler()
	setup(h, c)
	h.SetAsyncWrite(false)
	switch c.Get("coder") {
	case 1:
		h.UseCoder(gzip.New(1))
	case 2:
		h.UseCoder(coder.NewAppender("k", 5, func(v interface{}) ([]byte, error) { return []byte(v.(string)), nil }, func(b []byte) (interface{}, error) { return string(b), nil }))
	}
	if c.Get("routes") == 0 {
		h.Use(func(ctx *arpc.Context) { ctx.Set("k", "w") })
		h.Handle("/echo", func(ctx *arpc.Context) {
			mc.Assert(ctx.Client != nil, "no client")
			ctx.Write(append([]byte("re:"), ctx.Body()...))
		}, false)
		h.Handle("/fail", func(ctx *arpc.Context) { ctx.Error("no:" + string(ctx.Body())) }, false)
		h.Handle("/silent", func(ctx *arpc.Context) {}, false)
		h.Handle("/panic", func(ctx *arpc.Context) { panic("boom") }, false)
		h.Handle("/bind", func(ctx *arpc.Context) {
			m := map[string]int{}
			if err := ctx.Bind(&m); err != nil {
				ctx.Error("cannot bind")
				return
			}
			m["n"]++
			ctx.Write(m)
		}, false)
		h.HandleStream("/stream", func(s *arpc.Stream) { s.CloseSend() }, true)
		h.HandleStream("/sstream", func(s *arpc.Stream) { s.CloseSend() }, false)
	}
	return h
}

var c25Methods = []string{"/echo", "/fail", "/silent", "/panic", "/bind", "/nobody", "", "/stream", "/sstream"}
var c25Bodies = []string{"", "x", `{"n":1}`, "a longer body to be squeezed squeezed squeezed squeezed squeezed"}
var c25Flags = []byte{0, 1, 2, 4, 8, 3, 255}

// every frame over an alphabet, against the same frame on a connection
func c25Frame(c *mc.Config) {
	begin()
	h := c25Handler(c)
	web := arpchttp.Handler(h, codec.DefaultCodec)
	f := &frame{cmd: byte(c.Get("cmd")), method: c25Methods[mc.Choose(len(c25Methods))], data: c25Bodies[mc.Choose(len(c25Bodies))], flag: c25Flags[mc.Choose(len(c25Flags))]}
	f.seq = []uint64{0, 1, 1<<64 - 1}[mc.Choose(3)]
	if c.Get("cmd") == 9 {
		f.cmd = 0x86
	}
	p := webPost(web, f.bytes())
	mc.Idle()
	// the same on a connection
	a, b := mc.Pipe("p", mc.NetConfig{})
	_, err := arpc.NewClient(pipeDialer(a), h)
	mc.Assert(err == nil, "dial: %v", err)
	b.Write(f.bytes())
	mc.Idle()
	want := b.Unread()
	switch f.cmd {
	case 1, 4: // a ping is answered the same, too
		mc.Assert(bytes.Equal(p.body, want), "%+v: the bridge answers % x, a connection % x", *f, p.body, want)
		mc.Assert(p.code == 0 || p.code == 200, "status %d", p.code)
		if f.cmd == 1 && len(want) > 0 && c.Get("coder") == 0 {
			r, err := readFrame(bytes.NewReader(want))
			mc.Assert(err == nil && r.cmd == 2 && r.seq == f.seq, "%+v: answered %+v, %v", *f, r, err)
		}
		mc.Outcome(f.method + itoa(len(want)))
	default:
		mc.Assert(len(p.body) == 0, "%+v is answered % x", *f, p.body)
	}
}

// bodies of many sizes
func c25Large(c *mc.Config) {
	begin()
	h := c25Handler(c)
	web := arpchttp.Handler(h, codec.DefaultCodec)
	data := make([]byte, c.Get("size"))
	for i := range data {
		data[i] = byte(i*131 + i>>8)
	}
	f := &frame{cmd: 1, method: "/echo", data: string(data), seq: 3}
	if n := c.Get("room"); n > 0 {
		// not longer than allowed
		h.SetMaxBodyLen(len(f.method) + len(f.data) + n - 1)
	}
	p := webPost(web, f.bytes())
	a, b := mc.Pipe("p", mc.NetConfig{})
	_, err := arpc.NewClient(pipeDialer(a), h)
	mc.Assert(err == nil, "dial: %v", err)
	b.Write(f.bytes())
	mc.Idle()
	want := b.Unread()
	mc.Assert(bytes.Equal(p.body, want), "a body of %d bytes is answered with %d bytes, on a connection with %d", len(data), len(p.body), len(want))
	if c.Get("coder") == 0 {
		mc.Assert(bytes.Equal(p.body, (&frame{cmd: 2, method: "/echo", data: "re:" + f.data, seq: 3}).bytes()), "wrong answer")
	}
}

// frames cut short or with something after them, and wrong lengths
func c25Cut(c *mc.Config) {
	begin()
	h := c25Handler(c)
	web := arpchttp.Handler(h, codec.DefaultCodec)
	f := &frame{cmd: byte(c.Get("cmd")), method: c25Methods[mc.Choose(len(c25Methods))], data: "ab", flag: c25Flags[mc.Choose(len(c25Flags))], seq: 7}
	b := f.bytes()
	what := ""
	switch mc.Choose(3) {
	case 0:
		n := mc.Choose(len(b) + 1)
		b = b[:n]
		what = "cut"
	case 1:
		b = append(b, make([]byte, mc.Choose(20))...)
		what = "extended"
	case 2:
		b[7] = []byte{0, 1, byte(len(f.method) + 2), byte(len(f.method) + 3), 127, 128, 255}[mc.Choose(7)]
		what = "method length"
	}
	p := webPost(web, b)
	mc.IdleAll()
	if f.cmd != 1 && f.cmd != 4 {
		mc.Assert(len(p.body) == 0, "%s body % x is answered % x", what, b, p.body)
	}
	// and it still works
	ok := &frame{cmd: 1, method: "/echo", data: "z", seq: 9}
	if c.Get("coder") == 0 {
		p = webPost(web, ok.bytes())
		want := (&frame{cmd: 2, method: "/echo", data: "re:z", seq: 9}).bytes()
		mc.Assert(bytes.Equal(p.body, want), "after % x a request is answered % x", b, p.body)
	}
}

// two requests at the same time
func c25Pair(c *mc.Config) {
	begin()
	h := c25Handler(c)
	web := arpchttp.Handler(h, codec.DefaultCodec)
	g := newGroup()
	for i, k := range []int{c.Get("a"), c.Get("b")} {
		i, k := i, k
		g.run(func() {
			d := "d" + itoa(i)
			f := &frame{cmd: 1, method: "/echo", seq: uint64(i + 5), data: d}
			want := &frame{cmd: 2, method: "/echo", seq: f.seq, data: "re:" + d}
			switch k {
			case 1:
				f.method, want.method, want.data, want.flag = "/fail", "/fail", "no:"+d, 1
			case 2:
				f.method, want.method, want.data, want.flag = "/none", "/none", arpc.ErrMethodNotFound.Error(), 1
			case 3:
				f.cmd = 3
			}
			p := webPost(web, f.bytes())
			if k == 3 {
				mc.Assert(len(p.body) == 0, "a notification is answered % x", p.body)
			} else {
				mc.Assert(bytes.Equal(p.body, want.bytes()), "%+v is answered % x", *f, p.body)
			}
		})
	}
	g.wait()
}

type badReader struct{ n int }

func (r *badReader) Read(p []byte) (int, error) {
	if r.n == 0 {
		return 0, errors.New("connection reset")
	}
	r.n--
	p[0] = 1
	return 1, nil
}

// bodies that are missing or cannot be read, and answers that cannot be sent
func c25Body(c *mc.Config) {
	begin()
	h := c25Handler(c)
	ran := &cnt{}
	h.Handle("/count", func(ctx *arpc.Context) { ran.inc(); ctx.Write("x") }, false)
	web := arpchttp.Handler(h, codec.DefaultCodec)
	p := &page{h: http.Header{}}
	switch c.Get("kind") {
	case 0:
		web(p, &http.Request{Method: "GET"})
		mc.Assert(len(p.body) == 0 && p.code == 400, "a request without a body is answered %d % x", p.code, p.body)
	case 1:
		web(p, &http.Request{Method: "GET", Body: http.NoBody})
		mc.Assert(len(p.body) == 0, "an empty request is answered %d % x", p.code, p.body)
	case 2, 3:
		good := (&frame{cmd: 1, method: "/count", seq: 1}).bytes()
		n := mc.Choose(len(good) + 1)
		wb := &webBody{Reader: io.MultiReader(bytes.NewReader(good[:n]), &badReader{})}
		web(p, &http.Request{Method: "POST", Body: wb})
		mc.Assert(len(p.body) == 0 && p.code == 400, "a request whose body breaks off is answered %d % x", p.code, p.body)
		mc.Assert(ran.get() == 0, "a request whose body breaks off is handled")
		mc.Assert(wb.closed > 0, "the body is left open")
	case 4:
		p.fail = true
		web(p, &http.Request{Method: "POST", Body: &webBody{Reader: bytes.NewReader((&frame{cmd: 1, method: "/count", seq: 1}).bytes())}})
		mc.Assert(ran.get() == 1, "the request was handled %d times", ran.get())
	}
	mc.IdleAll()
}
