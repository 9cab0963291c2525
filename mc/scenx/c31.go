package scenx

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"strings"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/middleware/coder/gzip"
	"github.com/lesismal/arpc/extension/middleware/coder/msgpack"
	"github.com/lesismal/arpc/extension/middleware/coder/tracing"
	mc "github.com/lesismal/arpc/zmc/mcrt"
	"github.com/opentracing/basictracer-go"
	opentracing "github.com/opentracing/opentracing-go"
)

// C31: the msgpack and tracing coders.

func init() {
	reg("C31", "messages", c31Messages, func(th bool) []mc.Config {
		b := 0
		if th {
			b = 1
		}
		return bound(cross("stack", rng(7), "async", i01, "bsend", i01, "pool", i01, "kind", rng(8)), b, b+1, th)
	})
	reg("C31", "huge", c31Messages, func(th bool) []mc.Config {
		return bound(cross("stack", rng(7), "async", i01, "kind", rng(8), "size", []int{1<<20 + 1, 3 << 20}), 0, 0, th)
	})
	reg("C31", "values", c31Values, func(th bool) []mc.Config {
		return bound(cross("stack", []int{0, 1, 5}, "async", i01, "back", i01), 0, 1, th)
	})
	reg("C31", "spans", c31Spans, func(th bool) []mc.Config {
		return bound(cross("stack", []int{2, 3, 4, 5, 6}, "async", i01, "kind", rng(4)), 0, 1, th)
	})
	reg("C31", "concurrent", c31Concurrent, func(th bool) []mc.Config {
		return bound(orders(cross("stack", rng(7), "async", i01, "bsend", i01, "pool", i01), 0, 1), 1, 2, th)
	})
	reg("C31", "raw", c31Raw, func(th bool) []mc.Config {
		return bound(cross("stack", rng(7), "pool", i01), 0, 0, th)
	})
	reg("C31", "api", c31API, func(th bool) []mc.Config {
		return bound(cross("x", []int{0}), 0, 0, th)
	})
}

func rng(n int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = i
	}
	return l
}

type noRecorder struct{}

func (noRecorder) RecordSpan(basictracer.RawSpan) {}

// stacks: 0 msgpack, 1 msgpack gzip, 2 tracing, 3 tracing gzip, 4 gzip tracing,
// 5 tracing msgpack, 6 tracing msgpack gzip
func c31Use(h arpc.Handler, c *mc.Config) *tracing.Tracer {
	var tr *tracing.Tracer
	for _, x := range []string{"m", "mg", "t", "tg", "gt", "tm", "tmg"}[c.Get("stack")] {
		switch x {
		case 'm':
			h.UseCoder(msgpack.New())
		case 'g':
			h.UseCoder(gzip.New(20))
		case 't':
			tr = tracing.NewTracer(noRecorder{})
			h.UseCoder(tr)
		}
	}
	return tr
}

type c31Pair struct {
	srv      *arpc.Server
	cli      *arpc.Client
	acc      *arpc.Client
	trC, trS *tracing.Tracer
}

func c31Handler(h arpc.Handler, c *mc.Config) {
	h.SetAsyncWrite(c.Get("async") == 1)
	h.SetBatchSend(c.Get("bsend") == 1)
	h.EnablePool(c.Get("pool") == 1)
	h.SetSendQueueSize(32)
	h.SetRecvBufferSize(512)
}

func newC31(c *mc.Config, set func(h arpc.Handler, p *c31Pair)) *c31Pair {
	begin()
	p := &c31Pair{srv: arpc.NewServer()}
	c31Handler(p.srv.Handler, c)
	p.trS = c31Use(p.srv.Handler, c)
	p.srv.Handler.HandleConnected(func(x *arpc.Client) { mc.Sync(); p.acc = x })
	set(p.srv.Handler, p)
	ln := mc.NewListener("srv", mc.NetConfig{})
	go p.srv.Serve(ln)
	mc.Idle()
	h := arpc.NewHandler()
	c31Handler(h, c)
	p.trC = c31Use(h, c)
	set(h, p)
	cli, err := arpc.NewClient(func() (net.Conn, error) {
		x, err := ln.Dial()
		if err != nil {
			return nil, err
		}
		return x, nil
	}, h)
	mc.Assert(err == nil, "dial: %v", err)
	p.cli = cli
	mc.Idle()
	mc.Sync()
	return p
}

func c31Bodies() []string {
	l := []string{"", "a", "\x00", "\xc0", "\x80", "\x82\xa4Body\xc4\x01x\xa6Values\xc0", "\xff\xff\xff", "hello", strings.Repeat("z", 31), strings.Repeat("y", 32), strings.Repeat("w", 255), strings.Repeat("v", 256), strings.Repeat("u", 5000), strings.Repeat("t", 70000)}
	b := make([]byte, 300)
	x := uint32(7)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	l = append(l, string(b), string(b[:32]), string(b[:100]))
	return l
}

// every kind of message with every body through every stack
func c31Messages(c *mc.Config) {
	type got struct{ method, body string }
	var in []got
	rec := func(ctx *arpc.Context) {
		mc.Sync()
		m := ctx.Message
		mc.Assert(m.BodyLen() == m.MethodLen()+len(ctx.Body()) && m.Len() == arpc.HeadLen+m.BodyLen(), "message of length %d, body length %d, with method %q and %d bytes", m.Len(), m.BodyLen(), m.Method(), len(ctx.Body()))
		in = append(in, got{m.Method(), string(ctx.Body())})
	}
	p := newC31(c, func(h arpc.Handler, p *c31Pair) {
		h.Handle("/echo", func(ctx *arpc.Context) { rec(ctx); ctx.Write(append([]byte{}, ctx.Body()...)) })
		h.Handle("/fail", func(ctx *arpc.Context) { rec(ctx); ctx.Error(string(ctx.Body())) })
		h.Handle("/note", func(ctx *arpc.Context) { rec(ctx) })
		h.HandleStream("/s", func(s *arpc.Stream) {
			v := []byte{}
			for s.Recv(&v) == nil {
				mc.Sync()
				in = append(in, got{"/s", string(v)})
				s.Send(append([]byte{}, v...))
			}
			s.CloseSendContext(context.Background())
		})
	})
	var body string
	if n := c.Get("size"); n > 0 {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i/1000) | 1
		}
		body = string(b)
	} else {
		bodies := c31Bodies()
		body = bodies[mc.Choose(len(bodies))]
	}
	kind := c.Get("kind")
	cli := p.cli
	method := "/note"
	if kind >= 4 {
		cli = p.acc
	}
	for round := 0; round < 2; round++ {
		mc.Sync()
		in = nil
		switch kind % 4 {
		case 0:
			method = "/echo"
			var r []byte
			err := cli.Call(method, body, &r, time.Hour)
			mc.Assert(err == nil && string(r) == body, "call with %q: %q, %v", short(body), short(string(r)), err)
		case 1:
			method = "/fail"
			err := cli.Call(method, body, nil, time.Hour)
			mc.Assert(err != nil && err.Error() == body, "failing call with %q: %v", short(body), err)
		case 2:
			method = "/note"
			if kind == 6 {
				p.srv.Broadcast(method, body)
			} else {
				mc.Assert(cli.Notify(method, body, time.Hour) == nil, "notify")
			}
		case 3:
			method = "/s"
			if body == "" {
				return
			}
			s := cli.NewStream(method)
			mc.Assert(s.Send(body) == nil, "send")
			s.CloseSendContext(context.Background())
			var r []byte
			err := s.Recv(&r)
			mc.Assert(err == nil && string(r) == body, "stream with %q: %q, %v", short(body), short(string(r)), err)
			err = s.Recv(&r)
			mc.Assert(err == io.EOF, "stream end: %v", err)
			s.CloseRecv()
		}
		mc.Idle()
		mc.Sync()
		mc.Assert(len(in) == 1 && in[0].method == method && in[0].body == body, "sent %s %q, received %s", method, short(body), short(fmt.Sprintf("%q", in)))
	}
}

func short(s string) string {
	if len(s) > 60 {
		return s[:60] + "..."
	}
	return s
}

type c31Bad struct{ C chan int }

// attached values arrive with the message and with nothing else; a set that
// cannot be encoded is left out without damage.
func c31Values(c *mc.Config) {
	var vals []map[interface{}]interface{}
	var body []string
	p := newC31(c, func(h arpc.Handler, p *c31Pair) {
		h.Handle("/v", func(ctx *arpc.Context) {
			mc.Sync()
			m := map[interface{}]interface{}{}
			for k, v := range ctx.Values() {
				m[k] = v
			}
			vals = append(vals, m)
			body = append(body, string(ctx.Body()))
			ctx.Write("ok:" + string(ctx.Body()))
		})
	})
	sets := []map[interface{}]interface{}{
		nil,
		{},
		{"k": "v"},
		{"k": "v", "l": "w"},
		{"k": ""},
		{"k": true},
		{"k": nil},
		{"k": []byte{1, 2}},
		{"bad": c31Bad{make(chan int)}},
		{"bad": make(chan int), "k": "v"},
		{strings.Repeat("K", 40): strings.Repeat("V", 300)},
	}
	cli := p.cli
	if c.Get("back") == 1 {
		cli = p.acc
	}
	n := 2
	for i := 0; i < n; i++ {
		s := sets[mc.Choose(len(sets))]
		mc.Sync()
		vals, body = nil, nil
		b := []string{"body" + itoa(i), ""}[mc.Choose(2)]
		r := ""
		var err error
		if s == nil {
			err = cli.Call("/v", b, &r, time.Hour)
		} else {
			x := map[interface{}]interface{}{}
			for k, v := range s {
				x[k] = v
			}
			err = cli.Call("/v", b, &r, time.Hour, x)
		}
		mc.Assert(err == nil && r == "ok:"+b, "call with values %v: %q, %v", s, r, err)
		mc.Idle()
		mc.Sync()
		mc.Assert(len(body) == 1 && body[0] == b, "with values %v the handler saw %q", s, body)
		bad := false
		for _, v := range s {
			switch v.(type) {
			case c31Bad, chan int:
				bad = true
			}
		}
		want := map[interface{}]interface{}{}
		if !bad {
			for k, v := range s {
				if v != nil {
					want[k] = v
				}
			}
		}
		mc.Assert(sameValues(want, vals[0]), "values %v arrived as %v", s, vals[0])
	}
}

func sameValues(a, b map[interface{}]interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok {
			return false
		}
		if x, ok := v.([]byte); ok {
			y, ok := w.([]byte)
			if !ok || !bytes.Equal(x, y) {
				return false
			}
			continue
		}
		if v != w {
			return false
		}
	}
	return true
}

func c31Contexts() []basictracer.SpanContext {
	return []basictracer.SpanContext{
		{},
		{TraceID: 1, SpanID: 2, Sampled: true},
		{TraceID: 1<<64 - 1, SpanID: 1 << 63, Sampled: false},
		{TraceID: 7, SpanID: 8, Sampled: true, Baggage: map[string]string{"a": "b"}},
		{TraceID: 7, SpanID: 9, Baggage: map[string]string{"": "", "k": strings.Repeat("x", 300)}},
	}
}

func sameSpan(a, b basictracer.SpanContext) bool {
	if a.TraceID != b.TraceID || a.SpanID != b.SpanID || a.Sampled != b.Sampled || len(a.Baggage) != len(b.Baggage) {
		return false
	}
	for k, v := range a.Baggage {
		if w, ok := b.Baggage[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// a span context given with a request is what the handler extracts, and a
// request without one has none.
func c31Spans(c *mc.Config) {
	type got struct {
		sc   opentracing.SpanContext
		err  error
		body string
	}
	var in []got
	var pp *c31Pair
	p := newC31(c, func(h arpc.Handler, p *c31Pair) {
		pp = p
		mine := h
		h.Handle("/v", func(ctx *arpc.Context) {
			mc.Sync()
			tr := p.trC
			if mine == p.srv.Handler {
				tr = p.trS
			}
			sc, err := tr.Extract(nil, ctx)
			in = append(in, got{sc, err, string(ctx.Body())})
			ctx.Write("ok")
		})
	})
	_ = pp
	scs := c31Contexts()
	vals := []map[interface{}]interface{}{nil, tracing.Values("not a span"), tracing.Values(c31Bad{})}
	for i := 0; i < 2; i++ {
		k := mc.Choose(len(scs) + len(vals))
		mc.Sync()
		in = nil
		var args []interface{}
		if k < len(scs) {
			args = append(args, tracing.Values(scs[k]))
		} else if v := vals[k-len(scs)]; v != nil {
			args = append(args, v)
		}
		b := strings.Repeat("b", 1+40*i)
		cli := p.cli
		if c.Get("kind")%2 == 1 {
			cli = p.acc
		}
		if c.Get("kind") < 2 {
			r := ""
			err := cli.Call("/v", b, &r, time.Hour, args...)
			mc.Assert(err == nil && r == "ok", "call: %q, %v", r, err)
		} else {
			mc.Assert(cli.Notify("/v", b, time.Hour, args...) == nil, "notify")
		}
		mc.Idle()
		mc.Sync()
		mc.Assert(len(in) == 1 && in[0].body == b, "the handler saw %v", in)
		if k < len(scs) {
			x, ok := in[0].sc.(basictracer.SpanContext)
			mc.Assert(in[0].err == nil && ok && sameSpan(x, scs[k]), "span context %+v extracted as %+v, %v", scs[k], in[0].sc, in[0].err)
		} else {
			mc.Assert(in[0].err == opentracing.ErrInvalidSpanContext && in[0].sc == nil, "no span context was sent, extracted %+v, %v", in[0].sc, in[0].err)
		}
	}
}

// concurrent requests with different bodies and values do not mix
func c31Concurrent(c *mc.Config) {
	p := newC31(c, func(h arpc.Handler, p *c31Pair) {
		h.Handle("/v", func(ctx *arpc.Context) {
			v, _ := ctx.Get("k")
			if p.trS != nil {
				if sc, err := p.trS.Extract(nil, ctx); err == nil {
					if x, ok := sc.(basictracer.SpanContext); ok {
						v = "t" + itoa(int(x.TraceID))
					}
				}
			}
			ctx.Write(fmt.Sprintf("%s/%v", ctx.Body(), v))
		})
	})
	g := newGroup()
	for i := 0; i < 2; i++ {
		i := i
		g.run(func() {
			b := strings.Repeat("b", 10+50*i)
			r, want := "", b+"/v"+itoa(i)
			m := map[interface{}]interface{}{"k": "v" + itoa(i)}
			if p.trC != nil {
				m = tracing.Values(basictracer.SpanContext{TraceID: uint64(i + 3)})
				want = b + "/t" + itoa(i+3)
			}
			err := p.cli.Call("/v", b, &r, time.Hour, m)
			mc.Assert(err == nil && r == want, "request %d: %q, %v", i, r, err)
		})
	}
	g.wait()
}

// frames that were never encoded do not crash or wedge the receiver
func c31Raw(c *mc.Config) {
	handled := 0
	begin()
	srv := arpc.NewServer()
	c31Handler(srv.Handler, c)
	c31Use(srv.Handler, c)
	srv.Handler.Handle("/n", func(ctx *arpc.Context) { mc.Sync(); handled++ })
	ln := mc.NewListener("srv", mc.NetConfig{})
	go srv.Serve(ln)
	mc.Idle()
	b, err := ln.Dial()
	mc.Assert(err == nil, "dial: %v", err)
	parts := []string{"", "\xc0", "\x80", "\x81", "\x82\xa4Body", "\x82\xa4Body\xc4\xff", "\x82\xa4Body\xc6\xff\xff\xff\x7f", "\x82\xa4Body\xc4\x02xy", "\x82\xa4Body\xc4\x02xy\xa6Values\x81", "\x82\xa4Body\xc4\x02xy\xa6Values\x81\x90\x01", "\x82\xa4Body\xc4\x02xy\xa6Values\xdf\xff\xff\xff\xff", "\x82\xa6Values\x81\xc4\x01x\x01\xa4Body\xc4\x09", "\xff\xff", "plain text", "\x00\x00", "\xff\xff\xff\xff\xff\xff", "x\x02\x00"}
	data := parts[mc.Choose(len(parts))]
	flag := []byte{0, 4, 8, 0x10, 0x20, 0x40, 0x80, 0xfc}[mc.Choose(8)]
	res := []byte{0, 1, 2, 4, 0xff}[mc.Choose(5)]
	hd := make([]byte, 16)
	binary.LittleEndian.PutUint32(hd, uint32(2+len(data)))
	hd[4], hd[5], hd[6], hd[7] = res, 3, flag, 2
	b.Write(append(append(hd, "/n"...), data...))
	mc.Idle()
	// a ping is still answered
	pg := make([]byte, 16)
	pg[5] = 4
	b.Write(pg)
	mc.Idle()
	u := b.Unread()
	mc.Assert(len(u) == 16 && u[5] == 5, "after a frame with body %q the ping was answered with % x", data, u)
	mc.Assert(handled <= 1, "handled %d times", handled)
}

// the tracer's conversions
func c31API(c *mc.Config) {
	begin()
	tr := tracing.NewTracer(noRecorder{})
	for _, sc := range c31Contexts() {
		b, err := tr.ValueToBytes(sc)
		mc.Assert(err == nil, "%+v: %v", sc, err)
		v, err := tr.BytesToValue(b)
		x, ok := v.(basictracer.SpanContext)
		mc.Assert(err == nil && ok && sameSpan(x, sc), "%+v became %+v, %v", sc, v, err)
		// other carriers are left to the tracer
		m := opentracing.TextMapCarrier{}
		mc.Assert(tr.Inject(sc, opentracing.TextMap, m) == nil, "inject")
		y, err := tr.Extract(opentracing.TextMap, m)
		z, ok := y.(basictracer.SpanContext)
		mc.Assert(err == nil && ok && sameSpan(z, sc), "%+v via text map: %+v, %v", sc, y, err)
	}
	_, err := tr.ValueToBytes("x")
	mc.Assert(err == opentracing.ErrInvalidSpanContext, "not a span context: %v", err)
	_, err = tr.BytesToValue([]byte{0xff, 0xff})
	mc.Assert(err == opentracing.ErrSpanContextCorrupted, "garbage: %v", err)
}
