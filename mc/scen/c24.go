package scen

import (
	"context"
	"fmt"
	"io"
	"net"
	"sort"
	"strings"
	"time"

	"github.com/lesismal/arpc"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

func init() {
	reg("C24", "map", c24Map, func(th bool) []mc.Config {
		return cat(bound(orders(cross("", "g", []int{2}, "n", []int{1}, "k0", rangeInts(5), "had", i01), 0, 1), 3, 4, th),
			bound(cross("", "g", []int{2}, "n", []int{2}, "k0", rangeInts(5), "had", i01), 1, 2, th),
			bound(cross("", "g", []int{3}, "n", []int{1}, "k0", rangeInts(5), "had", i01), 2, 3, th))
	})
	reg("C24", "mapuse", c24MapUse, func(th bool) []mc.Config {
		return bound(orders(cross("", "with", []int{0, 1, 2, 3}), 0, 1), 3, 4, th)
	})
	reg("C24", "request", c24Request, func(th bool) []mc.Config {
		return bound(orders(cross("", "pool", i01, "route", i01, "async", i01, "bsend", i01, "conns", []int{1, 2}), 0, 1), 1, 2, th)
	})
	reg("C24", "caller", c24Caller, func(th bool) []mc.Config {
		return bound(orders(cross("", "pool", i01, "async", i01, "bsend", i01), 0, 1), 1, 2, th)
	})
	reg("C24", "clone", c24Clone, func(th bool) []mc.Config {
		return cat(bound(cross("", "base", []int{0, 1, 2}, "pre", i01, "n", []int{1}, "m0", rangeInts(2*len(c24Ops))), 0, 0, th),
			bound(cross("", "base", []int{0, 1}, "pre", []int{0}, "n", []int{2}, "m0", rangeInts(2*len(c24Ops))), 0, 0, th),
			// tables with spare room, and empty ones
			bound(cross("", "base", []int{3, 4, 5, 6, 7}, "pre", i01, "n", []int{2}, "few", []int{1}, "m0", rangeInts(10)), 0, 0, th))
	})
}

func rangeInts(n int) (l []int) {
	for i := 0; i < n; i++ {
		l = append(l, i)
	}
	return l
}

type kvOp struct {
	kind, key, val int // kind: 0 set, 1 get, 2 delete
	got            int // value read, -1 for none
	call, ret      int
}

// linearizable reports whether the operations have an order that respects
// real time and explains every value read.
func linearizable(ops []*kvOp, state map[int]int, used int) bool {
	if used == 1<<len(ops)-1 {
		return true
	}
	for i, o := range ops {
		if used&(1<<i) != 0 {
			continue
		}
		ok := true
		for j, x := range ops {
			if used&(1<<j) == 0 && x.ret < o.call {
				ok = false
			}
		}
		if !ok {
			continue
		}
		old, had := state[o.key]
		switch o.kind {
		case 0:
			state[o.key] = o.val
		case 1:
			if (had && o.got != old) || (!had && o.got != -1) {
				continue
			}
		case 2:
			delete(state, o.key)
		}
		if linearizable(ops, state, used|1<<i) {
			return true
		}
		if had {
			state[o.key] = old
		} else {
			delete(state, o.key)
		}
	}
	return false
}

// all programs of a few goroutines using a client's values
func c24Map(c *mc.Config) {
	cli, _ := scripted(c, nil)
	other, _ := scripted(c, nil)
	keys := []interface{}{"a", 2}
	mc.Idle()
	clock := 0
	now := func() int { mc.Sync(); clock++; return clock }
	do := func(o *kvOp) {
		o.call = now()
		switch o.kind {
		case 0:
			cli.Set(keys[o.key], o.val)
		case 1:
			v, ok := cli.Get(keys[o.key])
			o.got = -1
			if ok {
				o.got = v.(int)
			} else {
				mc.Assert(v == nil, "Get returned %v for a missing key", v)
			}
		case 2:
			cli.Delete(keys[o.key])
		}
		o.ret = now()
	}
	var ops []*kvOp
	kinds := []kvOp{{kind: 0, key: 0}, {kind: 1, key: 0}, {kind: 2, key: 0}, {kind: 0, key: 1}, {kind: 1, key: 1}}
	if c.Get("had") == 1 { // a value is there already
		o := &kvOp{kind: 0, key: 0, val: 100}
		ops = append(ops, o)
		do(o)
	}
	g := newGroup()
	for i := 0; i < c.Get("g"); i++ {
		var mine []*kvOp
		for j := 0; j < c.Get("n"); j++ {
			k := c.Get("k0")
			if i+j > 0 {
				k = mc.Choose(len(kinds))
			}
			o := kinds[k]
			o.val = 10*i + j
			mine = append(mine, &o)
			ops = append(ops, &o)
		}
		g.run(func() {
			for _, o := range mine {
				do(o)
			}
		})
	}
	g.wait()
	for k := range keys {
		o := &kvOp{kind: 1, key: k}
		ops = append(ops, o)
		do(o)
	}
	if !linearizable(ops, map[int]int{}, 0) {
		d := ""
		for _, o := range ops {
			d += fmt.Sprintf(" [%d-%d %s key%d val%d got%d]", o.call, o.ret, []string{"set", "get", "delete"}[o.kind], o.key, o.val, o.got)
		}
		mc.Fail("no sequential order explains%s", d)
	}
	for _, k := range keys {
		_, ok := other.Get(k)
		mc.Assert(!ok, "a value set on one client shows on another")
	}
}

// values together with other uses of the client
func c24MapUse(c *mc.Config) {
	cli, b := scripted(c, nil)
	cli.Set("k", 1)
	cli.Set(nil, 1)
	cli.Set("n", nil)
	g := newGroup()
	g.run(func() {
		for i := 2; i < 4; i++ {
			cli.Set("k", i)
			v, ok := cli.Get("k")
			mc.Assert(ok && v == i, "Get returned %v, %v after Set(%d)", v, ok, i)
		}
		cli.Delete("k")
		_, ok := cli.Get("k")
		mc.Assert(!ok, "Get finds a deleted key")
		cli.Set("k", 5)
	})
	switch c.Get("with") {
	case 0:
		go answer(b)
		g.run(func() {
			r, err := call(cli, 0, "m", "x")
			mc.Assert(err == nil, "Call: %q, %v", r, err)
		})
	case 1:
		g.run(cli.Stop)
	case 2:
		g.run(b.Cut)
	case 3:
		g.run(func() { cli.Set("o", 1); cli.Delete("o") })
	}
	g.wait()
	mc.Idle()
	v, ok := cli.Get("k")
	mc.Assert(ok && v == 5, "Get returned %v, %v at the end", v, ok)
	_, ok = cli.Get("n")
	mc.Assert(!ok, "a nil value is kept")
	_, ok = cli.Get("o")
	mc.Assert(!ok, "a deleted value is kept")
}

type tapCoder struct {
	enc, dec func(m *arpc.Message)
}

func (t *tapCoder) Encode(c *arpc.Client, m *arpc.Message) *arpc.Message {
	if t.enc != nil {
		t.enc(m)
	}
	return m
}

func (t *tapCoder) Decode(c *arpc.Client, m *arpc.Message) *arpc.Message {
	if t.dec != nil {
		t.dec(m)
	}
	return m
}

func one(get func(interface{}) (interface{}, bool), k string) string {
	v, ok := get(k)
	if !ok {
		return "none"
	}
	return v.(string)
}

// values set while requests are handled
func c24Request(c *mc.Config) {
	r := newRig(c)
	h := r.srv.Handler
	h.UseCoder(&tapCoder{
		dec: func(m *arpc.Message) {
			mc.Assert(len(m.Values()) == 0, "a fresh request (%s) has values %v", m.Data(), m.Values())
			m.Set("d", string(m.Data()))
		},
		enc: func(m *arpc.Message) {
			id := string(m.Data())
			mc.Assert(one(m.Get, "k") == id && one(m.Get, "d") == id, "the response to %s carries values %v", id, m.Values())
		},
	})
	seen := func(ctx *arpc.Context, k, w string) {
		mc.Assert(one(ctx.Get, k) == w && one(ctx.Message.Get, k) == w, "request %s has value %s=%s, %s on its message; want %s", ctx.Body(), k, one(ctx.Get, k), one(ctx.Message.Get, k), w)
		if w != "none" {
			mc.Assert(ctx.Value(k) == w, "Value(%s) is %v, want %s", k, ctx.Value(k), w)
		} else {
			mc.Assert(ctx.Value(k) == nil, "Value(%s) is %v", k, ctx.Value(k))
		}
	}
	done := &cnt{}
	h.Use(func(ctx *arpc.Context) {
		id := string(ctx.Body())
		mc.Assert(len(ctx.Values()) == 1, "request %s begins with values %v", id, ctx.Values())
		seen(ctx, "d", id)
		seen(ctx, "k", "none")
		ctx.Set("k", id)
		ctx.Set(nil, id)
		ctx.Set("n", nil)
		ctx.Next()
		seen(ctx, "k", id)
		seen(ctx, "n", "none")
		mc.Assert(len(ctx.Values()) == 2, "request %s ends with values %v", id, ctx.Values())
	})
	h.Handle("m", func(ctx *arpc.Context) {
		id := string(ctx.Body())
		seen(ctx, "k", id)
		seen(ctx, "d", id)
		mc.Yield()
		ctx.Write(id)
		done.inc()
	}, c.Get("route") == 1)
	r.up()
	n := 3
	var bs []*mc.Conn
	for i := 0; i < c.Get("conns"); i++ {
		bs = append(bs, r.raw())
	}
	for i := 0; i < n; i++ {
		cmd := byte(1)
		if i == 1 {
			cmd = 3 // a notification has values, too
		}
		bs[i%len(bs)].Write((&frame{cmd: cmd, method: "m", seq: uint64(i), data: "q" + itoa(i)}).bytes())
	}
	mc.Idle()
	mc.Assert(done.get() == n, "%d of %d requests handled", done.get(), n)
}

// values given with calls
func c24Caller(c *mc.Config) {
	begin()
	h := newHandler(c, "cli")
	var cli *arpc.Client
	h.UseCoder(&tapCoder{
		enc: func(m *arpc.Message) {
			id := string(m.Data())
			if id == "plain" {
				mc.Assert(len(m.Values()) == 0, "a message without values has %v", m.Values())
				return
			}
			mc.Assert(len(m.Values()) == 1 && one(m.Get, "k") == id, "message %s has values %v", id, m.Values())
		},
		dec: func(m *arpc.Message) {
			mc.Assert(len(m.Values()) == 0, "a fresh response (%s) has values %v", m.Data(), m.Values())
			m.Set("d", string(m.Data()))
		},
	})
	a, b := mc.Pipe("p", mc.NetConfig{})
	cli, err := arpc.NewClient(pipeDialer(a), h)
	mc.Assert(err == nil, "dial: %v", err)
	go func() {
		for {
			f, err := readFrame(b)
			if err != nil {
				return
			}
			if f.cmd == 1 {
				f.cmd = 2
				b.Write(f.bytes())
			}
		}
	}()
	val := func(id string) map[interface{}]interface{} {
		return map[interface{}]interface{}{"k": id}
	}
	g := newGroup()
	for i := 0; i < 2; i++ {
		i := i
		g.run(func() {
			id := "c" + itoa(i)
			for j := 0; j < 2; j++ {
				rsp := ""
				var err error
				switch mc.Choose(4) {
				case 0:
					err = cli.Call("m", id, &rsp, hour, val(id))
				case 1:
					err = cli.Call("m", "plain", &rsp, hour)
				case 2:
					l := newLatch()
					err = cli.CallAsync("m", id, func(ctx *arpc.Context, err error) {
						mc.Assert(err == nil, "CallAsync: %v", err)
						mc.Assert(one(ctx.Get, "d") == id && len(ctx.Values()) == 1, "the callback of %s has values %v", id, ctx.Values())
						ctx.Set("own", id)
						l.fire()
					}, hour, val(id))
					l.wait()
				case 3:
					err = cli.Notify("m", id, hour, val(id))
				}
				mc.Assert(err == nil, "call: %v", err)
			}
		})
	}
	g.wait()
	mc.Idle()
}

// an allocator that shows its use
type tellAlloc struct{ e *evs }

func (t *tellAlloc) Malloc(n int) []byte { t.e.add("pool-malloc"); return make([]byte, n) }
func (t *tellAlloc) Realloc(b []byte, n int) []byte {
	if n <= cap(b) {
		return b[:n]
	}
	x := make([]byte, n)
	copy(x, b)
	return x
}
func (t *tellAlloc) Append(b []byte, more ...byte) []byte {
	t.e.add("pool-append")
	return append(b, more...)
}
func (t *tellAlloc) AppendString(b []byte, more string) []byte {
	t.e.add("pool-append")
	return append(b, more...)
}
func (t *tellAlloc) Free(b []byte) { t.e.add("pool-free") }

type c24Tag struct {
	e   *evs
	who string
}

// every change of a handler
var c24Ops = []func(h arpc.Handler, t c24Tag){
	func(h arpc.Handler, t c24Tag) { h.SetLogTag("log " + t.who) },
	func(h arpc.Handler, t c24Tag) {
		h.HandleConnected(func(*arpc.Client) { t.e.add("connected " + t.who) })
	},
	func(h arpc.Handler, t c24Tag) {
		h.HandleDisconnected(func(*arpc.Client) { t.e.add("disconnected " + t.who) })
	},
	func(h arpc.Handler, t c24Tag) { h.SetMaxReconnectTimes(h.MaxReconnectTimes() + 1) },
	func(h arpc.Handler, t c24Tag) {
		h.HandleOverstock(func(*arpc.Client, *arpc.Message) { t.e.add("overstock " + t.who) })
	},
	func(h arpc.Handler, t c24Tag) {
		h.HandleMessageDone(func(*arpc.Client, *arpc.Message) { t.e.add("done " + t.who) })
	},
	func(h arpc.Handler, t c24Tag) {
		h.HandleMessageDropped(func(*arpc.Client, *arpc.Message) { t.e.add("dropped " + t.who) })
	},
	func(h arpc.Handler, t c24Tag) {
		h.HandleSessionMiss(func(*arpc.Client, *arpc.Message) { t.e.add("miss " + t.who) })
	},
	func(h arpc.Handler, t c24Tag) {
		h.HandleContextDone(func(*arpc.Context) { t.e.add("context done " + t.who) })
	},
	func(h arpc.Handler, t c24Tag) {
		h.BeforeRecv(func(net.Conn) error { t.e.add("before recv " + t.who); return nil })
	},
	func(h arpc.Handler, t c24Tag) {
		h.BeforeSend(func(net.Conn) error { t.e.add("before send " + t.who); return nil })
	},
	func(h arpc.Handler, t c24Tag) { h.SetBatchRecv(!h.BatchRecv()) },
	func(h arpc.Handler, t c24Tag) { h.SetBatchSend(!h.BatchSend()) },
	func(h arpc.Handler, t c24Tag) { h.SetAsyncWrite(!h.AsyncWrite()) },
	func(h arpc.Handler, t c24Tag) { h.SetAsyncResponse(!h.AsyncResponse()) },
	func(h arpc.Handler, t c24Tag) {
		h.SetReaderWrapper(func(c net.Conn) io.Reader { t.e.add("reader " + t.who); return c })
	},
	func(h arpc.Handler, t c24Tag) { h.SetRecvBufferSize(h.RecvBufferSize() + 100) },
	func(h arpc.Handler, t c24Tag) { h.SetSendBufferSize(h.SendBufferSize() + 100) },
	func(h arpc.Handler, t c24Tag) { h.SetReadTimeout(h.ReadTimeout() + time.Hour) },
	func(h arpc.Handler, t c24Tag) { h.SetWriteTimeout(h.WriteTimeout() + time.Hour) },
	func(h arpc.Handler, t c24Tag) { h.SetSendQueueSize(h.SendQueueSize() + 1) },
	func(h arpc.Handler, t c24Tag) { h.SetStreamQueueSize(h.StreamQueueSize() + 1) },
	func(h arpc.Handler, t c24Tag) { h.SetMaxBodyLen(h.MaxBodyLen() - 1) },
	func(h arpc.Handler, t c24Tag) {
		h.Use(func(ctx *arpc.Context) { t.e.add("middleware " + t.who) })
	},
	func(h arpc.Handler, t c24Tag) {
		h.UseCoder(&tapCoder{func(*arpc.Message) { t.e.add("encode " + t.who) }, func(*arpc.Message) { t.e.add("decode " + t.who) }})
	},
	func(h arpc.Handler, t c24Tag) { c24Handle(h, t, "/new") },
	func(h arpc.Handler, t c24Tag) {
		h.HandleNotFound(func(ctx *arpc.Context) { t.e.add("not found " + t.who) })
	},
	func(h arpc.Handler, t c24Tag) { c24Stream(h, t, "/newstream") },
	func(h arpc.Handler, t c24Tag) {
		h.HandleMalloc(func(n int) []byte { t.e.add("malloc " + t.who); return make([]byte, n) })
	},
	func(h arpc.Handler, t c24Tag) {
		h.HandleAppend(func(b []byte, m ...byte) []byte { t.e.add("append " + t.who); return append(b, m...) })
	},
	func(h arpc.Handler, t c24Tag) { h.HandleFree(func([]byte) { t.e.add("free " + t.who) }) },
	func(h arpc.Handler, t c24Tag) { h.EnablePool(true) },
	func(h arpc.Handler, t c24Tag) { h.EnablePool(false) },
	func(h arpc.Handler, t c24Tag) {
		ctx, f := context.WithCancel(context.WithValue(context.Background(), "who", t.who))
		h.SetContext(ctx, f)
	},
	func(h arpc.Handler, t c24Tag) { h.Cancel() },
	func(h arpc.Handler, t c24Tag) {
		h.SetAsyncExecutor(func(f func()) { t.e.add("executor " + t.who); go f() })
	},
	func(h arpc.Handler, t c24Tag) { h.HandleOverstock(nil) },
	func(h arpc.Handler, t c24Tag) { h.HandleMessageDropped(nil) },
}

func c24Handle(h arpc.Handler, t c24Tag, name string) {
	if nil != panics(func() {
		h.Handle(name, func(ctx *arpc.Context) { t.e.add("route " + name + " " + t.who); ctx.Write("ok") })
	}) {
		t.e.add("route taken")
	}
}

func c24Stream(h arpc.Handler, t c24Tag, name string) {
	if nil != panics(func() {
		h.HandleStream(name, func(s *arpc.Stream) { t.e.add("stream " + name + " " + t.who) })
	}) {
		t.e.add("stream taken")
	}
}

type askReader struct {
	net.Conn
	n int
}

func (r *askReader) Read(p []byte) (int, error) { r.n = len(p); return 1, nil }

// c24Look exercises a handler and returns all that can be seen of it.
func c24Look(h arpc.Handler, e *evs) string {
	out := fmt.Sprint(h.LogTag(), " ", h.MaxReconnectTimes(), h.BatchRecv(), h.BatchSend(), h.AsyncWrite(), h.AsyncResponse(), h.RecvBufferSize(), h.SendBufferSize(), h.ReadTimeout(), h.WriteTimeout(), h.SendQueueSize(), h.StreamQueueSize(), h.MaxBodyLen(), len(h.Coders()))
	step := func(name string, f func()) {
		mc.Sync()
		e.l = nil
		f()
		mc.Idle()
		l := e.all()
		sort.Strings(l)
		out += "\n" + name + ": " + strings.Join(l, ", ")
	}
	msg := func() *arpc.Message { return h.NewMessage(1, "m", "x", false, false, 1, nil, nil) }
	none := &arpc.Client{Handler: h}
	step("connected", func() { h.OnConnected(none) })
	step("disconnected", func() { h.OnDisconnected(none) })
	step("overstock", func() { h.OnOverstock(none, msg()) })
	step("dropped", func() { h.OnMessageDropped(none, msg()) })
	step("done", func() { h.OnMessageDone(none, msg()) })
	step("miss", func() { h.OnSessionMiss(none, msg()) })
	step("context", func() { h.OnContextDone(&arpc.Context{Client: none, Message: msg()}) })
	step("memory", func() { h.Free(h.Append(h.Malloc(5), 1)) })
	step("execute", func() { h.AsyncExecute(func() { e.add("ran") }) })
	r := &askReader{}
	step("reader", func() { h.WrapReader(r).Read(make([]byte, 1)) })
	out += " " + itoa(r.n)

	// registered now: shows what later routes are made of
	c24Handle(h, c24Tag{e, "late"}, "/late")
	a, b := mc.Pipe("p", mc.NetConfig{})
	var cli *arpc.Client
	step("dial", func() {
		var err error
		cli, err = arpc.NewClient(pipeDialer(a), h)
		mc.Assert(err == nil, "dial: %v", err)
	})
	for _, m := range []string{"/base", "/new", "/unknown", "/late"} {
		step("request "+m, func() { b.Write((&frame{cmd: 1, method: m, seq: 1, data: "x"}).bytes()) })
	}
	for i, m := range []string{"/basestream", "/newstream"} {
		step("stream "+m, func() { b.Write((&frame{cmd: 6, method: m, seq: uint64(i + 1), data: "x"}).bytes()) })
	}
	step("response", func() { b.Write((&frame{cmd: 2, method: "m", seq: 77, data: "x"}).bytes()) })
	step("notify", func() { cli.Notify("m", "x", hour) })
	step("stop", cli.Stop)
	return out
}

func c24Base(c *mc.Config, e *evs) arpc.Handler {
	h := arpc.NewHandler()
	t := c24Tag{e, "base"}
	if c.Get("base") == 2 {
		h.EnablePool(true)
	}
	if c.Get("base") > 0 && c.Get("base") < 4 {
		for i, f := range c24Ops {
			switch {
			case i == 13 || i == 31 || i == 32 || i >= 33 && i != 35: // write mode, pool, context, none at all
			case i == 25 || i == 27:
			case c.Get("base") == 2 && (i == 5 || i == 8 || i == 15 || i >= 28 && i <= 30):
			default:
				f(h, t)
			}
		}
	}
	switch c.Get("base") {
	case 4:
		return h
	case 5: // a clone of an empty one
		return h.Clone()
	case 6:
		c24Stream(h, t, "/basestream")
		return h.Clone()
	case 7:
		c24Handle(h, t, "/base")
		return h.Clone()
	}
	c24Handle(h, t, "/base")
	c24Stream(h, t, "/basestream")
	if c.Get("base") == 3 {
		for i := 0; i < 2; i++ {
			c24Ops[23](h, t)
			c24Ops[24](h, t)
		}
	}
	return h
}

func diff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			return fmt.Sprintf("%q, want %q", x[i], y[i])
		}
	}
	return ""
}

// every change of a handler and of its clone, against handlers never cloned
func c24Clone(c *mc.Config) {
	begin()
	e := &evs{}
	arpc.DefaultAllocator = &tellAlloc{e}
	type op struct{ side, what int } // side 0: the original, 1: the clone, 2: before cloning
	var ops []op
	c24First, c24Count := 0, len(c24Ops)
	if c.Get("few") == 1 { // registrations only
		c24First, c24Count = 23, 5
	}
	if c.Get("pre") == 1 {
		ops = append(ops, op{2, c24First + mc.Choose(c24Count)})
	}
	m0 := c.Get("m0") + 2*c24First
	ops = append(ops, op{m0 & 1, m0 >> 1})
	for i := 1; i < c.Get("n"); i++ {
		m := mc.Choose(2*c24Count) + 2*c24First
		ops = append(ops, op{m & 1, m >> 1})
	}
	desc := fmt.Sprint(ops)
	who := []string{"orig", "copy", "pre"}
	run := func(h arpc.Handler, o op) { c24Ops[o.what](h, c24Tag{e, who[o.side]}) }
	orig := c24Base(c, e)
	var cp arpc.Handler
	for _, o := range ops {
		if o.side == 2 {
			run(orig, o)
		}
	}
	cp = orig.Clone()
	ctx := [2]context.Context{}
	ctx[0], _ = orig.Context()
	ctx[1], _ = cp.Context()
	ended := [2]bool{ctx[0].Err() != nil, false}
	mc.Assert(ctx[1].Err() == nil, "a clone begins with a cancelled context, %s", desc)
	for _, o := range ops {
		if o.side == 2 {
			continue
		}
		if o.what == 34 { // Cancel
			h := []arpc.Handler{orig, cp}[o.side]
			x, _ := h.Context()
			if x == ctx[o.side] {
				ended[o.side] = true
			}
		}
		if o.side == 0 {
			run(orig, o)
		} else {
			run(cp, o)
		}
		for i := range ctx {
			mc.Assert((ctx[i].Err() != nil) == ended[i], "context of handler %d cancelled: %v, %s", i, ctx[i].Err(), desc)
		}
	}
	for side := 0; side < 2; side++ {
		ref := c24Base(c, e)
		for _, o := range ops {
			if o.side == 2 || o.side == side {
				run(ref, o)
			}
		}
		h := []arpc.Handler{orig, cp}[side]
		got, want := c24Look(h, e), c24Look(ref, e)
		mc.Assert(got == want, "the %s shows changes of the other or lacks its own: %s; changes (side,what) %s", []string{"original", "clone"}[side], diff(got, want), desc)
	}
}
