package scen

import (
	"fmt"
	"strings"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/middleware/coder"
	"github.com/lesismal/arpc/extension/middleware/coder/gzip"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

func init() {
	reg("C08", "stack", c08Stack, func(th bool) []mc.Config {
		return cat(
			bound(cross("", "async", []int{1}, "bsend", i01, "sendbuf", []int{0, 4096}, "n", []int{0, 1, 2, 3}, "pool", i01), 1, 2, th),
			bound(cross("", "async", []int{0}, "n", []int{0, 1, 2, 3}, "pool", i01), 1, 2, th),
		)
	})
	reg("C08", "coders", c08Coders, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "stack", []int{0, 1, 2, 3, 4, 5, 6}, "pool", i01, "thr", []int{0, 60, 1 << 20}), 0, 0, th)
	})
	reg("C08", "direct", c08Direct, func(th bool) []mc.Config {
		return bound(cross("", "stack", []int{0, 1, 2, 3, 4, 5, 6}), 0, 0, th)
	})
	reg("C08", "sizes", c08Sizes, func(th bool) []mc.Config {
		return bound(cross("", "pool", i01), 0, 0, th)
	})
	reg("C08", "concurrent", c08Concurrent, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "bsend", i01, "sendbuf", []int{0, 4096}, "stack", []int{3, 4}, "pool", i01), 2, 3, th)
	})
}

// marker coder: appends its number, checks and strips it
type marker struct {
	id  byte
	log *evs
	who string
}

func (m *marker) Encode(c *arpc.Client, msg *arpc.Message) *arpc.Message {
	m.log.add(fmt.Sprintf("%sE%d:%d:%d", m.who, m.id, msg.Cmd(), msg.Seq()))
	msg.Buffer = append(msg.Buffer, 'a'+m.id)
	msg.SetBodyLen(len(msg.Buffer) - 16)
	return msg
}

func (m *marker) Decode(c *arpc.Client, msg *arpc.Message) *arpc.Message {
	m.log.add(fmt.Sprintf("%sD%d:%d:%d", m.who, m.id, msg.Cmd(), msg.Seq()))
	n := len(msg.Buffer)
	mc.Assert(n > 16 && msg.Buffer[n-1] == 'a'+m.id, "decoder %d got a message ending in % x", m.id, msg.Buffer[16:])
	msg.Buffer = msg.Buffer[:n-1]
	msg.SetBodyLen(n - 1 - 16)
	return msg
}

func c08Stack(c *mc.Config) {
	r := newRig(c)
	n := c.Get("n")
	log := &evs{}
	h := newHandler(c, "cli")
	for i := 0; i < n; i++ {
		r.srv.Handler.UseCoder(&marker{byte(i), log, "s"})
		h.UseCoder(&marker{byte(i), log, "c"})
	}
	got := &evs{}
	r.srv.Handler.Handle("/echo", func(ctx *arpc.Context) {
		got.add(ctx.Message.Method() + "=" + string(ctx.Body()))
		if ctx.Message.Cmd() == arpc.CmdRequest {
			ctx.Write("re:" + string(ctx.Body()))
		}
	}, false)
	r.srv.Handler.Handle("/err", func(ctx *arpc.Context) { ctx.Error("bad:" + string(ctx.Body())) }, true)
	r.srv.Handler.Handle("/back", func(ctx *arpc.Context) {
		rsp := ""
		err := ctx.Client.Call("/cli", "cb", &rsp, hour)
		ctx.Write(rsp + errStr(err))
	}, true)
	r.srv.Handler.HandleStream("/st", func(st *arpc.Stream) {
		for {
			s := ""
			if st.Recv(&s) != nil {
				break
			}
			st.Send("s:" + s)
		}
		st.CloseSendContext(background())
	}, true)
	h.Handle("/cli", func(ctx *arpc.Context) { ctx.Write("fromcli:" + string(ctx.Body())) }, true)
	r.serve()
	cli := r.client(h)
	msgs := 0
	for k := 0; k < 2; k++ {
		switch mc.Choose(7) {
		case 0:
			rsp, err := call(cli, kCall, "/echo", "q")
			mc.Assert(err == nil && rsp == "re:q", "call %q %v", rsp, err)
			msgs += 2
		case 1:
			rsp, err := call(cli, kAsync, "/echo", "")
			mc.Assert(err == nil && rsp == "re:", "async call %q %v", rsp, err)
			msgs += 2
		case 2:
			rsp, err := call(cli, kCtx, "/err", "q")
			mc.Assert(err != nil && err.Error() == "bad:q" && rsp == "", "error call %q %v", rsp, err)
			msgs += 2
		case 3:
			mc.Assert(cli.Notify("/echo", "n1", hour) == nil, "notify")
			mc.Assert(cli.PushMsg(cli.NewMessage(arpc.CmdNotify, "/echo", "n2"), arpc.TimeForever) == nil, "push")
			mc.Idle()
			l := got.all()
			mc.Assert(len(l) >= 2 && l[len(l)-2] == "/echo=n1" && l[len(l)-1] == "/echo=n2", "notifications %v", l)
			msgs += 2
		case 4:
			rsp, err := call(cli, kCall, "/back", "q")
			mc.Assert(err == nil && rsp == "fromcli:cbnil", "callback call %q %v", rsp, err)
			msgs += 4
		case 5:
			st := cli.NewStream("/st")
			mc.Assert(st.Send("x1") == nil && st.Send("x2") == nil, "send")
			st.CloseSendContext(background())
			s := ""
			mc.Assert(st.Recv(&s) == nil && s == "s:x1", "stream %q", s)
			mc.Assert(st.Recv(&s) == nil && s == "s:x2", "stream %q", s)
			mc.Assert(st.Recv(&s) != nil, "stream did not end")
			msgs += 6
		case 6:
			rsp, err := call(cli, kCall, "/none", "q")
			mc.Assert(err != nil && err.Error() == arpc.ErrMethodNotFound.Error(), "call %q %v", rsp, err)
			msgs += 2
		}
	}
	mc.Idle()
	// per message: encoders in order, then decoders in reverse order
	seqs := map[string][]string{}
	total := 0
	for _, x := range log.all() {
		p := strings.SplitN(x, ":", 2)
		dir := x[:1]
		if x[1] == 'D' { // decoded by the other side
			if dir == "s" {
				dir = "c"
			} else {
				dir = "s"
			}
		}
		seqs[dir+p[1]] = append(seqs[dir+p[1]], p[0][1:])
		total++
	}
	mc.Assert(total == 2*n*msgs, "%d coder runs for %d messages and %d coders on each side", total, msgs, n)
	for k, l := range seqs {
		if strings.Contains(k, ":6:") || strings.HasPrefix(k[1:], "6:") {
			continue // several messages of a stream share the number
		}
		var want []string
		for i := 0; i < n; i++ {
			want = append(want, "E"+itoa(i))
		}
		for i := n - 1; i >= 0; i-- {
			want = append(want, "D"+itoa(i))
		}
		mc.Assert(fmt.Sprint(l) == fmt.Sprint(want), "coders of message %s ran %v, want %v", k, l, want)
	}
}

// named stacks of the shipped coders
func c08Use(k, thr int, use func(arpc.MessageCoder)) {
	second := func() *coder.Appender {
		return coder.NewAppender("second", 2, func(v interface{}) ([]byte, error) { return []byte(fmt.Sprint(v)), nil }, func(b []byte) (interface{}, error) { return string(b), nil })
	}
	switch k {
	case 0:
		use(gzip.New(thr))
	case 1:
		use(newAppender())
	case 2:
		use(newAppender())
		use(second())
	case 3:
		use(newAppender())
		use(gzip.New(thr))
	case 4:
		use(gzip.New(thr))
		use(newAppender())
	case 5:
		use(gzip.New(thr))
		use(gzip.New(thr))
	case 6:
		use(newAppender())
		use(gzip.New(thr))
		use(second())
	}
}

func c08Data() []string {
	noise := make([]byte, 300)
	x := uint32(12345)
	for i := range noise {
		x = x*1664525 + 1013904223
		noise[i] = byte(x >> 24)
	}
	return []string{"", "x", "ap\x00\x04", "\x00\x00", "\x00\x01", "\x00\x02", "\xff\xff", strings.Repeat("a", 200), strings.Repeat("ab", 3000), string(noise), strings.Repeat("q", 70000), "apv\x00\x05"}
}

func c08Vals() []interface{} {
	return []interface{}{nil, "v", "", strings.Repeat("z", 500), 5, strings.Repeat("y", 65530), strings.Repeat("y", 65531), strings.Repeat("y", 65532), strings.Repeat("w", 70000), strings.Repeat("u", 131000)}
}

func hasAppender(k int) bool { return k != 0 && k != 5 }

// what value the peer must see
func c08Want(k int, v interface{}) (interface{}, bool) {
	s, ok := v.(string)
	if !ok || !hasAppender(k) || len(s)+4 > 65535 {
		return nil, false
	}
	return s, true
}

func short(s string) string {
	if len(s) > 24 {
		return fmt.Sprintf("%q...(%d bytes)", s[:24], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func c08Coders(c *mc.Config) {
	r := newRig(c)
	k := c.Get("stack")
	h := newHandler(c, "cli")
	c08Use(k, c.Get("thr"), r.srv.Handler.UseCoder)
	c08Use(k, c.Get("thr"), h.UseCoder)
	data := c08Data()
	vals := c08Vals()
	di, vi := mc.Choose(len(data)), mc.Choose(len(vals))
	d, v := data[di], vals[vi]
	if di > 1 && vi > 4 && di != 7 {
		return // the large values with few payloads only
	}
	method := []string{"/m", strings.Repeat("m", 127)}[mc.Choose(2)]
	if len(method) > 2 && (di > 3 || vi > 4) {
		return
	}
	how := mc.Choose(5)
	if vi > 4 && how > 0 && how < 3 {
		return
	}
	id := fmt.Sprintf("stack %d threshold %d method length %d payload %s value %s how %d", k, c.Get("thr"), len(method), short(d), short(fmt.Sprint(v)), how)
	ran := 0
	r.srv.Handler.Handle(method, func(ctx *arpc.Context) {
		ran++
		mc.Assert(string(ctx.Body()) == d, "%s: handler got payload %s", id, short(string(ctx.Body())))
		mc.Assert(ctx.Message.Method() == method, "%s: method %q", id, ctx.Message.Method())
		mc.Assert(!ctx.Message.IsError(), "%s: error mark", id)
		mc.Assert(ctx.Message.BodyLen() == len(method)+len(d), "%s: body length %d", id, ctx.Message.BodyLen())
		w, ok := c08Want(k, v)
		g, gok := ctx.Get("ap")
		if how != 4 {
			mc.Assert(g == w && gok == ok, "%s: handler saw value %s", id, short(fmt.Sprint(g)))
		}
		switch how {
		case 1:
			ctx.Error(d)
		case 0, 2:
			ctx.Write(d)
		}
	}, false)
	r.serve()
	cli := r.client(h)
	var args []interface{}
	if v != nil {
		args = append(args, map[interface{}]interface{}{"ap": v, "unrelated": 1})
	}
	switch how {
	case 0:
		rsp := ""
		err := cli.Call(method, d, &rsp, hour, args...)
		mc.Assert(err == nil && rsp == d, "%s: caller got %s, %v", id, short(rsp), err)
	case 1:
		rsp := "untouched"
		err := cli.Call(method, d, &rsp, hour, args...)
		mc.Assert(err != nil && err.Error() == d && rsp == "untouched", "%s: caller got error %s", id, short(errStr(err)))
	case 2:
		ch := make(chan struct{})
		err := cli.CallAsync(method, d, func(ctx *arpc.Context, err error) {
			mc.Assert(err == nil && string(ctx.Body()) == d, "%s: callback got %v", id, err)
			w, ok := c08Want(k, v)
			g, gok := ctx.Get("ap")
			mc.Assert(g == w && gok == ok, "%s: callback saw value %s", id, short(fmt.Sprint(g)))
			close(ch)
		}, hour, args...)
		mc.Assert(err == nil, "CallAsync: %v", err)
		<-ch
	case 3:
		mc.Assert(cli.Notify(method, d, hour, args...) == nil, "notify")
		mc.Idle()
	case 4:
		// already flagged by the sender
		m := cli.NewMessage(arpc.CmdNotify, method, d)
		bits := []int{7, 1, 2, 0, 5}
		m.SetFlagBit(bits[mc.Choose(len(bits))], true)
		if vi > 0 || strings.HasSuffix(d, "\x00\x04") || strings.HasSuffix(d, "\x00\x05") {
			m.Release()
			return
		}
		mc.Assert(cli.PushMsg(m, arpc.TimeForever) == nil, "push")
		mc.Idle()
	}
	mc.Idle()
	mc.Assert(ran == 1, "%s: handler ran %d times", id, ran)
}

// coders applied directly, message by message
func c08Direct(c *mc.Config) {
	begin()
	k := c.Get("stack")
	thr := []int{0, 20, 60, 1 << 20}[mc.Choose(4)]
	var enc, dec []arpc.MessageCoder
	c08Use(k, thr, func(x arpc.MessageCoder) { enc = append(enc, x) })
	c08Use(k, thr, func(x arpc.MessageCoder) { dec = append(dec, x) })
	cmd := []byte{1, 2, 3, 6, 6 | 0x40, 6 | 0x80 | 0x40}[mc.Choose(6)]
	flag := byte(mc.Choose(4))
	for _, d := range c08Data() {
		for _, v := range c08Vals()[:5] {
			for ml := 1; ml <= 127; ml += 42 {
				method := strings.Repeat("m", ml)
				raw := rawFrame(cmd, flag, 0, method, 1<<40+7, []byte(d))
				h := arpc.NewHandler()
				m := h.NewMessageWithBuffer(append([]byte{}, raw...))
				if v != nil {
					m.Set("ap", v)
				}
				for _, x := range enc {
					m = x.Encode(nil, m)
				}
				id := fmt.Sprintf("stack %d threshold %d cmd %#x flag %d method length %d payload %s value %s", k, thr, cmd, flag, ml, short(d), short(fmt.Sprint(v)))
				mc.Assert(m.BodyLen() == len(m.Buffer)-16, "%s: encoded body length %d, buffer %d", id, m.BodyLen(), len(m.Buffer))
				m2 := h.NewMessageWithBuffer(append([]byte{}, m.Buffer...))
				for i := len(dec) - 1; i >= 0; i-- {
					m2 = dec[i].Decode(nil, m2)
				}
				mc.Assert(string(m2.Buffer) == string(raw), "%s: decoded to % x..., want % x...", id, head(m2.Buffer), head(raw))
				w, ok := c08Want(k, v)
				g, gok := m2.Get("ap")
				mc.Assert(g == w && gok == ok, "%s: decoded value %v", id, g)
			}
		}
	}
}

// gzip over payloads of k incompressible and r equal bytes: the compressed
// size passes every value around the size of the message itself
func c08Sizes(c *mc.Config) {
	begin()
	h := arpc.NewHandler()
	var enc arpc.MessageCoder = gzip.New(0)
	var dec arpc.MessageCoder = gzip.New(0)
	k := mc.Choose(41)
	noise := make([]byte, k)
	x := uint32(2463534242)
	for i := range noise {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		noise[i] = byte(x)
	}
	for r := 0; r <= 44; r++ {
		raw := rawFrame(3, 0, 0, "/m", 7, append(append([]byte{}, noise...), strings.Repeat("z", r)...))
		var m *arpc.Message
		if c.Get("pool") == 1 { // a buffer that cannot grow in place
			m = h.NewMessageWithBuffer(append(make([]byte, 0, len(raw)), raw...))
		} else {
			m = h.NewMessageWithBuffer(append(make([]byte, 0, len(raw)+64), raw...))
		}
		m = enc.Encode(nil, m)
		id := fmt.Sprintf("payload of %d incompressible and %d equal bytes", k, r)
		mc.Assert(m.BodyLen() == len(m.Buffer)-16, "%s: encoded body length %d, buffer %d", id, m.BodyLen(), len(m.Buffer))
		m2 := h.NewMessageWithBuffer(append([]byte{}, m.Buffer...))
		m2 = dec.Decode(nil, m2)
		mc.Assert(string(m2.Buffer) == string(raw), "%s: decoded to % x..., want % x...", id, head(m2.Buffer), head(raw))
	}
}

func head(b []byte) []byte {
	if len(b) > 40 {
		return b[:40]
	}
	return b
}

func c08Concurrent(c *mc.Config) {
	r := newRig(c)
	h := newHandler(c, "cli")
	c08Use(c.Get("stack"), 0, r.srv.Handler.UseCoder)
	c08Use(c.Get("stack"), 0, h.UseCoder)
	r.srv.Handler.Handle("/m", func(ctx *arpc.Context) {
		v, _ := ctx.Get("ap")
		ctx.Write(string(ctx.Body()) + "/" + fmt.Sprint(v))
	}, true)
	r.serve()
	cli := r.client(h)
	g := newGroup()
	for i := 0; i < 2; i++ {
		i := i
		g.run(func() {
			d := strings.Repeat(itoa(i), 50*(i+1))
			rsp := ""
			err := cli.Call("/m", d, &rsp, hour, map[interface{}]interface{}{"ap": "v" + itoa(i)})
			mc.Assert(err == nil && rsp == d+"/v"+itoa(i), "got %s %v", short(rsp), err)
		})
	}
	g.wait()
}
