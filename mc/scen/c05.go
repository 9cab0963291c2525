package scen

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"strings"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/codec"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

func init() {
	reg("C05", "layout", c05Layout, func(th bool) []mc.Config {
		return bound(cross("", "how", []int{0, 1}, "pool", i01), 0, 0, th)
	})
	reg("C05", "setters", c05Setters, func(th bool) []mc.Config {
		d := 2
		if th {
			d = 3
		}
		return bound(cross("", "init", []int{0, 1, 2}, "depth", []int{d}), 0, 0, th)
	})
	reg("C05", "flagbits", c05Flag, func(th bool) []mc.Config {
		return bound(cross("", "x", []int{0}), 0, 0, th)
	})
	reg("C05", "values", c05Values, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "pool", i01, "via", []int{0, 1, 2, 3, 4}, "dirty", []int{0, 1, 2}), 0, 1, th)
	})
	reg("C05", "sizes", c05Values, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "pool", i01, "via", []int{0, 1, 2, 3, 4}, "dirty", i01, "sized", []int{1}), 0, 0, th)
	})
}

type c05Struct struct {
	A int
	B string
	C []byte
	D map[string]int
}

// payloads: name, value given, bytes expected on the wire
type c05Payload struct {
	name string
	v    interface{}
	b    []byte
	err  bool
}

func c05Payloads() []c05Payload {
	s := "str\x00\xff"
	by := []byte{0, 1, 2, 255}
	e := errors.New("some error")
	var empty []byte
	es := ""
	st := c05Struct{7, "b<&>", []byte{1, 2}, map[string]int{"k": 1}}
	j := func(v interface{}) []byte {
		b, err := json.Marshal(v)
		mc.Assert(err == nil, "json: %v", err)
		return b
	}
	long := strings.Repeat("long", 300)
	return []c05Payload{
		{"nil", nil, nil, false},
		{"string", s, []byte(s), false},
		{"*string", &s, []byte(s), false},
		{"emptystring", "", nil, false},
		{"*emptystring", &es, nil, false},
		{"[]byte", by, by, false},
		{"*[]byte", &by, by, false},
		{"nilbytes", empty, nil, false},
		{"error", e, []byte("some error"), true},
		{"*error", &e, []byte("some error"), false},
		{"struct", st, j(st), false},
		{"*struct", &st, j(st), false},
		{"int", 42, []byte("42"), false},
		{"bool", true, []byte("true"), false},
		{"map", map[string]string{"a": "b"}, []byte(`{"a":"b"}`), false},
		{"slice", []string{"x", "y"}, []byte(`["x","y"]`), false},
		{"long", long, []byte(long), false},
	}
}

// every kind of payload in many sizes
func c05Sized() (l []c05Payload) {
	for _, n := range []int{1, 2, 63, 64, 65, 127, 128, 129, 255, 256, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537, 131072, 200000} {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*7 + i>>8)
		}
		s := string(b)
		t := strings.Repeat("t", n)
		e := errors.New(s)
		var ep error = errors.New(s)
		id := func(k string) string { return k + " of " + itoa(n) }
		l = append(l, c05Payload{id("string"), s, b, false}, c05Payload{id("*string"), &s, b, false},
			c05Payload{id("[]byte"), b, b, false}, c05Payload{id("*[]byte"), &b, b, false},
			c05Payload{id("error"), e, b, true}, c05Payload{id("*error"), &ep, b, false},
			c05Payload{id("slice"), []string{t}, []byte(`["` + t + `"]`), false})
	}
	return l
}

// receivers that already hold something
func c05Bytes(c *mc.Config) []byte {
	switch c.Get("dirty") {
	case 1:
		return []byte(strings.Repeat("garbage", 30001))
	case 2:
		return []byte("old")[:2]
	}
	return nil
}

func c05Str(c *mc.Config) string {
	if c.Get("dirty") > 0 {
		return "garbage"
	}
	return ""
}

func rawFrame(cmd, flag, reserved byte, method string, seq uint64, data []byte) []byte {
	b := make([]byte, 16)
	binary.LittleEndian.PutUint32(b[0:], uint32(len(method)+len(data)))
	b[4], b[5], b[6], b[7] = reserved, cmd, flag, byte(len(method))
	binary.LittleEndian.PutUint64(b[8:], seq)
	b = append(b, method...)
	return append(b, data...)
}

func c05Layout(c *mc.Config) {
	begin()
	h := newHandler(c, "h")
	// leave dirty buffers in the pool
	for i := 0; i < 2; i++ {
		d := h.Malloc(300)
		for k := range d {
			d[k] = 0xee
		}
		h.Free(d)
	}
	cmds := []byte{0, 1, 2, 3, 4, 5, 6, 7, 0x3f}
	methods := []string{"", "m", "/a/b", strings.Repeat("x", 126), strings.Repeat("y", 127)}
	seqs := []uint64{0, 1, 255, 256, 1<<32 - 1, 1 << 32, 1<<63 + 5, 1<<64 - 1}
	cmd := cmds[mc.Choose(len(cmds))]
	isErr, isAsync := mc.Choose(2) == 1, mc.Choose(2) == 1
	pl := c05Payloads()
	for _, method := range methods {
		for _, seq := range seqs {
			for _, p := range pl {
				var m *arpc.Message
				if c.Get("how") == 0 {
					m = arpc.NewMessage(cmd, method, p.v, isErr, isAsync, seq, h, codec.DefaultCodec, nil)
				} else {
					m = h.NewMessage(cmd, method, p.v, isErr, isAsync, seq, codec.DefaultCodec, nil)
				}
				flag := byte(0)
				if isErr {
					flag |= 1
				}
				if isAsync {
					flag |= 2
				}
				want := rawFrame(cmd, flag, 0, method, seq, p.b)
				id := fmt.Sprintf("cmd=%d method=%q seq=%d payload=%s err=%v async=%v", cmd, method, seq, p.name, isErr, isAsync)
				mc.Assert(string(m.Buffer) == string(want), "%s: buffer % x, want % x", id, m.Buffer, want)
				mc.Assert(m.Cmd() == cmd && m.Method() == method && m.MethodLen() == len(method) && m.Seq() == seq &&
					m.IsError() == isErr && m.IsAsync() == isAsync && string(m.Data()) == string(p.b) && m.BodyLen() == len(method)+len(p.b) &&
					m.Len() == 16+len(method)+len(p.b) && !m.IsStreamLocal() && !m.IsStreamEOF(), "%s: accessors differ", id)
				for i := 0; i < 8; i++ {
					mc.Assert(!m.IsFlagBitSet(i), "%s: flag bit %d set", id, i)
				}
				if isErr {
					mc.Assert(m.Error() != nil && m.Error().Error() == string(p.b), "%s: Error() = %v", id, m.Error())
				} else {
					mc.Assert(m.Error() == nil, "%s: Error() = %v", id, m.Error())
				}
				hd := arpc.Header(m.Buffer[:16])
				mc.Assert(hd.BodyLen() == m.BodyLen(), "%s: Header.BodyLen", id)
				m.Release()
			}
		}
	}
}

// every sequence of setters against an abstract record
func c05Setters(c *mc.Config) {
	begin()
	type st struct {
		cmd        byte
		local, eof bool
		err, async bool
		bits       [8]bool
		seq        uint64
		mlen, blen int
		values     map[interface{}]interface{}
	}
	var m *arpc.Message
	w := st{cmd: 1, seq: 9, mlen: 4, blen: 4 + 5, values: map[interface{}]interface{}{}}
	switch c.Get("init") {
	case 0:
		m = arpc.NewMessage(1, "/abc", "hello", false, false, 9, nil, nil, nil)
	case 1:
		m = arpc.NewMessage(6, "/abc", "hello", false, false, 9, nil, nil, map[interface{}]interface{}{"k": 1})
		w.cmd = 6
		w.values["k"] = 1
	case 2:
		all := make([]byte, 16)
		for i := range all {
			all[i] = 0xff
		}
		m = arpc.NewHandler().NewMessageWithBuffer(append(all, "/abchello"...))
		w = st{cmd: 0x3f, local: true, eof: true, err: true, async: true, seq: 1<<64 - 1, mlen: 255, blen: 1<<32 - 1, values: map[interface{}]interface{}{}}
		for i := range w.bits {
			w.bits[i] = true
		}
	}
	type op struct {
		name string
		do   func()
	}
	var ops []op
	add := func(name string, f func()) { ops = append(ops, op{name, f}) }
	for _, v := range []byte{0, 1, 2, 3, 6, 0x3f} {
		v := v
		add(fmt.Sprintf("SetCmd(%d)", v), func() { m.SetCmd(v); w.cmd = v })
	}
	for _, b := range []bool{false, true} {
		b := b
		add(fmt.Sprintf("SetStreamLocal(%v)", b), func() { m.SetStreamLocal(b); w.local = b })
		add(fmt.Sprintf("SetStreamEOF(%v)", b), func() { m.SetStreamEOF(b); w.eof = b })
		add(fmt.Sprintf("SetError(%v)", b), func() { m.SetError(b); w.err = b })
		add(fmt.Sprintf("SetAsync(%v)", b), func() { m.SetAsync(b); w.async = b })
		for i := 0; i < 8; i++ {
			i := i
			add(fmt.Sprintf("SetFlagBit(%d,%v)", i, b), func() {
				mc.Assert(m.SetFlagBit(i, b) == nil, "SetFlagBit(%d) refused", i)
				w.bits[i] = b
			})
		}
		add(fmt.Sprintf("SetFlagBit(8,%v)", b), func() { mc.Assert(m.SetFlagBit(8, b) == arpc.ErrInvalidFlagBitIndex, "SetFlagBit(8) accepted") })
		add(fmt.Sprintf("SetFlagBit(-1,%v)", b), func() { mc.Assert(m.SetFlagBit(-1, b) == arpc.ErrInvalidFlagBitIndex, "SetFlagBit(-1) accepted") })
	}
	for _, v := range []uint64{0, 1 << 40, 1<<64 - 1} {
		v := v
		add(fmt.Sprintf("SetSeq(%d)", v), func() { m.SetSeq(v); w.seq = v })
	}
	for _, v := range []int{0, 2, 4, 127} {
		v := v
		add(fmt.Sprintf("SetMethodLen(%d)", v), func() { m.SetMethodLen(v); w.mlen = v })
	}
	for _, v := range []int{0, 300, 1<<24 + 3} {
		v := v
		add(fmt.Sprintf("SetBodyLen(%d)", v), func() { m.SetBodyLen(v); w.blen = v })
	}
	add("Set(k,v)", func() { m.Set("k", "v"); w.values["k"] = "v" })
	add("Set(2,3)", func() { m.Set(2, 3); w.values[2] = 3 })
	add("Set(nil,3)", func() { m.Set(nil, 3) })
	add("Set(4,nil)", func() { m.Set(4, nil) })
	add("ResetAttrs", func() {
		m.ResetAttrs()
		w.cmd, w.local, w.eof, w.err, w.async, w.mlen = 0, false, false, false, false, 0
		w.bits = [8]bool{}
	})
	trace := ""
	check := func() {
		mc.Assert(m.Cmd() == w.cmd, "after%s: Cmd %d want %d", trace, m.Cmd(), w.cmd)
		mc.Assert(m.IsStreamLocal() == w.local, "after%s: IsStreamLocal %v", trace, m.IsStreamLocal())
		mc.Assert(m.IsStreamEOF() == w.eof, "after%s: IsStreamEOF %v", trace, m.IsStreamEOF())
		mc.Assert(m.IsError() == w.err, "after%s: IsError %v", trace, m.IsError())
		mc.Assert(m.IsAsync() == w.async, "after%s: IsAsync %v", trace, m.IsAsync())
		mc.Assert(m.Seq() == w.seq, "after%s: Seq %d", trace, m.Seq())
		mc.Assert(m.MethodLen() == w.mlen, "after%s: MethodLen %d want %d", trace, m.MethodLen(), w.mlen)
		mc.Assert(m.BodyLen() == w.blen, "after%s: BodyLen %d want %d", trace, m.BodyLen(), w.blen)
		for i := range w.bits {
			mc.Assert(m.IsFlagBitSet(i) == w.bits[i], "after%s: flag bit %d", trace, i)
		}
		mc.Assert(!m.IsFlagBitSet(8) && !m.IsFlagBitSet(-1), "after%s: out-of-range flag bit set", trace)
		for _, k := range []interface{}{"k", 2, 4} {
			v, ok := m.Get(k)
			wv, wok := w.values[k]
			mc.Assert(ok == wok && v == wv, "after%s: Get(%v) = %v %v", trace, k, v, ok)
		}
		mc.Assert(len(m.Values()) == len(w.values), "after%s: Values %v", trace, m.Values())
		mc.Assert(string(m.Buffer[16:]) == "/abchello", "after%s: body changed to %q", trace, m.Buffer[16:])
		if w.mlen <= 9 {
			mc.Assert(m.Method() == "/abchello"[:w.mlen] && string(m.Data()) == "/abchello"[w.mlen:], "after%s: method %q data %q", trace, m.Method(), m.Data())
		}
	}
	check()
	for d := 0; d < c.Get("depth"); d++ {
		o := ops[mc.Choose(len(ops))]
		o.do()
		trace += " " + o.name
		check()
	}
}

func c05Flag(c *mc.Config) {
	begin()
	idx := []int{-1 << 62, -1000, -8, -1, 8, 9, 10, 15, 16, 31, 32, 63, 64, 255, 256, 1 << 40}
	i := idx[mc.Choose(len(idx))]
	for _, base := range []byte{0, 0xff, 0xa5} {
		for _, v := range []bool{true, false} {
			m := arpc.NewMessage(1, "m", "d", false, false, 1, nil, nil, nil)
			for k := range m.Buffer[4:8] {
				if k != 3 {
					m.Buffer[4+k] = base
				}
			}
			before := string(m.Buffer)
			mc.Assert(m.SetFlagBit(i, v) == arpc.ErrInvalidFlagBitIndex, "SetFlagBit(%d) accepted", i)
			mc.Assert(string(m.Buffer) == before, "SetFlagBit(%d) changed the message", i)
			mc.Assert(!m.IsFlagBitSet(i), "IsFlagBitSet(%d)", i)
		}
	}
}

// values travel unchanged through requests, responses, notifications, streams
func c05Values(c *mc.Config) {
	r := newRig(c)
	pl := c05Payloads()
	if c.Get("sized") == 1 {
		pl = c05Sized()
	}
	p := pl[mc.Choose(len(pl))]
	done := make(chan struct{}, 8)
	seen := 0
	bind := func(ctx *arpc.Context) {
		seen++
		b := c05Bytes(c)
		s := c05Str(c)
		mc.Assert(ctx.Bind(&b) == nil && string(b) == string(p.b), "%s: Bind(*[]byte) = %q", p.name, b)
		mc.Assert(ctx.Bind(&s) == nil && s == string(p.b), "%s: Bind(*string) = %q", p.name, s)
		mc.Assert(string(ctx.Body()) == string(p.b), "%s: Body() = %q", p.name, ctx.Body())
		mc.Assert(ctx.Bind(nil) == nil, "%s: Bind(nil)", p.name)
		if p.name == "struct" || p.name == "*struct" {
			var st c05Struct
			mc.Assert(ctx.Bind(&st) == nil && st.A == 7 && st.B == "b<&>" && string(st.C) == "\x01\x02" && st.D["k"] == 1, "%s: Bind(struct) = %+v", p.name, st)
		}
		if p.name == "int" {
			n := 0
			mc.Assert(ctx.Bind(&n) == nil && n == 42, "Bind(int) = %d", n)
		}
	}
	r.srv.Handler.Handle("/bind", func(ctx *arpc.Context) {
		bind(ctx)
		if ctx.Message.Cmd() == arpc.CmdRequest {
			mc.Assert(ctx.Write(p.v) == nil, "write")
		} else {
			done <- struct{}{}
		}
	}, false)
	recvAll := func(st *arpc.Stream, who string) {
		b := c05Bytes(c)
		err := st.Recv(&b)
		mc.Assert(err == nil && string(b) == string(p.b), "%s: stream Recv at %s = %q, %v", p.name, who, b, err)
		s := c05Str(c)
		err = st.Recv(&s)
		mc.Assert(err == nil && s == string(p.b), "%s: stream Recv at %s = %q, %v", p.name, who, s, err)
		e := error(errors.New(c05Str(c)))
		err = st.Recv(&e)
		mc.Assert(err == nil && e != nil && e.Error() == string(p.b), "%s: stream Recv(*error) at %s = %v, %v", p.name, who, e, err)
		if p.name == "*struct" || p.name == "struct" {
			var v c05Struct
			err = st.Recv(&v)
			mc.Assert(err == nil && v.A == 7 && v.B == "b<&>", "%s: stream Recv(struct) at %s = %+v, %v", p.name, who, v, err)
		}
	}
	sendAll := func(st *arpc.Stream) {
		for i := 0; i < 3; i++ {
			mc.Assert(st.Send(p.v) == nil, "send")
		}
		if p.name == "*struct" || p.name == "struct" {
			mc.Assert(st.Send(p.v) == nil, "send")
		}
	}
	r.srv.Handler.HandleStream("/st", func(st *arpc.Stream) {
		recvAll(st, "server")
		sendAll(st)
		st.CloseSend()
	}, true)
	r.serve()
	cli := r.client(nil)
	switch c.Get("via") {
	case 0, 1:
		var err error
		b := c05Bytes(c)
		s := c05Str(c)
		do := func(rsp interface{}) error {
			if c.Get("via") == 0 {
				return cli.Call("/bind", p.v, rsp, hour)
			}
			return cli.CallContext(background(), "/bind", p.v, rsp)
		}
		err = do(&b)
		if p.err {
			mc.Assert(err != nil && err.Error() == string(p.b), "%s: response error %v", p.name, err)
			err = do(nil)
			mc.Assert(err != nil && err.Error() == string(p.b), "%s: response error %v", p.name, err)
			mc.Assert(seen == 2, "handler ran %d times", seen)
			return
		}
		mc.Assert(err == nil && string(b) == string(p.b), "%s: response %q, %v", p.name, b, err)
		err = do(&s)
		mc.Assert(err == nil && s == string(p.b), "%s: response %q, %v", p.name, s, err)
		if p.name == "struct" {
			var st c05Struct
			err = do(&st)
			mc.Assert(err == nil && st.A == 7 && st.B == "b<&>" && string(st.C) == "\x01\x02" && st.D["k"] == 1, "response %+v, %v", st, err)
		}
		mc.Assert(do(nil) == nil, "call with nil response")
		mc.Assert(string(b) == string(p.b) && s == string(p.b), "%s: earlier response changed by later calls: %q %q", p.name, b, s)
	case 2:
		mc.Assert(cli.Notify("/bind", p.v, hour) == nil, "notify")
		<-done
	case 3:
		ch := make(chan struct{})
		err := cli.CallAsync("/bind", p.v, func(ctx *arpc.Context, err error) {
			if p.err {
				mc.Assert(err != nil && err.Error() == string(p.b), "%s: response error %v", p.name, err)
			} else {
				mc.Assert(err == nil, "%s: %v", p.name, err)
				s := c05Str(c)
				mc.Assert(ctx.Bind(&s) == nil && s == string(p.b), "%s: response %q", p.name, s)
			}
			close(ch)
		}, hour)
		mc.Assert(err == nil, "CallAsync: %v", err)
		<-ch
	case 4:
		if len(p.b) == 0 {
			return
		}
		st := cli.NewStream("/st")
		sendAll(st)
		st.CloseSend()
		recvAll(st, "client")
	}
}
