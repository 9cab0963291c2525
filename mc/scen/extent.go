package scen

import (
	"context"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/micro"
	"github.com/lesismal/arpc/extension/middleware/coder/gzip"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

// Extents: long waits, many attempts and large messages, to find limits that
// the guarantees do not mention.
func init() {
	reg("C02", "patience", c02Patience, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "side", i01, "kind", rangeInts(3), "pool", i01), 0, 1, th)
	})
	reg("C02", "busy", c02Busy, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "side", i01, "kind", rangeInts(3), "what", rangeInts(3), "cause", rangeInts(3)), 0, 1), 1, 2, th)
	})
	reg("C09", "busy", c02Busy, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "side", i01, "kind", []int{3, 4}, "what", rangeInts(3), "cause", rangeInts(3)), 0, 1), 1, 2, th)
	})
	reg("C03", "patience", c03Patience, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "side", i01, "pool", i01), 0, 1, th)
	})
	reg("C15", "patience", c15Patience, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", []int{1}, "side", i01, "bsend", i01, "queue", []int{0, 1, 3}, "kind", rangeInts(8)), 0, 1), 0, 1, th)
	})
	reg("C09", "patience", c09Patience, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "who", i01, "kind", rangeInts(3), "pool", i01), 0, 1), 0, 1, th)
	})
	reg("C12", "patience", c12Many, func(th bool) []mc.Config {
		return with(bound(cross("", "async", i01, "limit", []int{0, 5001}, "fails", []int{5000}), 0, 0, th), func(c *mc.Config) { c.MaxSteps = 2000000 })
	})
	reg("C22", "patience", c22Patience, func(th bool) []mc.Config {
		return with(bound(cross("", "n", []int{1, 3}, "tries", []int{10, 100, 1000, 4000}, "del", i01), 0, 0, th), func(c *mc.Config) { c.MaxSteps = 2000000 })
	})
	reg("C22", "scale", c22Scale, func(th bool) []mc.Config {
		return with(bound(cross("", "n", []int{150}, "w", []int{1, 3}), 0, 0, th), func(c *mc.Config) { c.MaxSteps = 2000000 })
	})
	reg("C18", "patience", c18Patience, func(th bool) []mc.Config {
		return with(bound(cross("", "async", i01, "out", []int{0, 60, 5000}, "topics", []int{1, 40, 200}), 0, 0, th), func(c *mc.Config) { c.MaxSteps, c.Calm = 2000000, true })
	})
	reg("C16", "scale", c16Scale, func(th bool) []mc.Config {
		return with(bound(cross("", "async", []int{1}, "n", []int{70, 150}, "ctor", i01, "alive", []int{0, 1, 2}), 0, 0, th), func(c *mc.Config) { c.MaxSteps, c.Calm = 2000000, true })
	})
	reg("C01", "huge", c01Huge, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "size", huge, "kind", rangeInts(4), "err", i01), 0, 0, th)
	})
	reg("C04", "huge", c04Huge, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "bsend", i01, "brecv", i01, "size", huge), 0, 0, th)
	})
	reg("C08", "huge", c08Huge, func(th bool) []mc.Config {
		return bound(cross("", "size", huge, "noise", i01), 0, 0, th)
	})
	reg("C09", "huge", c09Huge, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "size", huge, "back", i01), 0, 0, th)
	})
	reg("C14", "huge", c14Huge, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "size", huge, "zip", i01), 0, 0, th)
	})
	reg("C17", "huge", c17Huge, func(th bool) []mc.Config {
		return bound(cross("", "size", []int{1<<16 - 1, 1 << 16, 1<<16 + 1, 1<<20 + 1, 5 << 20}, "from", i01, "one", i01), 0, 0, th)
	})
	reg("C19", "huge", c19Huge, func(th bool) []mc.Config {
		return bound(cross("", "deflt", rangeInts(4), "n", hugeMem, "m", hugeMem), 0, 0, th)
	})
	reg("C23", "limits", c23Limits, func(th bool) []mc.Config {
		return bound(cross("", "max", []int{4, 100, 127, 128, 255, 256, 32767, 32768, 40000, 65535, 65536, 1 << 20, 1<<31 - 1}), 0, 0, th)
	})
}

var (
	huge    = []int{1<<20 - 1, 1 << 20, 1<<20 + 1, 5 << 20, 17 << 20}
	hugeMem = []int{100, 1<<20 - 1, 1 << 20, 1<<20 + 1, 5 << 20}
)

var patience = []time.Duration{time.Millisecond, time.Second, 31 * time.Second, 61 * time.Second, 11 * time.Minute, 2 * time.Hour, 9 * time.Hour}

func blob(n, salt int) []byte {
	p := make([]byte, n)
	x := uint32(salt*2654435761 + 1)
	for i := 0; i+4 <= n; i += 4 {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		p[i], p[i+1], p[i+2], p[i+3] = byte(x), byte(x>>8), byte(x>>16), byte(x>>24)
	}
	return p
}

// how long a call may take: the answer comes at the last moment, or never
func c02Patience(c *mc.Config) {
	cli, b := endpoint(c, c.Get("side"), nil)
	mc.Idle()
	d := patience[mc.Choose(len(patience))]
	comes := mc.Choose(3) // in time, never, and there is no end
	go func() {
		f := mustFrame(b)
		if comes == 1 {
			return
		}
		if comes == 2 {
			time.Sleep(9 * hour)
		} else {
			time.Sleep(d - time.Millisecond/2)
		}
		b.Write((&frame{cmd: 2, method: f.method, seq: f.seq, flag: f.flag, data: "re:" + f.data}).bytes())
	}()
	rsp := ""
	var err error
	ctx, cancel := context.Background(), func() {}
	if comes != 2 {
		ctx, cancel = context.WithTimeout(context.Background(), d)
	}
	switch c.Get("kind") {
	case 0:
		if comes == 2 {
			d = 10 * hour
		}
		err = cli.Call("/m", "q", &rsp, d)
	case 1:
		err = cli.CallContext(ctx, "/m", "q", &rsp)
	case 2:
		err = cli.CallWith(ctx, "/m", "q", &rsp)
	}
	cancel()
	el := mc.Elapsed()
	if comes == 1 {
		mc.Assert(err == arpc.ErrClientTimeout && el == d, "a call with %v and no answer: %v after %v", d, err, el)
	} else {
		mc.Assert(err == nil && rsp == "re:q", "a call with %v (%d), answered in time: %q, %v after %v", d, comes, rsp, err, el)
	}
}

func c03Patience(c *mc.Config) {
	cli, b := endpoint(c, c.Get("side"), nil)
	mc.Idle()
	d := patience[mc.Choose(len(patience))]
	comes := mc.Choose(2) == 0
	a := newAsyncCalls(1)
	go func() {
		f := mustFrame(b)
		time.Sleep(d - time.Millisecond/2)
		if comes {
			b.Write((&frame{cmd: 2, method: f.method, seq: f.seq, flag: f.flag, data: "re:" + f.data}).bytes())
		}
	}()
	a.issue(cli, 0, d)
	mc.Assert(a.l[0].ret == nil, "CallAsync: %v", a.l[0].ret)
	time.Sleep(d - time.Millisecond/4 - mc.Elapsed())
	mc.Idle()
	mc.Sync()
	if comes {
		mc.Assert(len(a.l[0].cbs) == 1 && a.l[0].cbs[0] == "re:q0", "an asynchronous call with %v, answered in time: %v", d, a.l[0].cbs)
	} else {
		mc.Assert(len(a.l[0].cbs) == 0, "an asynchronous call with %v ended early: %v", d, a.l[0].cbs)
		time.Sleep(time.Millisecond)
		mc.Idle()
		mc.Sync()
		mc.Assert(len(a.l[0].cbs) == 1, "an asynchronous call with %v, not answered: %v", d, a.l[0].cbs)
	}
	mc.IdleAll()
	a.check()
}

// a send that may wait does wait, and then succeeds
func c15Patience(c *mc.Config) {
	kind := c.Get("kind")
	var reply error
	cli, b := endpointNet(c, c.Get("side"), func(h arpc.Handler) {
		h.Handle("/r", func(ctx *arpc.Context) {
			err := ctx.Write("late")
			mc.Sync()
			reply = err
		}, true)
		h.HandleStream("/s", func(s *arpc.Stream) {})
		h.HandleOverstock(func(*arpc.Client, *arpc.Message) { mc.Fail("overstock callback for a send that waits") })
	}, mc.NetConfig{BufLimit: 1})
	mc.Idle()
	g := newGroup()
	n := 0
	for k := 0; k < c.Get("queue")+2; k++ { // nothing is taken: fill the queue
		if cli.PushMsg(cli.NewMessage(arpc.CmdNotify, "/n", "fill"+itoa(k)), time.Second) == nil {
			n++
		}
	}
	wait := patience[mc.Choose(len(patience))]
	var err error
	done := false
	g.run(func() {
		ctx, cancel := context.WithTimeout(context.Background(), wait+time.Second)
		defer cancel()
		switch kind {
		case 0:
			err = cli.PushMsg(cli.NewMessage(arpc.CmdNotify, "/n", "late"), arpc.TimeForever)
		case 1:
			err = cli.Notify("/n", "late", wait+time.Second)
		case 2:
			err = cli.NotifyContext(ctx, "/n", "late")
		case 3:
			err = cli.NotifyWith(context.Background(), "/n", "late")
		case 4:
			err = cli.PushMsg(cli.NewMessage(arpc.CmdNotify, "/n", "late"), wait+time.Second)
		case 5:
			err = cli.CallAsync("/n", "late", func(*arpc.Context, error) {}, wait+time.Second)
		case 6: // the answer to a request
			b.Write((&frame{cmd: 1, method: "/r", seq: 9}).bytes())
			return
		case 7:
			err = cli.NewStream("/s").Send("late")
		}
		mc.Sync()
		done = true
	})
	time.Sleep(wait)
	mc.Idle()
	mc.Sync()
	mc.Assert(!done, "a send (kind %d) that may wait longer than %v ended at %v: %v", kind, wait, mc.Elapsed(), err)
	got := &evs{}
	b.Peer().SetLimit(0)
	b.SetLimit(0)
	go collect(b, got)
	g.wait()
	mc.Idle()
	mc.Sync()
	mc.Assert(err == nil && reply == nil, "a send (kind %d) with room after %v: %v %v", kind, wait, err, reply)
	mc.Assert(got.count("late") == 1, "a send (kind %d) accepted after %v arrived %d times", kind, wait, got.count("late"))
	mc.Assert(len(got.all()) == n+1, "arrived: %v", got)
}

// a stream on which nothing happens for long
func c09Patience(c *mc.Config) {
	r := newRig(c)
	d := patience[mc.Choose(len(patience)-1)]
	slow := mc.Choose(3) // the sender, the receiver, both
	kind := c.Get("kind")
	total := 12
	send := func(st *arpc.Stream) {
		for i := 0; i < total; i++ {
			if slow != 1 && (i == 1 || i == total-1) {
				time.Sleep(d)
			}
			var err error
			switch kind {
			case 0:
				err = st.Send("m" + itoa(i))
			case 1:
				err = st.SendContext(background(), "m"+itoa(i))
			case 2:
				err = st.SendWith(background(), "m"+itoa(i))
			}
			mc.Assert(err == nil, "send %d at %v: %v", i, mc.Elapsed(), err)
		}
		if slow != 1 {
			time.Sleep(d)
		}
		st.CloseSend()
	}
	recv := func(st *arpc.Stream) {
		for i := 0; i < total; i++ {
			if slow != 0 && (i == 1 || i == total-1) {
				time.Sleep(d)
			}
			s, err := recvKind(st, kind)
			mc.Assert(err == nil && s == "m"+itoa(i), "message %d at %v: %q, %v", i, mc.Elapsed(), s, err)
		}
		_, err := recvKind(st, kind)
		mc.Assert(err != nil && err.Error() == "EOF", "end: %v", err)
	}
	h := newHandler(c, "cli")
	h.SetStreamQueueSize(2)
	h.SetSendQueueSize(2)
	r.srv.Handler.SetStreamQueueSize(2)
	r.srv.Handler.SetSendQueueSize(2)
	fin := newLatch()
	r.srv.Handler.HandleStream("/st", func(st *arpc.Stream) {
		if c.Get("who") == 0 {
			recv(st)
			st.CloseSend()
		} else {
			recvKind(st, 0)
			send(st)
		}
		fin.fire()
	}, true)
	r.serve()
	cli := r.client(h)
	st := cli.NewStream("/st")
	if c.Get("who") == 0 {
		send(st)
	} else {
		mc.Assert(st.Send("open") == nil, "open")
		recv(st)
		st.CloseSend()
	}
	fin.wait()
}

// a node that becomes reachable after many attempts, or is deleted after them
func c22Patience(c *mc.Config) {
	f := newFleet()
	n := c.Get("n")
	for i := 0; i < n; i++ {
		f.down["h"+itoa(i)] = true
		f.sm.AddServiceNodes("app/s/h"+itoa(i), itoa(i+1))
	}
	time.Sleep(time.Duration(c.Get("tries")) * time.Second)
	_, err := f.sm.ClientBy("s")
	mc.Assert(err == micro.ErrServiceUnreachable, "ClientBy: %v", err)
	for i := 0; i < n; i++ {
		f.down["h"+itoa(i)] = false
	}
	if c.Get("del") == 1 {
		f.sm.DeleteServiceNodes("app/s/h0")
	}
	time.Sleep(time.Minute)
	for i := 0; i < n; i++ {
		want := 1
		if i == 0 && c.Get("del") == 1 {
			want = 0
		}
		mc.Assert(f.open("h"+itoa(i)) == want, "node %d, reachable for a minute after %d seconds: %d connections, want %d", i, c.Get("tries"), f.open("h"+itoa(i)), want)
	}
	seen := map[string]int{}
	for k := 0; k < 12; k++ {
		cl, err := f.sm.ClientBy("s")
		if n == 1 && c.Get("del") == 1 {
			mc.Assert(err == micro.ErrServiceNotFound, "ClientBy: %v", err)
			continue
		}
		mc.Assert(err == nil, "ClientBy: %v", err)
		seen[f.node(cl)]++
		usable(cl, "client")
	}
	mc.Outcome("%v", seen)
	for i := 0; i < n; i++ {
		f.sm.DeleteServiceNodes("app/s/h" + itoa(i))
	}
	time.Sleep(time.Minute)
	mc.IdleAll()
	mc.Assert(mc.Live() == 0, "goroutines left: %s", mc.LiveDesc())
}

// a large fleet
func c22Scale(c *mc.Config) {
	f := newFleet()
	n, w := c.Get("n"), c.Get("w")
	for i := 0; i < n; i++ {
		f.sm.AddServiceNodes("app/s/h"+itoa(i), itoa(w))
	}
	mc.Idle()
	seen := map[string]int{}
	for k := 0; k < 2*n*w; k++ {
		cl, err := f.sm.ClientBy("s")
		mc.Assert(err == nil, "ClientBy: %v", err)
		seen[f.node(cl)]++
	}
	for i := 0; i < n; i++ {
		mc.Assert(seen["h"+itoa(i)] == 2*w, "node %d was picked %d times in %d picks", i, seen["h"+itoa(i)], 2*n*w)
	}
	for i := 0; i < n; i += 2 {
		f.sm.DeleteServiceNodes("app/s/h" + itoa(i))
	}
	mc.IdleAll()
	for i := 0; i < n; i++ {
		mc.Assert(f.open("h"+itoa(i)) == i%2, "node %d has %d connections", i, f.open("h"+itoa(i)))
	}
	for k := 0; k < n*w; k++ {
		cl, err := f.sm.ClientBy("s")
		mc.Assert(err == nil && f.node(cl) != "h0", "ClientBy: %v", err)
	}
	for i := n - 1; i >= 0; i-- {
		f.sm.DeleteServiceNodes("app/s/h" + itoa(i))
	}
	mc.IdleAll()
	for i := 0; i < n; i++ {
		mc.Assert(f.open("h"+itoa(i)) == 0, "deleted node %d has %d connections", i, f.open("h"+itoa(i)))
	}
	_, err := f.sm.ClientBy("s")
	mc.Assert(err == micro.ErrServiceNotFound, "ClientBy: %v", err)
	mc.Assert(mc.Live() == 0, "goroutines left: %s", mc.LiveDesc())
}

func c01Huge(c *mc.Config) {
	r := newRig(c)
	n, isErr := c.Get("size"), c.Get("err") == 1
	r.srv.Handler.Handle("/m", func(ctx *arpc.Context) {
		s := append([]byte{}, ctx.Body()...)
		for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
			s[i], s[j] = s[j], s[i]
		}
		if isErr {
			ctx.Error(string(s))
			return
		}
		ctx.Write(s)
	})
	r.serve()
	cli := r.client(nil)
	p := blob(n, 1)
	if isErr {
		p[0] = 1
	}
	q := append([]byte{}, p...)
	for i, j := 0, len(q)-1; i < j; i, j = i+1, j-1 {
		q[i], q[j] = q[j], q[i]
	}
	s, err := call(cli, c.Get("kind"), "/m", p)
	if isErr {
		mc.Assert(err != nil && err.Error() == string(q), "an error text of %d bytes came as one of %d", n, len(errStr(err)))
	} else {
		mc.Assert(err == nil && s == string(q), "an answer of %d bytes came as %d, %v", n, len(s), err)
	}
}

func c04Huge(c *mc.Config) {
	r := newRig(c)
	got := &evs{}
	r.srv.Handler.Handle("/a", func(ctx *arpc.Context) { got.add(string(ctx.Body())) }, false)
	r.serve()
	cli := r.client(nil)
	var want []string
	for j, n := range []int{5, c.Get("size"), 70000, c.Get("size"), 3} {
		p := blob(n, j)
		want = append(want, string(p))
		mc.Assert(cli.Notify("/a", p, hour) == nil, "notify")
	}
	mc.Idle()
	l := got.all()
	mc.Assert(len(l) == len(want), "%d messages arrived", len(l))
	for i := range l {
		mc.Assert(l[i] == want[i], "a payload of %d bytes arrived as %d or with other content", len(want[i]), len(l[i]))
	}
}

func c08Huge(c *mc.Config) {
	begin()
	h := arpc.NewHandler()
	var p []byte
	if c.Get("noise") == 1 {
		p = blob(c.Get("size"), 3)
	} else {
		p = make([]byte, c.Get("size"))
		for i := range p {
			p[i] = byte(i / 1000)
		}
	}
	raw := rawFrame(1, 0, 0, "/m", 7, p)
	m := gzip.New(0).Encode(nil, h.NewMessageWithBuffer(append([]byte{}, raw...)))
	mc.Assert(m.BodyLen() == len(m.Buffer)-16, "encoded body length %d, buffer %d", m.BodyLen(), len(m.Buffer))
	if c.Get("noise") == 0 {
		mc.Assert(len(m.Buffer) < len(raw)/2, "%d bytes were encoded as %d", len(raw), len(m.Buffer))
	}
	m2 := gzip.New(0).Decode(nil, h.NewMessageWithBuffer(append([]byte{}, m.Buffer...)))
	mc.Assert(string(m2.Buffer) == string(raw), "a payload of %d bytes was decoded to %d or with other content", len(p), len(m2.Data()))
}

func c09Huge(c *mc.Config) {
	r := newRig(c)
	n := c.Get("size")
	var want []string
	for i, k := range []int{4, n, 100, n + 1} {
		want = append(want, string(blob(k, i)))
	}
	send := func(st *arpc.Stream) {
		for i := range want {
			mc.Assert(st.Send(want[i]) == nil, "send")
		}
		st.CloseSend()
	}
	recv := func(st *arpc.Stream) {
		for i := range want {
			s, err := recvKind(st, 0)
			mc.Assert(err == nil && s == want[i], "a stream message of %d bytes came as %d, %v", len(want[i]), len(s), err)
		}
		_, err := recvKind(st, 0)
		mc.Assert(err != nil && err.Error() == "EOF", "end: %v", err)
	}
	fin := newLatch()
	back := c.Get("back") == 1
	r.srv.Handler.HandleStream("/st", func(st *arpc.Stream) {
		if back {
			recvKind(st, 0)
			send(st)
		} else {
			recv(st)
		}
		fin.fire()
	}, true)
	r.serve()
	cli := r.client(nil)
	st := cli.NewStream("/st")
	if back {
		mc.Assert(st.Send("open") == nil, "open")
		recv(st)
	} else {
		send(st)
	}
	fin.wait()
}

func c14Huge(c *mc.Config) {
	r := newRig(c)
	if c.Get("zip") == 1 {
		r.srv.Handler.UseCoder(gzip.New(1000))
	}
	r.up()
	var got [3]*evs
	for i := range got {
		got[i] = &evs{}
		h := newHandler(c, "cli")
		if c.Get("zip") == 1 {
			h.UseCoder(gzip.New(1000))
		}
		e := got[i]
		h.Handle("/b", func(ctx *arpc.Context) { e.add(string(ctx.Body())) }, false)
		r.client(h)
	}
	mc.Idle()
	p := make([]byte, c.Get("size"))
	for i := range p {
		p[i] = byte(i / 1000)
	}
	r.srv.Broadcast("/b", p)
	r.srv.Broadcast("/b", "next")
	mc.Idle()
	for i, e := range got {
		l := e.all()
		mc.Assert(len(l) == 2 && l[0] == string(p) && l[1] == "next", "client %d got %d messages", i, len(l))
	}
}

func c17Huge(c *mc.Config) {
	n := c.Get("size")
	w := newHub(c)
	w.join()
	w.join()
	w.sub(0, "t")
	mc.Idle()
	backing := blob(n+64, 5)
	orig := string(backing)
	w.pub(c.Get("from")*2-1, c.Get("one") == 1, "t", backing[:n])
	mc.Idle()
	mc.Assert(string(backing) == orig, "publishing %d bytes changed the caller's memory", n)
	l := w.got[0].all()
	mc.Assert(len(l) == 1 && l[0] == "t="+orig[:n], "a publication of %d bytes: %d arrived", n, len(l))
}

func c19Huge(c *mc.Config) {
	begin()
	var a arpc.Allocator
	switch c.Get("deflt") {
	case 0:
		a = arpc.New(0, 0)
	case 1:
		a = arpc.New(64, 64)
	case 2:
		a = arpc.New(1<<20, 1<<20)
	case 3:
		a = pkgAlloc{}
	}
	s := &lives{}
	n, m := c.Get("n"), c.Get("m")
	s.malloc(a, n)
	s.malloc(a, n)
	s.realloc(a, 0, m)
	s.append(a, 1, m, true)
	s.free(a, 0)
	s.malloc(a, m)
	s.append(a, 0, 1, false)
	s.realloc(a, 1, n)
	s.malloc(a, n)
	s.check()
}

// limits of all sizes with few connections
func c23Limits(c *mc.Config) {
	max := c.Get("max")
	s := newSplit(max)
	s.accept()
	for i := 0; i < 5; i++ {
		_, err := s.sim.Dial()
		mc.Assert(err == nil, "dial: %v", err)
		mc.Idle()
		want := 0
		if i >= max {
			want = 1
		}
		mc.Assert(s.where(s.sim.Conns[i]) == want, "connection %d with limit %d went to %d", i, max, s.where(s.sim.Conns[i]))
	}
}

// many subscriptions and a long outage
func c18Patience(c *mc.Config) {
	w := newHub(c)
	x := w.join()
	w.join()
	n := c.Get("topics")
	for i := 0; i < n; i++ {
		w.sub(0, "t"+itoa(i))
	}
	mc.Idle()
	for round := 0; round < 2; round++ {
		mc.Sync()
		w.deny = c.Get("out") > 0
		for _, cn := range w.ln.Conns {
			if cn != w.ln.Conns[1] {
				cn.Cut()
			}
		}
		time.Sleep(time.Duration(c.Get("out")) * time.Second)
		mc.Sync()
		w.deny = false
		time.Sleep(time.Minute)
		mc.Idle()
		mc.Assert(x.CheckState() == nil, "the client did not come back after %d s: %v", c.Get("out"), x.CheckState())
		w.got[0] = &evs{}
		for i := 0; i < n; i++ {
			w.pub(1, false, "t"+itoa(i), "m")
		}
		mc.Idle()
		for i := 0; i < n; i++ {
			mc.Assert(w.got[0].count("t"+itoa(i)+"=m") == 1, "after an outage of %d s topic %d of %d was delivered %d times", c.Get("out"), i, n, w.got[0].count("t"+itoa(i)+"=m"))
		}
	}
}

// large pools, most members of which have stopped
func c16Scale(c *mc.Config) {
	n := c.Get("n")
	w := newPoolWorld()
	p, err := w.make(c, n)
	mc.Assert(err == nil && p.Size() == n, "pool: %v", err)
	mc.Idle()
	picks := map[*arpc.Client]int{}
	for k := 0; k < 2*n; k++ {
		picks[p.Next()]++
	}
	for i := 0; i < n; i++ {
		mc.Assert(picks[p.Get(i)] == 2, "member %d of %d was picked %d times in %d calls", i, n, picks[p.Get(i)], 2*n)
	}
	alive := c.Get("alive")
	up := map[*arpc.Client]bool{}
	first := mc.Choose(2) * (n - 1 - alive)
	for i := 0; i < n; i++ {
		if i >= first && i < first+alive {
			up[p.Get(i)] = true
			continue
		}
		p.Get(i).Stop()
	}
	mc.Idle()
	for k := 0; k < n+3; k++ {
		x := p.Next()
		mc.Assert(x != nil, "Next returned nil")
		mc.Assert(alive == 0 || up[x], "Next returned a stopped member of %d with %d connected", n, alive)
	}
	p.Stop()
	mc.IdleAll()
	mc.Assert(mc.Live() == 0, "goroutines left: %s", mc.LiveDesc())
}

// calls and streams waiting when the connection ends, and the end of the
// connection finds its callbacks or the next dial busy for long
func c02Busy(c *mc.Config) {
	kind, what := c.Get("kind"), c.Get("what")
	hold := newLatch()
	set := func(h arpc.Handler) {
		if what == 0 {
			h.HandleDisconnected(func(*arpc.Client) { hold.wait() })
		}
	}
	var cli *arpc.Client
	var b *mc.Conn
	if c.Get("side") == 0 {
		begin()
		h := newHandler(c, "cli")
		h.SetMaxReconnectTimes(1)
		set(h)
		w := &world{}
		w.plan = func(n int) bool { return n == 1 }
		w.gate = func(n int) {
			if n > 1 && what == 1 {
				hold.wait()
			}
		}
		var err error
		cli, err = arpc.NewClient(w.dial, h)
		mc.Assert(err == nil, "%v", err)
		mc.Idle()
		b = w.far[0]
	} else {
		r := newRig(c)
		set(r.srv.Handler)
		r.srv.Handler.HandleConnected(func(x *arpc.Client) {
			mc.Sync()
			cli = x
			if what == 1 {
				hold.wait()
			}
		})
		r.up()
		b = r.raw()
		mc.Idle()
		mc.Sync()
		if cli == nil {
			return
		}
		go func() {
			for {
				if _, err := readFrame(b); err != nil {
					return
				}
			}
		}()
	}
	if what == 2 { // an asynchronous call's callback
		cli.CallAsync("/hold", "x", func(*arpc.Context, error) { hold.wait() }, hour)
	}
	g := newGroup()
	g.run(func() {
		var err error
		switch kind {
		case 0:
			err = cli.Call("/hold", "q", nil, 2*hour)
		case 1:
			err = cli.CallContext(background(), "/hold", "q", nil)
		case 2:
			err = cli.CallWith(background(), "/hold", "q", nil)
		case 3:
			st := cli.NewStream("/s")
			st.Send("x")
			_, err = recvKind(st, 0)
		case 4:
			st := cli.NewStream("/s")
			st.Send("x")
			_, err = recvKind(st, 1)
		}
		mc.Assert(err != nil, "kind %d returned without an error", kind)
		mc.Assert(mc.Elapsed() == 0, "kind %d returned only after %v: %v", kind, mc.Elapsed(), err)
	})
	if kind > 2 {
		mc.Idle()
	}
	switch c.Get("cause") {
	case 0:
		b.Close()
	case 1:
		b.Cut()
	case 2:
		cli.Stop()
	}
	g.wait()
	hold.fire()
}
