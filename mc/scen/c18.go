package scen

import (
	"encoding/binary"
	"net"
	"strings"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/pubsub"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

func init() {
	reg("C18", "access", c18Access, func(th bool) []mc.Config {
		n := 4
		if th {
			n = 5
		}
		return bound(cross("", "async", i01, "rsp", i01, "n", []int{n}, "first", []int{0, 1, 2, 3, 4, 5}), 0, 0, th)
	})
	reg("C18", "leave", c18Leave, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "rsp", i01, "cause", []int{0, 1, 2, 3}, "doing", []int{0, 1, 2, 3, 4, 5}), 0, 1), 1, 2, th)
	})
	reg("C18", "reauth", c18Reauth, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "rsp", i01, "conc", i01), 0, 1), 2, 3, th)
	})
	reg("C18", "reconnect", c18Reconnect, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "cause", []int{0, 1}, "mean", []int{0, 1, 2, 3}), 0, 1), 1, 2, th)
	})
	reg("C18", "reconnect-unsubscribe", c18Reconnect, func(th bool) []mc.Config {
		return bound(cross("", "async", []int{1}, "cause", []int{0}, "mean", []int{2}, "all", []int{1}), 1, 2, th)
	})
	reg("C18", "comeback", c18Comeback, func(th bool) []mc.Config {
		n := 3
		if th {
			n = 4
		}
		return bound(cross("", "async", i01, "fails", []int{0, 1, 2}, "kind", i01, "n", rangeInts(n+1)), 0, 1, th)
	})
	reg("C18", "panic", c18Panic, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "pool", i01, "beh", []int{0, 1, 2, 3}), 1, 2, th)
	})
	reg("C18", "resub", c18Resub, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "fail", i01), 1, 2, th)
	})
	reg("C18", "malformed", c18Malformed, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "rsp", i01, "pool", i01, "route", []int{0, 1, 2, 3, 4}), 0, 1, th)
	})
	reg("C18", "unframed", c18Client, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "pool", i01), 0, 1, th)
	})
}

// what the routes are called on the wire
var psRoutes = []string{"in_S", "in_U", "in_P", "in_P1"}

// topicFrame encodes a topic independently of the code under test.
func topicFrame(name, data string, at uint64) string {
	b := make([]byte, 10)
	binary.LittleEndian.PutUint16(b, uint16(len(name)))
	binary.LittleEndian.PutUint64(b[2:], at)
	return data + name + string(b)
}

// watch reports messages handed to connections that have ended.
func (w *hub) watch() {
	if w.c.Get("pool") == 1 {
		return
	}
	w.srv.Handler.HandleMessageDone(func(x *arpc.Client, m *arpc.Message) {
		mc.Sync()
		if w.closed && x.CheckState() != nil && m.Cmd() == arpc.CmdNotify {
			w.wasted.add(m.Method())
		}
	})
}

// noGhosts checks that no ended connection is still subscribed.
func (w *hub) noGhosts(topics ...string) {
	mc.Sync()
	w.closed = true
	for _, t := range topics {
		mc.Assert(w.srv.Publish(t, "ghost?") == nil, "publish")
		mc.Assert(w.srv.PublishToOne(t, "ghost?") == nil, "publish")
	}
	mc.Idle()
	mc.Assert(len(w.wasted.all()) == 0, "%d messages were published to connections that have ended", len(w.wasted.all()))
}

const psWait = time.Second

// every sequence of operations of a connection, authenticated or not
func c18Access(c *mc.Config) {
	w := newHub(c)
	w.join()
	w.sub(0, "t") // the observer
	x := w.dialed()
	authed, subbed := false, false
	for step := 0; step < c.Get("n"); step++ {
		op := 0
		if step == 0 {
			op = c.Get("first")
		} else {
			op = mc.Choose(6)
		}
		w.got[0], w.got[1] = &evs{}, &evs{}
		data := "m" + itoa(step)
		var err error
		switch op {
		case 0:
			x.Password = "pw"
			err = x.Authenticate()
			mc.Assert(err == nil, "authentication with the right password: %v", err)
			authed = true
			continue
		case 1:
			x.Password = []string{"", "p", "pw "}[step%3]
			err = x.Authenticate()
			mc.Assert(err != nil && err.Error() == pubsub.ErrInvalidPassword.Error(), "authentication with a wrong password: %v", err)
			continue
		case 2:
			err = x.Subscribe("t", w.note(1), psWait)
			subbed = subbed || authed
		case 3:
			err = x.Unsubscribe("t", psWait)
			subbed = subbed && !authed
		case 4:
			err = x.Publish("t", data, psWait)
		case 5:
			err = x.PublishToOne("t", data, psWait)
		}
		mc.Idle()
		if !authed {
			mc.Assert(err != nil, "step %d: operation %d succeeded without authentication", step, op)
		} else {
			mc.Assert(err == nil, "step %d: operation %d failed with authentication: %v", step, op, err)
		}
		n0, n1 := w.got[0].count("t="+data), w.got[1].count("t="+data)
		mc.Assert(n0 == len(w.got[0].all()) && n1 == len(w.got[1].all()), "got %v and %v", w.got[0], w.got[1])
		switch {
		case !authed || op < 4:
			mc.Assert(n0 == 0 && n1 == 0, "step %d: operation %d published something", step, op)
		case op == 4:
			mc.Assert(n0 == 1 && (n1 == 1) == subbed, "published: %d and %d times", n0, n1)
		case op == 5:
			mc.Assert(n0+n1 == 1 && (subbed || n1 == 0), "published to one: %d and %d times", n0, n1)
		}
		// what the server publishes reaches the connection exactly if it is subscribed
		w.pub(-1, false, "t", "srv")
		mc.Idle()
		want := 0
		if subbed {
			want = 1
		}
		mc.Assert(w.got[0].count("t=srv") == 1 && w.got[1].count("t=srv") == want, "server's message: %v and %v, want %d", w.got[0], w.got[1], want)
	}
}

// a connection ends while it does something
func c18Leave(c *mc.Config) {
	w := newHub(c)
	w.watch()
	w.join()
	w.sub(0, "t")
	x := w.join()
	x.Handler.SetMaxReconnectTimes(1)
	doing := c.Get("doing")
	if doing != 1 && doing != 5 {
		w.sub(1, "t")
	}
	mc.Idle()
	w.deny = true
	g := newGroup()
	g.run(func() {
		switch doing {
		case 1:
			x.Subscribe("t", w.note(1), psWait)
		case 2:
			x.Unsubscribe("t", psWait)
		case 3:
			x.Publish("t", "mine", psWait)
		case 4:
			w.srv.Publish("t", "other")
		case 5:
			x.Authenticate()
			x.Subscribe("t", w.note(1), psWait)
		}
	})
	switch c.Get("cause") {
	case 0:
		x.Stop()
	case 1:
		w.ln.Conns[1].Cut()
	case 2:
		w.ln.Conns[1].Close()
	case 3:
		w.ln.Conns[1].Peer().Write([]byte{0xff, 0xff, 0xff, 0xff, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0})
	}
	g.wait()
	mc.IdleAll()
	w.got[0], w.got[1] = &evs{}, &evs{}
	w.noGhosts("t")
	mc.Assert(w.got[0].count("t=ghost?") == 2 && len(w.got[1].all()) == 0, "after one left: %v and %v", w.got[0], w.got[1])
}

// authenticating again
func c18Reauth(c *mc.Config) {
	w := newHub(c)
	w.watch()
	x := w.join()
	x.Handler.SetMaxReconnectTimes(1)
	w.join()
	g := newGroup()
	auth := func() { mc.Assert(x.Authenticate() == nil, "authenticating again") }
	if c.Get("conc") == 1 {
		g.run(auth)
	}
	w.sub(0, "t")
	if c.Get("conc") == 0 {
		auth()
	}
	w.sub(0, "u")
	g.wait()
	for _, t := range []string{"t", "u"} {
		w.pub(1, false, t, "m")
		mc.Idle()
		mc.Assert(w.got[0].count(t+"=m") == 1, "after authenticating again: %v", w.got[0])
	}
	if mc.Choose(2) == 0 {
		// unsubscribing still works
		w.got[0] = &evs{}
		w.unsub(0, "t")
		w.unsub(0, "u")
		seen := &evs{}
		x.OnPublish(func(tp *pubsub.Topic) { seen.add(tp.Name) })
		w.pub(1, false, "t", "m2")
		w.pub(1, false, "u", "m2")
		mc.Idle()
		mc.Assert(len(w.got[0].all())+len(seen.all()) == 0, "unsubscribed but got %v %v", w.got[0], seen)
	} else {
		w.deny = true
		x.Stop()
		mc.IdleAll()
		w.noGhosts("t", "u")
	}
}

// subscriptions come back after the connection was lost
func c18Reconnect(c *mc.Config) {
	w := newHub(c)
	w.watch()
	x := w.join()
	w.join()
	w.sub(0, "t")
	w.sub(0, "u")
	seen := &evs{}
	mc.Idle()
	g := newGroup()
	switch c.Get("mean") {
	case 1:
		g.run(func() {
			if w.clis[1].Publish("t", "between", psWait) == nil {
				mc.Sync()
			}
		})
	case 2: // leave one topic as soon as possible
		g.run(func() {
			for x.Unsubscribe("u", psWait) != nil {
				time.Sleep(psWait / 4)
			}
		})
	case 3: // join another one
		g.run(func() {
			for x.Subscribe("v", w.note(0), psWait) != nil {
				time.Sleep(psWait / 4)
			}
		})
	}
	if c.Get("cause") == 0 {
		w.ln.Conns[0].Cut()
	} else {
		w.ln.Conns[0].Close()
	}
	g.wait()
	mc.IdleAll()
	mc.Assert(x.CheckState() == nil && len(w.ln.Conns) == 3, "the client did not reconnect (%v)", x.CheckState())
	mc.Assert(w.got[0].count("t=between") <= 1, "got %v", w.got[0])
	w.got[0] = &evs{}
	if c.Get("all") == 1 || c.Get("mean") != 2 && mc.Choose(2) == 1 {
		x.OnPublish(func(tp *pubsub.Topic) { seen.add(tp.Name) })
		for _, t := range []string{"t", "u", "v"} {
			w.pub(1, false, t, "m")
		}
		mc.Idle()
		want := "t u"
		if c.Get("mean") == 2 {
			want = "t"
		} else if c.Get("mean") == 3 {
			want = "t u v"
		}
		for _, t := range []string{"t", "u", "v"} {
			n := 0
			if strings.Contains(want, t) {
				n = 1
			}
			if c.Get("mean") == 2 && t == "u" {
				mc.Assert(seen.count(t) == 0, "a topic unsubscribed from while reconnecting is subscribed again")
			}
			mc.Assert(seen.count(t) == n, "after reconnecting it gets topics %v, want %s", seen, want)
		}
		return
	}
	for _, t := range []string{"t", "u", "v"} {
		w.pub(1, false, t, "m")
		mc.Idle()
		want := 1
		if t == "u" && c.Get("mean") == 2 || t == "v" && c.Get("mean") != 3 {
			want = 0
		}
		mc.Assert(w.got[0].count(t+"=m") == want, "after reconnecting, topic %s: %v, want %d", t, w.got[0], want)
	}
	w.closed = true
	w.pub(-1, false, "t", "again")
	mc.Idle()
	mc.Assert(len(w.wasted.all()) == 0, "messages were published to the lost connection")
}

// after a reconnection exactly what was subscribed is subscribed again, also
// if the first attempts fail
func c18Comeback(c *mc.Config) {
	begin()
	have := map[string]bool{}
	fails, asked := 0, 0
	back := false
	serve := func(b *mc.Conn) {
		for {
			f, err := readFrame(b)
			if err != nil {
				return
			}
			mc.Sync()
			if f.cmd != 1 {
				continue
			}
			r := &frame{cmd: 2, method: f.method, seq: f.seq}
			if f.method == "in_S" || f.method == "in_U" {
				n := int(binary.LittleEndian.Uint16([]byte(f.data[len(f.data)-10:])))
				name := f.data[len(f.data)-10-n : len(f.data)-10]
				if back {
					asked++
					if fails > 0 {
						fails--
						if c.Get("kind") == 0 {
							continue
						}
						r.flag, r.data = 1, "later"
					}
				}
				if r.flag == 0 {
					have[name] = f.method == "in_S"
				}
			}
			b.Write(r.bytes())
		}
	}
	conns := []*mc.Conn{}
	x, err := pubsub.NewClient(func() (net.Conn, error) {
		a, b := mc.Pipe("p"+itoa(len(conns)), mc.NetConfig{})
		conns = append(conns, a)
		go serve(b)
		return a, nil
	}, newHandler(c, "cli"))
	mc.Assert(err == nil, "%v", err)
	mc.Idle()
	x.Password = "pw"
	mc.Assert(x.Authenticate() == nil, "authentication failed")
	hist := ""
	for i := 0; i < c.Get("n"); i++ {
		op := mc.Choose(4)
		t := []string{"t", "u"}[op&1]
		if op < 2 {
			hist += " +" + t
			err = x.Subscribe(t, func(*pubsub.Topic) {}, psWait)
		} else {
			hist += " -" + t
			err = x.Unsubscribe(t, psWait)
		}
		mc.Assert(err == nil, "%v,%s", err, hist)
	}
	mc.Idle()
	mc.Sync()
	want := have
	have = map[string]bool{}
	fails = c.Get("fails")
	back = true
	conns[0].Cut()
	mc.IdleAll()
	mc.Sync()
	mc.Assert(len(conns) == 2 && x.CheckState() == nil, "the client did not reconnect")
	for _, t := range []string{"t", "u"} {
		mc.Assert(have[t] == want[t], "after%s and a reconnection with %d failures, topic %s: subscribed %v, want %v", hist, c.Get("fails"), t, have[t], want[t])
	}
	if !want["t"] && !want["u"] {
		mc.Assert(asked == 0, "after%s and a reconnection something is subscribed", hist)
	}
}

// a topic handler that misbehaves
func c18Panic(c *mc.Config) {
	w := newHub(c)
	x := w.join()
	w.join()
	n := &cnt{}
	rel := newLatch()
	err := x.Subscribe("t", func(tp *pubsub.Topic) {
		w.got[0].add(string(tp.Data))
		if n.inc() > 1 {
			return
		}
		switch c.Get("beh") {
		case 0:
			panic("topic handler")
		case 1:
			var m map[string]int
			m["x"] = 1
		case 2: // uses the client meanwhile
			go func() {
				mc.Assert(x.Subscribe("other", w.note(0), hour) == nil, "subscribe")
				rel.fire()
			}()
		case 3: // hands over to a goroutine and blocks a while
			go rel.fire()
			rel.wait()
		}
	}, hour)
	mc.Assert(err == nil, "%v", err)
	w.pub(1, false, "t", "m0")
	w.pub(1, false, "t", "m1")
	w.pub(-1, false, "t", "m2")
	mc.Idle()
	if c.Get("beh") >= 2 {
		rel.wait()
	}
	for _, m := range []string{"m0", "m1", "m2"} {
		mc.Assert(w.got[0].count(m) == 1, "deliveries: %v", w.got[0])
	}
	// and everything else still works
	g := newGroup()
	g.run(func() {
		w.sub(0, "late")
		w.unsub(0, "t")
	})
	g.wait()
	w.pub(1, false, "t", "m3")
	w.pub(1, false, "late", "m4")
	mc.Idle()
	mc.Assert(w.got[0].count("late=m4") == 1 && len(w.got[0].all()) == 4, "deliveries: %v", w.got[0])
	mc.Assert(mc.Elapsed() == 0, "took %v", mc.Elapsed())
}

// subscribing again, successfully or not
func c18Resub(c *mc.Config) {
	w := newHub(c)
	x := w.join()
	w.sub(0, "t")
	if c.Get("fail") == 1 {
		// the second attempt fails: the first subscription stays as it is
		err := x.Subscribe("t", func(tp *pubsub.Topic) { mc.Fail("the handler of the failed attempt was called") }, -1)
		mc.Assert(err != nil, "an attempt with an invalid timeout succeeded")
		w.pub(-1, false, "t", "m")
		mc.Idle()
		mc.Assert(w.got[0].String() == "t=m", "got %v after an attempt to subscribe again failed", w.got[0])
	} else {
		second := &evs{}
		mc.Assert(x.Subscribe("t", func(tp *pubsub.Topic) { second.add(string(tp.Data)) }, hour) == nil, "subscribing again")
		w.pub(-1, false, "t", "m")
		mc.Idle()
		mc.Assert(second.String() == "m" && len(w.got[0].all()) == 0, "got %v and %v", w.got[0], second)
	}
	w.unsub(0, "t")
	w.got[0] = &evs{}
	w.pub(-1, false, "t", "m2")
	mc.Idle()
	mc.Assert(len(w.got[0].all()) == 0, "unsubscribed, got %v", w.got[0])
}

// psBodies are topic frames: malformed ones, then valid ones
func psBodies() (bad []string) {
	for n := 0; n < 12; n++ {
		bad = append(bad, strings.Repeat("\x00", n))
	}
	tail := func(nameLen int) string { return topicFrame("", "", 0)[2:8] + "\x00\x00" }
	_ = tail
	mk := func(body string, nameLen uint16) string {
		b := make([]byte, 10)
		binary.LittleEndian.PutUint16(b, nameLen)
		return body + string(b)
	}
	bad = append(bad,
		mk("", 1), mk("", 1024), mk("a", 2), mk("a", 3), mk("abc", 4), mk("abc", 1024), mk("abc", 1025), mk("abc", 65535), mk("abc", 0),
		mk(strings.Repeat("x", 1025), 1025), mk(strings.Repeat("x", 1023), 1024), mk(strings.Repeat("x", 2000), 1500))
	return bad
}

// malformed topic frames of an authenticated connection
func c18Malformed(c *mc.Config) {
	w := newHub(c)
	w.watch()
	w.join()
	w.sub(0, "t")
	raw, err := w.ln.Dial()
	mc.Assert(err == nil, "dial")
	seq := uint64(0)
	ask := func(method, data string) *frame {
		seq++
		raw.Write((&frame{cmd: 1, method: method, seq: seq, data: data}).bytes())
		mc.Idle()
		mc.Assert(len(raw.Unread()) > 0, "no answer to %s %q", method, short(data))
		f := mustFrame(raw)
		mc.Assert(f.cmd == 2 && f.seq == seq, "answer %+v", *f)
		return f
	}
	if c.Get("route") == 4 { // password forms
		for _, p := range []string{"", "pw\x00", "PW", strings.Repeat("p", 300)} {
			f := ask("in_A", p)
			mc.Assert(f.flag&1 == 1 && f.data == pubsub.ErrInvalidPassword.Error(), "password %q: %+v", short(p), *f)
		}
	}
	mc.Assert(ask("in_A", "pw").flag&1 == 0, "authentication failed")
	if c.Get("route") < 4 {
		bodies := psBodies()
		b := bodies[mc.Choose(len(bodies))]
		f := ask(psRoutes[c.Get("route")], b)
		mc.Assert(f.flag&1 == 1 && f.data != "", "malformed topic % x was answered with %+v", short(b), *f)
	}
	mc.Assert(len(w.got[0].all()) == 0, "a malformed topic was published: %v", w.got[0])
	// the connection is still served
	mc.Assert(ask("in_S", topicFrame("t", "", 1)).flag&1 == 0, "subscribe")
	mc.Assert(ask("in_P", topicFrame("other", "x", 1)).flag&1 == 0, "publish")
	seq++
	raw.Write((&frame{cmd: 1, method: "in_P", seq: seq, data: topicFrame("t", "good", 7)}).bytes())
	a, b := mustFrame(raw), mustFrame(raw)
	if a.cmd == 3 {
		a, b = b, a
	}
	mc.Assert(a.cmd == 2 && a.flag&1 == 0 && b.cmd == 3 && b.method == "in_P" && b.data == topicFrame("t", "good", 7), "got %+v %+v", *a, *b)
	mc.Idle()
	mc.Assert(w.got[0].String() == "t=good", "got %v", w.got[0])
	mc.Assert(ask("in_U", topicFrame("t", "", 1)).flag&1 == 0, "unsubscribe")
	w.pub(-1, false, "t", "after")
	mc.Idle()
	mc.Assert(len(raw.Unread()) == 0, "unsubscribed but sent something")
}

// malformed topics sent to a client
func c18Client(c *mc.Config) {
	begin()
	a, b := mc.Pipe("p", mc.NetConfig{})
	go func() {
		for {
			f, err := readFrame(b)
			if err != nil {
				return
			}
			if f.cmd == 1 {
				b.Write((&frame{cmd: 2, method: f.method, seq: f.seq}).bytes())
			}
		}
	}()
	x, err := pubsub.NewClient(pipeDialer(a), newHandler(c, "cli"))
	mc.Assert(err == nil, "%v", err)
	got := &evs{}
	mc.Assert(x.Subscribe("t", func(tp *pubsub.Topic) { got.add(tp.Name + "=" + string(tp.Data)) }, hour) == nil, "subscribe")
	bodies := psBodies()
	body := bodies[mc.Choose(len(bodies))]
	flag := byte(mc.Choose(2))
	b.Write((&frame{cmd: 3, method: "in_P", flag: flag, data: body}).bytes())
	b.Write((&frame{cmd: 3, method: "in_P", data: topicFrame("u", "x", 7)}).bytes())
	b.Write((&frame{cmd: 3, method: "in_P", data: topicFrame("t", "good", 7)}).bytes())
	mc.Idle()
	mc.Assert(got.String() == "t=good", "got %v", got)
	mc.Assert(x.Publish("t", "y", hour) == nil, "the client is not usable any more")
}
