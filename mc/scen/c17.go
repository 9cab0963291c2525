package scen

import (
	"errors"
	"fmt"
	"net"
	"strings"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/pubsub"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

func init() {
	reg("C17", "history", c17History, func(th bool) []mc.Config {
		n := 4
		if th {
			n = 5
		}
		return bound(cross("", "async", i01, "n", []int{n}, "first", []int{0, 1, 2, 3, 4, 5, 6, 7}), 0, 0, th)
	})
	reg("C17", "values", c17Values, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "pool", i01), 0, 1, th)
	})
	reg("C17", "race", c17Race, func(th bool) []mc.Config {
		return bound(orders(cat(
			cross("", "async", []int{1}, "bsend", i01, "sendbuf", []int{4096}, "pool", i01, "rsp", i01, "what", []int{0, 1, 2, 3, 4}),
			cross("", "async", []int{0}, "pool", []int{0}, "rsp", i01, "what", []int{0, 1, 2, 3, 4}),
			cross("", "async", []int{1}, "bsend", i01, "sendbuf", []int{4096}, "rsp", i01, "what", []int{1, 5}, "tap", []int{1}),
		), 0, 1), 1, 2, th)
	})
	reg("C17", "fan", c17Fan, func(th bool) []mc.Config {
		return bound(cat(
			cross("", "async", i01, "pool", i01, "coders", []int{0, 1, 2, 3}, "n", []int{2, 3}, "one", i01),
		), 1, 2, th)
	})
	reg("C17", "one", c17One, func(th bool) []mc.Config {
		return bound(cross("", "async", []int{1}, "pool", i01, "coders", []int{0, 2}, "what", []int{0, 1, 2, 3}), 2, 3, th)
	})
	reg("C17", "first", c17First, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "what", []int{0, 1, 2, 3}), 0, 1), 2, 3, th)
	})
	reg("C17", "shared", c17Shared, func(th bool) []mc.Config {
		return bound(orders(cross("", "async", i01, "one", i01, "cap", []int{0, 64}), 0, 1), 2, 3, th)
	})
}

// hub is a pub/sub server with clients.
type hub struct {
	c      *mc.Config
	srv    *pubsub.Server
	ln     *mc.Listener
	clis   []*pubsub.Client
	got    []*evs
	coders int
	wasted *evs // messages handed to ended connections
	ended  map[*arpc.Client]bool
	closed bool
	deny   bool // refuse to connect
}

func newHub(c *mc.Config) *hub {
	begin()
	if c.Get("rsp") == 1 {
		arpc.SetAsyncResponse(true)
	} else {
		arpc.SetAsyncResponse(false)
	}
	h := &hub{c: c, coders: c.Get("coders"), wasted: &evs{}, ended: map[*arpc.Client]bool{}}
	h.srv = pubsub.NewServer()
	arpc.SetAsyncResponse(false)
	h.srv.Password = "pw"
	setup(h.srv.Handler, c)
	h.use(h.srv.Handler)
	h.ln = mc.NewListener("srv", mc.NetConfig{})
	go h.srv.Serve(h.ln)
	return h
}

func (w *hub) use(h arpc.Handler) {
	(&crowd{want: w.coders}).use(h)
}

// dialed makes a client that has not authenticated yet.
func (w *hub) dialed() *pubsub.Client {
	h := newHandler(w.c, "cli")
	w.use(h)
	x, err := pubsub.NewClient(func() (net.Conn, error) {
		mc.Sync()
		if w.deny {
			return nil, errors.New("refused")
		}
		return w.ln.Dial()
	}, h)
	mc.Assert(err == nil, "dial: %v", err)
	mc.Sync()
	w.clis = append(w.clis, x)
	w.got = append(w.got, &evs{})
	mc.Idle()
	return x
}

func (w *hub) join() *pubsub.Client {
	x := w.dialed()
	x.Password = "pw"
	mc.Assert(x.Authenticate() == nil, "authentication with the right password failed")
	return x
}

// note returns a topic handler of client i that records what it gets.
func (w *hub) note(i int) pubsub.TopicHandler {
	return func(tp *pubsub.Topic) { w.got[i].add(tp.Name + "=" + string(tp.Data)) }
}

func (w *hub) sub(i int, topic string) {
	err := w.clis[i].Subscribe(topic, w.note(i), hour)
	mc.Assert(err == nil, "client %d: subscribe %q: %v", i, short(topic), err)
}

func (w *hub) unsub(i int, topic string) {
	err := w.clis[i].Unsubscribe(topic, hour)
	mc.Assert(err == nil, "client %d: unsubscribe %q: %v", i, short(topic), err)
}

// pub publishes; from -1 is the server.
func (w *hub) pub(from int, one bool, topic string, v interface{}) {
	var err error
	switch {
	case from < 0 && !one:
		err = w.srv.Publish(topic, v)
	case from < 0:
		err = w.srv.PublishToOne(topic, v)
	case !one:
		err = w.clis[from].Publish(topic, v, hour)
	default:
		err = w.clis[from].PublishToOne(topic, v, hour)
	}
	mc.Assert(err == nil, "publish %q: %v", short(topic), err)
}

// every sequence of operations of two clients and the server on two topics
func c17History(c *mc.Config) {
	w := newHub(c)
	w.join()
	w.join()
	topics := []string{"a", "ab"}
	subs := map[string][]bool{"a": {false, false}, "ab": {false, false}}
	for step := 0; step < c.Get("n"); step++ {
		for i := range w.got {
			w.got[i] = &evs{}
		}
		var op int
		if step == 0 {
			// the first one is a subscription of client 0 or anything of the rest
			op = []int{0, 1, 4, 5, 8, 9, 12, 14}[c.Get("first")]
		} else {
			op = mc.Choose(16)
		}
		t := topics[op&1]
		data := "m" + itoa(step)
		switch {
		case op < 4:
			w.sub(op>>1, t)
			subs[t][op>>1] = true
		case op < 8:
			w.unsub(op>>1&1, t)
			subs[t][op>>1&1] = false
		default:
			from := op>>1&1 - 1 // the server or client 0
			one := op >= 12
			w.pub(from, one, t, data)
			mc.Idle()
			total := 0
			for i := range w.clis {
				n := w.got[i].count(t + "=" + data)
				total += n
				mc.Assert(n <= 1 && n == len(w.got[i].all()), "client %d got %v after publishing %s to %s", i, w.got[i], data, t)
				mc.Assert(subs[t][i] || n == 0, "client %d got %v without a subscription to %s", i, w.got[i], t)
				if !one {
					mc.Assert(!subs[t][i] || n == 1, "client %d did not get %s published to %s", i, data, t)
				}
			}
			if one && (subs[t][0] || subs[t][1]) {
				mc.Assert(total == 1, "PublishToOne was delivered %d times", total)
			}
			continue
		}
		mc.Idle()
		for i := range w.clis {
			mc.Assert(len(w.got[i].all()) == 0, "client %d got %v although nothing was published", i, w.got[i])
		}
	}
}

type psRec struct{ A int }

// topic names and payloads of all kinds
func c17Values(c *mc.Config) {
	w := newHub(c)
	w.join()
	names := []string{"t", "in_P", "tail\x00\x00", "\x01\x00", strings.Repeat("n", 255), strings.Repeat("n", 256), strings.Repeat("n", 1024), "日本", "", strings.Repeat("n", 1025), strings.Repeat("n", 65537)}
	name := names[mc.Choose(len(names))]
	var at time.Time
	var data string
	handler := func(tp *pubsub.Topic) {
		w.got[0].add(tp.Name + "=" + string(tp.Data))
		mc.Assert(tp.Timestamp == at.UnixNano(), "timestamp %d, published at %d", tp.Timestamp, at.UnixNano())
	}
	if name == "" || len(name) > pubsub.MaxTopicNameLen {
		want := pubsub.ErrInvalidTopicNameLength
		if name == "" {
			want = pubsub.ErrInvalidTopicEmpty
		}
		for i, err := range []error{
			w.clis[0].Subscribe(name, handler, hour), w.clis[0].Unsubscribe(name, hour),
			w.clis[0].Publish(name, "x", hour), w.clis[0].PublishToOne(name, "x", hour),
			w.srv.Publish(name, "x"), w.srv.PublishToOne(name, "x"),
		} {
			mc.Assert(err == want, "operation %d with a topic name of length %d: %v", i, len(name), err)
		}
		return
	}
	mc.Assert(w.clis[0].Subscribe(name, handler, hour) == nil, "subscribe")
	backing := []byte("0123456789abcdefghijklmnopqrstuvwxyz0123456789")
	orig := string(backing)
	var v interface{}
	switch mc.Choose(9) {
	case 0:
		v, data = "hello", "hello"
	case 1:
		v, data = "", ""
	case 2:
		v, data = backing[:10], orig[:10]
	case 3:
		v, data = backing[:0], ""
	case 4:
		v, data = backing, orig
	case 5:
		b := backing[3:9]
		v, data = &b, orig[3:9]
	case 6:
		s := "str"
		v, data = &s, s
	case 7:
		v, data = &psRec{7}, `{"A":7}`
	case 8:
		v, data = nil, ""
	}
	if v == nil && data == "" {
		v = []byte(nil)
	}
	from := mc.Choose(2) - 1
	one := mc.Choose(2) == 1
	at = time.Now()
	w.pub(from, one, name, v)
	mc.Idle()
	mc.Assert(string(backing) == orig, "publishing changed the caller's memory: %q", backing)
	l := w.got[0].all()
	mc.Assert(len(l) == 1 && l[0] == name+"="+data, "got %q, want %q", l, short(name)+"="+data)
}

// subscriptions change while messages are published
func c17Race(c *mc.Config) {
	w := newHub(c)
	w.join()
	w.join()
	pub := w.join()
	_ = pub
	if c.Get("tap") == 1 { // sees whatever reaches the client
		w.clis[1].OnPublish(w.note(1))
	}
	w.sub(0, "t")
	what := c.Get("what")
	if what >= 1 && what != 4 {
		w.sub(1, "t")
	}
	mc.Idle()
	g := newGroup()
	g.run(func() {
		w.pub(2, false, "t", "m0")
		w.pub(2, false, "t", "m1")
	})
	late := ""
	switch what {
	case 0: // subscribe meanwhile
		w.sub(1, "t")
		w.pub(-1, false, "t", "late")
		late = "must"
	case 1: // unsubscribe meanwhile
		w.unsub(1, "t")
		w.pub(-1, false, "t", "late")
		late = "not"
	case 5: // unsubscribe meanwhile, one subscriber left
		w.unsub(1, "t")
		w.pub(-1, true, "t", "late")
		late = "not"
	case 2: // again
		w.sub(1, "t")
		w.pub(-1, false, "t", "late")
		late = "must"
	case 4: // twice at once
		g.run(func() { w.sub(1, "t") })
		w.sub(1, "t")
		w.pub(-1, false, "t", "late")
		late = "must"
	case 3: // another publisher
		w.pub(-1, false, "t", "late")
		w.pub(1, false, "u", "other")
		late = "must"
	}
	g.wait()
	mc.Idle()
	want := []string{"t=m0", "t=m1", "t=late"}
	for _, m := range want {
		mc.Assert(w.got[0].count(m) == 1, "client 0 got %v", w.got[0])
		n := w.got[1].count(m)
		mc.Assert(n <= 1, "client 1 got %v", w.got[1])
		if what == 2 || what == 3 {
			mc.Assert(n == 1, "client 1, subscribed throughout, got %v", w.got[1])
		}
	}
	mc.Assert(len(w.got[0].all()) == 3, "client 0 got %v", w.got[0])
	switch late {
	case "must":
		mc.Assert(w.got[1].count("t=late") == 1, "client 1 was subscribed but got %v", w.got[1])
	case "not":
		mc.Assert(w.got[1].count("t=late") == 0, "client 1 was unsubscribed but got %v", w.got[1])
	}
	mc.Assert(len(w.got[2].all()) == 0, "the publisher got %v", w.got[2])
	mc.Outcome("%v", w.got[1])
}

// one message to several subscribers with coders in use
func c17Fan(c *mc.Config) {
	w := newHub(c)
	n := c.Get("n")
	for i := 0; i < n; i++ {
		w.join()
		w.sub(i, "t")
	}
	mc.Idle()
	data := []string{"d", strings.Repeat("long", 60)}[mc.Choose(2)]
	from := mc.Choose(2) - 1
	g := newGroup()
	one := c.Get("one") == 1
	g.run(func() { w.pub(from, one, "t", data+"1") })
	w.pub(-1, one, "t", data+"2")
	g.wait()
	mc.Idle()
	for k := 1; k <= 2; k++ {
		sum := 0
		for i := 0; i < n; i++ {
			x := w.got[i].count("t=" + data + itoa(k))
			sum += x
			if !one {
				mc.Assert(x == 1, "client %d of %d got %s", i, n, short(w.got[i].String()))
			}
		}
		mc.Assert(!one || sum == 1, "PublishToOne delivered %d times", sum)
	}
	for i := 0; i < n; i++ {
		for _, m := range w.got[i].all() {
			mc.Assert(m == "t="+data+"1" || m == "t="+data+"2", "client %d got %q", i, short(m))
		}
	}
}

// PublishToOne with subscribers that cannot accept
func c17One(c *mc.Config) {
	c.P["queue"] = 1
	w := newHub(c)
	var conns []*arpc.Client
	w.srv.Handler.HandleConnected(func(x *arpc.Client) { mc.Sync(); conns = append(conns, x) })
	for i := 0; i < 3; i++ {
		w.join()
		if i < 2 {
			w.sub(i, "t")
		}
	}
	mc.Idle()
	switch c.Get("what") {
	case 0, 3: // client 0 takes nothing, its queue is full
		w.ln.Conns[0].SetLimit(1)
		w.ln.Conns[0].Stall(true)
		for i := 0; i < 4; i++ {
			conns[0].Notify("/other", "fill", 0)
			mc.Idle()
		}
		for k := 0; k < 3; k++ {
			w.pub(2-3*(k&1), c.Get("what") == 0, "t", "m"+itoa(k))
			mc.Idle()
			mc.Assert(w.got[1].count("t=m"+itoa(k)) == 1, "m%d: the only subscriber with room got %v", k, w.got[1])
		}
		w.ln.Conns[0].Stall(false)
		w.ln.Conns[0].SetLimit(0)
		mc.Idle()
		mc.Assert(len(w.got[0].all()) == 0, "the full subscriber got %v as well", w.got[0])
	case 1: // client 0 leaves
		g := newGroup()
		g.run(func() { w.clis[0].Stop() })
		g.run(func() { w.pub(2, true, "t", "m0") })
		g.wait()
		mc.Idle()
		n0, n1 := w.got[0].count("t=m0"), w.got[1].count("t=m0")
		mc.Assert(n0+n1 <= 1, "delivered %d+%d times", n0, n1)
		w.pub(2, true, "t", "m1")
		mc.Idle()
		mc.Assert(w.got[1].count("t=m1") == 1 && w.got[0].count("t=m1") == 0, "after one left: %v %v", w.got[0], w.got[1])
		mc.Outcome("%d %d", n0, n1)
	case 2: // two at once
		g := newGroup()
		g.run(func() { w.pub(2, true, "t", "m0") })
		g.run(func() { w.pub(2, true, "t", "m1") })
		g.wait()
		mc.Idle()
		for k := 0; k < 2; k++ {
			m := "t=m" + itoa(k)
			sum := w.got[0].count(m) + w.got[1].count(m)
			mc.Assert(sum == 1, "%s delivered %d times", m, sum)
		}
	}
	mc.Assert(len(w.got[2].all()) == 0, "a client without a subscription got %v", w.got[2])
}

// a topic is used for the first time by several connections at once
func c17First(c *mc.Config) {
	w := newHub(c)
	w.join()
	w.join()
	w.join()
	mc.Idle()
	g := newGroup()
	switch c.Get("what") {
	case 3: // the server publishes right behind its acknowledgement
		armed := true
		w.srv.Handler.Use(func(ctx *arpc.Context) { // behind the handler
			mc.Sync()
			if armed {
				armed = false
				w.pub(-1, false, "t", "x")
			}
		})
		w.sub(0, "t")
		mc.Idle()
		mc.Assert(w.got[0].count("t=x") == 1, "published right after the acknowledgement, got %v", w.got[0])
		w.sub(1, "t")
	case 0: // two subscribers
		g.run(func() { w.sub(0, "t") })
		g.run(func() { w.sub(1, "t") })
	case 1: // a subscriber and a publisher
		g.run(func() { w.sub(0, "t"); w.sub(1, "t") })
		g.run(func() { w.pub(2, false, "t", "x") })
	case 2: // a subscriber and the server
		g.run(func() { w.sub(0, "t") })
		g.run(func() { w.pub(-1, true, "t", "x"); w.sub(1, "t") })
	}
	g.wait()
	mc.Idle()
	w.pub(2, false, "t", "m")
	w.pub(-1, false, "t", "n")
	mc.Idle()
	for i := 0; i < 2; i++ {
		mc.Assert(w.got[i].count("t=m") == 1 && w.got[i].count("t=n") == 1, "client %d, whose subscription was acknowledged, got %v", i, w.got[i])
		mc.Assert(w.got[i].count("t=x") <= 1, "client %d got %v", i, w.got[i])
	}
	mc.Outcome("%v %v", w.got[0], w.got[1])
}

// the same caller memory published from several goroutines
func c17Shared(c *mc.Config) {
	w := newHub(c)
	w.join()
	w.join()
	w.sub(0, "first")
	w.sub(0, "the second")
	mc.Idle()
	buf := make([]byte, 4, 4+c.Get("cap"))
	copy(buf, "data")
	one := c.Get("one") == 1
	g := newGroup()
	g.run(func() { w.pub(1, one, "first", buf) })
	g.run(func() { w.pub(-1, one, "the second", buf) })
	g.wait()
	mc.Idle()
	mc.Assert(string(buf) == "data", "the caller's data is %q", buf)
	for i, x := range buf[:cap(buf)] {
		mc.Assert(i < 4 || x == 0, "publishing wrote into the caller's memory behind its data")
	}
	mc.Assert(w.got[0].count("first=data") == 1 && w.got[0].count("the second=data") == 1 && len(w.got[0].all()) == 2, "got %v", w.got[0])
	mc.Outcome(fmt.Sprint(w.got[0].all()))
}
