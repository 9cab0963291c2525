package scen

import (
	"bufio"
	"context"
	"errors"
	"io"
	"net"

	"github.com/lesismal/arpc"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

// cross builds the product of named parameter domains as configurations.
func cross(prefix string, dims ...interface{}) []mc.Config {
	out := []mc.Config{{Name: prefix, P: map[string]int{}, MaxBound: -1}}
	for i := 0; i+1 < len(dims); i += 2 {
		k := dims[i].(string)
		var next []mc.Config
		for _, c := range out {
			for _, v := range dims[i+1].([]int) {
				d := c
				d.P = map[string]int{}
				for a, b := range c.P {
					d.P[a] = b
				}
				d.P[k] = v
				if d.Name != "" {
					d.Name += ","
				}
				d.Name += k + "=" + itoa(v)
				next = append(next, d)
			}
		}
		out = next
	}
	return out
}

// with sets properties on configurations.
func with(cs []mc.Config, f func(c *mc.Config)) []mc.Config {
	for i := range cs {
		f(&cs[i])
	}
	return cs
}

func bound(cs []mc.Config, quick, thorough int, th bool) []mc.Config {
	return with(cs, func(c *mc.Config) {
		c.MaxBound = quick
		if th {
			c.MaxBound = thorough
		}
	})
}

func orders(cs []mc.Config, p ...int) []mc.Config {
	return with(cs, func(c *mc.Config) { c.Policies = p })
}

func early(cs []mc.Config) []mc.Config {
	return with(cs, func(c *mc.Config) { c.EarlyTimers = true })
}

func cat(l ...[]mc.Config) []mc.Config {
	var out []mc.Config
	for _, x := range l {
		out = append(out, x...)
	}
	return out
}

func itoa(v int) string {
	if v < 0 {
		return "-" + itoa(-v)
	}
	if v < 10 {
		return string(rune('0' + v))
	}
	return itoa(v/10) + itoa(v%10)
}

var i01 = []int{0, 1}

func reg(prop, name string, run func(*mc.Config), configs func(th bool) []mc.Config) {
	mc.Register(&mc.Scenario{Prop: prop, Name: name, Run: run, Configs: configs})
}

// rig is a real server on a simulated listener.
type rig struct {
	c      *mc.Config
	srv    *arpc.Server
	ln     *mc.Listener
	served chan error
}

func newRig(c *mc.Config) *rig { return newRigNet(c, mc.NetConfig{}) }

func newRigNet(c *mc.Config, n mc.NetConfig) *rig {
	begin()
	return &rig{c: c, srv: newServer(c), ln: mc.NewListener("srv", n), served: make(chan error, 1)}
}

func (r *rig) serve() {
	go func() { r.served <- r.srv.Serve(r.ln) }()
}

// up serves and waits until the server is accepting.
func (r *rig) up() {
	r.serve()
	mc.Idle()
}

func (r *rig) client(h arpc.Handler) *arpc.Client {
	if h == nil {
		h = newHandler(r.c, "cli")
	}
	cli, err := arpc.NewClient(dialer(r.ln), h)
	mc.Assert(err == nil, "dial: %v", err)
	return cli
}

// raw dials the server and returns the scripted end.
func (r *rig) raw() *mc.Conn {
	cn, err := r.ln.Dial()
	mc.Assert(err == nil, "dial: %v", err)
	return cn
}

// pipeDialer returns a dialer that hands out the given connections one after
// another, then fails.
func pipeDialer(conns ...*mc.Conn) arpc.DialerFunc {
	i := 0
	return func() (net.Conn, error) {
		mc.Sync()
		if i >= len(conns) {
			return nil, errors.New("dial refused")
		}
		i++
		return conns[i-1], nil
	}
}

// scripted makes a client connected to a scripted peer end.
func scripted(c *mc.Config, h arpc.Handler, more ...*mc.Conn) (*arpc.Client, *mc.Conn) {
	begin()
	a, b := mc.Pipe("p", mc.NetConfig{})
	if h == nil {
		h = newHandler(c, "cli")
	}
	cli, err := arpc.NewClient(pipeDialer(append([]*mc.Conn{a}, more...)...), h)
	mc.Assert(err == nil, "dial: %v", err)
	return cli, b
}

func mustFrame(b *mc.Conn) *frame {
	f, err := readFrame(b)
	mc.Assert(err == nil, "scripted peer: read: %v", err)
	return f
}

// parseAll parses a byte string that must be a whole number of frames.
func parseAll(p []byte) ([]*frame, bool) {
	var out []*frame
	r := &sliceReader{p}
	for len(r.b) > 0 {
		f, err := readFrame(r)
		if err != nil {
			return out, false
		}
		out = append(out, f)
	}
	return out, true
}

type sliceReader struct{ b []byte }

func (r *sliceReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, errors.New("end")
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}

// cnt is a shared harness counter.
type cnt struct{ n int }

func (c *cnt) inc() int { mc.Sync(); c.n++; return c.n }
func (c *cnt) get() int { mc.Sync(); return c.n }

// evs is a shared harness event list.
type evs struct{ l []string }

func (e *evs) add(s string)  { mc.Sync(); e.l = append(e.l, s) }
func (e *evs) all() []string { mc.Sync(); return append([]string{}, e.l...) }
func (e *evs) count(s string) (n int) {
	mc.Sync()
	for _, x := range e.l {
		if x == s {
			n++
		}
	}
	return n
}
func (e *evs) String() string {
	mc.Sync()
	s := ""
	for i, x := range e.l {
		if i > 0 {
			s += " "
		}
		s += x
	}
	return s
}

// group runs functions concurrently and waits for them.
type group struct {
	ch chan struct{}
	n  int
}

func newGroup() *group { return &group{ch: make(chan struct{}, 64)} }
func (g *group) run(f func()) {
	g.n++
	go func() {
		f()
		g.ch <- struct{}{}
	}()
}
func (g *group) wait() {
	for i := 0; i < g.n; i++ {
		<-g.ch
	}
	g.n = 0
}

func background() context.Context { return context.Background() }

// kinds of calls
const (
	kCall = iota
	kCtx
	kAsync
	kBytes
)

// call performs one call of the given kind and returns payload and error text.
// An asynchronous call that returned an error reports it.
func call(cli *arpc.Client, kind int, method string, req interface{}) (string, error) {
	switch kind {
	case kCtx:
		rsp := ""
		err := cli.CallContext(context.Background(), method, req, &rsp)
		return rsp, err
	case kBytes:
		var rsp []byte
		err := cli.Call(method, req, &rsp, hour)
		return string(rsp), err
	case kAsync:
		type res struct {
			s string
			e error
		}
		ch := make(chan res, 4)
		err := cli.CallAsync(method, req, func(ctx *arpc.Context, err error) {
			if err != nil {
				ch <- res{"", err}
				return
			}
			ch <- res{string(ctx.Body()), nil}
		}, hour)
		if err != nil {
			return "", err
		}
		r := <-ch
		return r.s, r.e
	}
	rsp := ""
	err := cli.Call(method, req, &rsp, hour)
	return rsp, err
}

func bufReader(n int) func(net.Conn) io.Reader {
	return func(c net.Conn) io.Reader { return bufio.NewReaderSize(c, n) }
}
