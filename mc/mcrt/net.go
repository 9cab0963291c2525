package mcrt

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"time"
)

// Conn is one end of a simulated reliable byte-stream connection.
type Conn struct {
	o       obj
	name    string
	peer    *Conn
	rbuf    []byte
	reof    bool  // peer has closed its end
	rerr    error // read error after the data
	werr    error // injected write error
	closed  bool
	stall   bool // the peer's reads are suspended
	rdl     bool
	wdl     bool
	wbusy   bool // a Write is in progress (writes of one end are atomic)
	rdlT    *timerEnt
	wdlT    *timerEnt
	cfg     NetConfig
	la, ra  net.Addr
	Writes  [][]byte // every Write call's bytes as accepted
	Closes  int
	NReads  int
	NWrites int
	Tag     interface{}
}

// NetConfig configures simulated connections.
type NetConfig struct {
	Segment  bool // reads may return fewer bytes (deviation)
	BufLimit int  // bytes in flight per direction; 0: unlimited
	EOFLossy bool // closing discards data the peer has not read yet (reset)
}

type addr string

func (a addr) Network() string { return "sim" }
func (a addr) String() string  { return string(a) }

// WriteHook, when set, sees the bytes of every write at the moment they are taken.
var WriteHook func(c *Conn, b []byte)

// Pipe makes a connected pair.
func Pipe(name string, cfg NetConfig) (*Conn, *Conn) {
	a := &Conn{name: name + "/a", cfg: cfg, la: addr(name + "/a"), ra: addr(name + "/b")}
	b := &Conn{name: name + "/b", cfg: cfg, la: addr(name + "/b"), ra: addr(name + "/a")}
	a.peer, b.peer = b, a
	return a, b
}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }
func (timeoutErr) Is(e error) bool { return e == os.ErrDeadlineExceeded }

func (c *Conn) opErr(op string, e error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.la, Addr: c.ra, Err: e}
}

// Read reads from the connection.
func (c *Conn) Read(b []byte) (int, error) {
	if s == nil {
		panic("mcrt: Read outside an execution")
	}
	if len(b) == 0 {
		return 0, nil
	}
	t := point("conn.Read "+c.name, func() bool {
		return c.closed || c.rdl || !c.peer.stall && (len(c.rbuf) > 0 || c.reof || c.rerr != nil)
	})
	c.NReads++
	t.acquire(&c.o)
	s.touch(t, &c.o, 0x600)
	if c.closed {
		return 0, c.opErr("read", net.ErrClosed)
	}
	if c.rdl {
		return 0, c.opErr("read", timeoutErr{})
	}
	if len(c.rbuf) > 0 {
		n := len(c.rbuf)
		if n > len(b) {
			n = len(b)
		}
		if c.cfg.Segment && n > 1 {
			switch Deviate(3) {
			case 1:
				n = 1
			case 2:
				n = n - 1
			}
		}
		copy(b, c.rbuf[:n])
		c.rbuf = c.rbuf[n:]
		return n, nil
	}
	if c.rerr != nil {
		return 0, c.opErr("read", c.rerr)
	}
	return 0, io.EOF
}

// Write writes to the connection.
func (c *Conn) Write(b []byte) (int, error) {
	if s == nil {
		panic("mcrt: Write outside an execution")
	}
	done := 0
	first := true
	defer func() {
		if done > 0 {
			c.wbusy = false
		}
	}()
	for first || done < len(b) {
		first = false
		mine := done > 0
		t := point("conn.Write "+c.name, func() bool {
			if c.wbusy && !mine {
				return false
			}
			return c.closed || c.wdl || c.werr != nil || c.reof || c.cfg.BufLimit == 0 || len(c.peer.rbuf) < c.cfg.BufLimit
		})
		c.NWrites++
		t.acquire(&c.peer.o)
		s.touch(t, &c.o, 0x701)
		s.touch(t, &c.peer.o, 0x700)
		t.release(&c.peer.o)
		if c.closed {
			return done, c.opErr("write", net.ErrClosed)
		}
		if c.wdl {
			return done, c.opErr("write", timeoutErr{})
		}
		if c.werr != nil {
			return done, c.opErr("write", c.werr)
		}
		if c.reof || c.peer.closed {
			return done, c.opErr("write", errors.New("write: broken pipe"))
		}
		n := len(b) - done
		if c.cfg.BufLimit > 0 && n > c.cfg.BufLimit-len(c.peer.rbuf) {
			n = c.cfg.BufLimit - len(c.peer.rbuf)
		}
		if WriteHook != nil {
			WriteHook(c, b[done:done+n])
		}
		chunk := append([]byte{}, b[done:done+n]...)
		c.peer.rbuf = append(c.peer.rbuf, chunk...)
		c.Writes = append(c.Writes, chunk)
		done += n
		c.wbusy = done > 0 && done < len(b)
		if len(b) == 0 {
			break
		}
	}
	return done, nil
}

// Close closes this end.
func (c *Conn) Close() error {
	if s == nil {
		return nil
	}
	if s.dead {
		runtime.Goexit()
	}
	t := point("conn.Close "+c.name, nil)
	c.Closes++
	s.touch(t, &c.o, 0x801)
	if c.closed {
		return c.opErr("close", net.ErrClosed)
	}
	s.touch(t, &c.peer.o, 0x800)
	t.release(&c.peer.o)
	c.closeNow()
	return nil
}

func (c *Conn) closeNow() {
	c.closed = true
	c.peer.reof = true
	if c.cfg.EOFLossy {
		c.peer.rbuf = nil
	}
	if c.rdlT != nil {
		s.disarm(c.rdlT)
	}
	if c.wdlT != nil {
		s.disarm(c.wdlT)
	}
}

// Cut breaks the connection: both ends see an error on read and write.
func (c *Conn) Cut() {
	if s == nil || s.dead {
		return
	}
	t := point("cut "+c.name, nil)
	for _, x := range []*Conn{c, c.peer} {
		s.touch(t, &x.o, 0x900)
		x.rbuf = nil
		x.rerr = errors.New("connection reset by peer")
		x.werr = x.rerr
	}
}

// FailWrites makes later writes of this end fail (reads stay).
func (c *Conn) FailWrites(err error) {
	t := point("fail writes "+c.name, nil)
	s.touch(t, &c.o, 0x901)
	c.werr = err
}

// Stall suspends (or resumes) delivery of what this end writes.
func (c *Conn) Stall(on bool) {
	t := point("stall "+c.name, nil)
	s.touch(t, &c.o, 0x902)
	s.touch(t, &c.peer.o, 0x903)
	c.stall = on
}

// Inject appends raw bytes to what the peer reads, without a scheduling point.
func (c *Conn) Inject(b []byte) {
	t := s.cur
	s.touch(t, &c.peer.o, 0x904)
	t.release(&c.peer.o)
	c.peer.rbuf = append(c.peer.rbuf, b...)
}

// IsClosed reports whether this end has been closed locally.
func (c *Conn) IsClosed() bool { return c.closed }

// Peer returns the other end.
func (c *Conn) Peer() *Conn { return c.peer }

// Unread returns the bytes waiting to be read at this end.
func (c *Conn) Unread() []byte { return c.rbuf }

// SetLimit changes the in-flight limit of both directions.
func (c *Conn) SetLimit(n int) { c.cfg.BufLimit, c.peer.cfg.BufLimit = n, n }

func (c *Conn) LocalAddr() net.Addr  { return c.la }
func (c *Conn) RemoteAddr() net.Addr { return c.ra }

func (c *Conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *Conn) setDL(flag *bool, te **timerEnt, at time.Time) error {
	if s == nil || s.dead {
		return nil
	}
	if c.closed {
		return c.opErr("set", net.ErrClosed)
	}
	if *te != nil {
		s.disarm(*te)
		*te = nil
	}
	*flag = false
	s.touch(s.cur, &c.o, 0xa00)
	if at.IsZero() {
		return nil
	}
	d := at.Sub(Now())
	if d <= 0 {
		*flag = true
		return nil
	}
	*te = s.addTimer(d, func(x *timerEnt) { *flag = true; c.o.hash = mix(c.o.hash, x.phash) })
	return nil
}

func (c *Conn) SetReadDeadline(t time.Time) error  { return c.setDL(&c.rdl, &c.rdlT, t) }
func (c *Conn) SetWriteDeadline(t time.Time) error { return c.setDL(&c.wdl, &c.wdlT, t) }

// ---------------------------------------------------------------- listener

// Listener is a simulated listener.
type Listener struct {
	o      obj
	name   string
	q      []interface{} // *Conn or error
	closed bool
	Cfg    NetConfig
	Conns  []*Conn // server-side ends handed out or queued
	n      int
	Closes int
}

// NewListener makes a listener reachable by Dial under name.
func NewListener(name string, cfg NetConfig) *Listener {
	l := &Listener{name: name, Cfg: cfg}
	if s != nil {
		if s.registry == nil {
			s.registry = map[string]*Listener{}
		}
		s.registry[name] = l
	}
	return l
}

// Accept accepts the next connection.
func (l *Listener) Accept() (net.Conn, error) {
	t := point("Accept "+l.name, func() bool { return l.closed || len(l.q) > 0 })
	t.acquire(&l.o)
	s.touch(t, &l.o, 0xb00)
	if l.closed {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: addr(l.name), Err: net.ErrClosed}
	}
	x := l.q[0]
	l.q = l.q[1:]
	if e, ok := x.(error); ok {
		return nil, e
	}
	return x.(*Conn), nil
}

// Close closes the listener; queued connections are reset.
func (l *Listener) Close() error {
	if s == nil || s.dead {
		return nil
	}
	t := point("listener.Close "+l.name, nil)
	l.Closes++
	s.touch(t, &l.o, 0xb01)
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: addr(l.name), Err: net.ErrClosed}
	}
	l.closed = true
	for _, x := range l.q {
		if c, ok := x.(*Conn); ok {
			c.closed = true
			c.peer.reof = true
		}
	}
	l.q = nil
	return nil
}

// Addr returns the address.
func (l *Listener) Addr() net.Addr { return addr(l.name) }

// IsClosed reports whether the listener is closed.
func (l *Listener) IsClosed() bool { return l.closed }

// PushErr queues an accept error.
func (l *Listener) PushErr(err error) {
	t := point("accept error", nil)
	s.touch(t, &l.o, 0xb02)
	l.q = append(l.q, err)
}

// Dial connects to the listener.
func (l *Listener) Dial() (*Conn, error) {
	t := point("Dial "+l.name, nil)
	s.touch(t, &l.o, 0xb03)
	if l.closed {
		return nil, &net.OpError{Op: "dial", Net: "tcp", Addr: addr(l.name), Err: errors.New("connection refused")}
	}
	l.n++
	a, b := Pipe(fmt.Sprintf("%s#%d", l.name, l.n), l.Cfg)
	l.q = append(l.q, b)
	l.Conns = append(l.Conns, b)
	t.release(&l.o)
	return a, nil
}

// NetListen replaces net.Listen.
func NetListen(network, address string) (net.Listener, error) {
	if s != nil && s.registry != nil {
		if l := s.registry[address]; l != nil && !l.closed {
			return nil, &net.OpError{Op: "listen", Net: network, Addr: addr(address), Err: errors.New("address already in use")}
		}
	}
	return NewListener(address, NetConfig{}), nil
}

// FindListener returns the listener registered under a name.
func FindListener(name string) *Listener { return s.registry[name] }

// NetDial replaces net.Dial.
func NetDial(network, address string) (net.Conn, error) {
	l := s.registry[address]
	if l == nil {
		point("Dial "+address, nil)
		return nil, &net.OpError{Op: "dial", Net: network, Addr: addr(address), Err: errors.New("connection refused")}
	}
	c, err := l.Dial()
	if err != nil {
		return nil, err
	}
	return c, nil
}

// NetDialTimeout replaces net.DialTimeout.
func NetDialTimeout(network, address string, d time.Duration) (net.Conn, error) {
	return NetDial(network, address)
}
