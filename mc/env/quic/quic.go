// Package quic stands in for github.com/quic-go/quic-go: connections with
// ordered, reliable, flow-controlled streams between listeners and dialers of
// one process. It is environment, not code under test; tools/conform.sh
// compares its behaviour with the real library's.
package quic

import (
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"time"
)

type (
	// StreamID numbers streams.
	StreamID int64
	// ApplicationErrorCode is sent when closing a connection.
	ApplicationErrorCode uint64
	// StreamErrorCode is sent when canceling a stream.
	StreamErrorCode uint64
)

// ErrServerClosed is returned by Accept after Close.
var ErrServerClosed = errors.New("quic: server closed")

// ApplicationError ends a connection.
type ApplicationError struct {
	Remote       bool
	ErrorCode    ApplicationErrorCode
	ErrorMessage string
}

func (e *ApplicationError) Error() string {
	w := "local"
	if e.Remote {
		w = "remote"
	}
	return fmt.Sprintf("Application error 0x%x (%s)", uint64(e.ErrorCode), w)
}

// StreamError ends a direction of a stream.
type StreamError struct {
	StreamID  StreamID
	ErrorCode StreamErrorCode
	Remote    bool
}

func (e *StreamError) Error() string {
	w := "local"
	if e.Remote {
		w = "remote"
	}
	return fmt.Sprintf("stream %d canceled by %s with error code %d", e.StreamID, w, e.ErrorCode)
}

// Config is accepted and ignored.
type Config struct {
	HandshakeIdleTimeout, MaxIdleTimeout, KeepAlivePeriod time.Duration
	MaxIncomingStreams, MaxIncomingUniStreams             int64
	EnableDatagrams, Allow0RTT                            bool
}

// ConnectionState is empty.
type ConnectionState struct{}

// ReceiveStream is one direction of a stream.
type ReceiveStream interface {
	StreamID() StreamID
	io.Reader
	CancelRead(StreamErrorCode)
	SetReadDeadline(t time.Time) error
}

// SendStream is the other direction of a stream.
type SendStream interface {
	StreamID() StreamID
	io.Writer
	io.Closer
	CancelWrite(StreamErrorCode)
	Context() context.Context
	SetWriteDeadline(t time.Time) error
}

// Stream is a stream.
type Stream interface {
	ReceiveStream
	SendStream
	SetDeadline(t time.Time) error
}

// Connection is a connection.
type Connection interface {
	AcceptStream(context.Context) (Stream, error)
	AcceptUniStream(context.Context) (ReceiveStream, error)
	OpenStream() (Stream, error)
	OpenStreamSync(context.Context) (Stream, error)
	OpenUniStream() (SendStream, error)
	OpenUniStreamSync(context.Context) (SendStream, error)
	LocalAddr() net.Addr
	RemoteAddr() net.Addr
	CloseWithError(ApplicationErrorCode, string) error
	Context() context.Context
	ConnectionState() ConnectionState
	SendDatagram(payload []byte) error
	ReceiveDatagram(context.Context) ([]byte, error)
}

type addr string

func (a addr) Network() string { return "udp" }
func (a addr) String() string  { return string(a) }

// Window is the number of bytes a direction of a stream holds.
var Window = 1 << 16

// Short decides how many of n bytes at hand a Read returns.
var Short func(n int) int

// OpenFault makes opening a stream fail.
var OpenFault error

// NoStreams makes listeners allow their peers no stream.
var NoStreams bool

// DialFault makes dialing fail.
var DialFault error

// Conns are all connections dialed so far, dialer's and listener's ends.
var Conns []*Conn

type world struct {
	mux sync.Mutex
	lns map[string]*Listener
	n   int
}

var w = &world{lns: map[string]*Listener{}}

// Listener accepts connections.
type Listener struct {
	mute   bool
	mux    sync.Mutex
	addr   addr
	queue  []*Conn
	all    []*Conn
	closed bool
	wake   chan struct{}
}

// ListenAddr listens.
func ListenAddr(a string, tlsConf *tls.Config, config *Config) (*Listener, error) {
	w.mux.Lock()
	defer w.mux.Unlock()
	if w.lns[a] != nil {
		return nil, errors.New("listen udp " + a + ": bind: address already in use")
	}
	l := &Listener{addr: addr(a), wake: make(chan struct{}), mute: NoStreams || config != nil && config.MaxIncomingStreams < 0}
	w.lns[a] = l
	return l, nil
}

// Accept returns the next connection.
func (l *Listener) Accept(ctx context.Context) (Connection, error) {
	for {
		if err := ctx.Err(); err != nil {
			return nil, err
		}
		l.mux.Lock()
		if len(l.queue) > 0 {
			c := l.queue[0]
			l.queue = l.queue[1:]
			l.mux.Unlock()
			return c, nil
		}
		if l.closed {
			l.mux.Unlock()
			return nil, ErrServerClosed
		}
		ch := l.wake
		l.mux.Unlock()
		select {
		case <-ch:
		case <-ctx.Done():
		}
	}
}

func (l *Listener) notify() {
	close(l.wake)
	l.wake = make(chan struct{})
}

// Close ends the listener and its socket: the listener's ends of connections
// fail, the dialers' ends notice when nothing has arrived for a while.
func (l *Listener) Close() error {
	w.mux.Lock()
	if w.lns[string(l.addr)] == l {
		delete(w.lns, string(l.addr))
	}
	w.mux.Unlock()
	l.mux.Lock()
	if l.closed {
		l.mux.Unlock()
		return nil
	}
	l.closed = true
	all := l.all
	l.notify()
	l.mux.Unlock()
	for _, c := range all {
		c.end(errors.New("use of closed network connection"))
		p := c.peer
		p.mux.Lock()
		ended := p.err != nil
		p.mux.Unlock()
		if !ended {
			time.AfterFunc(30*time.Second, func() { p.end(errors.New("timeout: no recent network activity")) })
		}
	}
	return nil
}

// Addr of the listener.
func (l *Listener) Addr() net.Addr { return l.addr }

// Conn is an end of a connection.
type Conn struct {
	mute          bool // the peer allows no stream
	mux           sync.Mutex
	local, remote addr
	peer          *Conn
	ctx           context.Context
	cancel        context.CancelFunc
	err           error
	streams       []*stream
	arrived       []*stream
	wake          chan struct{}
	next          StreamID
}

func newConn(l, r addr) *Conn {
	c := &Conn{local: l, remote: r, wake: make(chan struct{})}
	c.ctx, c.cancel = context.WithCancel(context.Background())
	return c
}

// DialAddr connects.
func DialAddr(ctx context.Context, a string, tlsConf *tls.Config, conf *Config) (Connection, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	if DialFault != nil {
		return nil, DialFault
	}
	w.mux.Lock()
	l := w.lns[a]
	w.n++
	me := addr(fmt.Sprintf("dialer#%d", w.n))
	w.mux.Unlock()
	if l == nil {
		<-ctx.Done()
		return nil, ctx.Err()
	}
	c, s := newConn(me, addr(a)), newConn(addr(a), me)
	c.peer, s.peer = s, c
	c.mute = l.mute
	l.mux.Lock()
	if l.closed {
		l.mux.Unlock()
		return nil, errors.New("CONNECTION_REFUSED (remote)")
	}
	Conns = append(Conns, c, s)
	l.queue = append(l.queue, s)
	l.all = append(l.all, s)
	l.notify()
	l.mux.Unlock()
	return c, nil
}

// LocalAddr of the connection.
func (c *Conn) LocalAddr() net.Addr { return c.local }

// RemoteAddr of the connection.
func (c *Conn) RemoteAddr() net.Addr { return c.remote }

// Context ends with the connection.
func (c *Conn) Context() context.Context { return c.ctx }

// ConnectionState is empty.
func (c *Conn) ConnectionState() ConnectionState { return ConnectionState{} }

// SendDatagram is not supported.
func (c *Conn) SendDatagram([]byte) error { return errors.New("datagram support disabled") }

// ReceiveDatagram is not supported.
func (c *Conn) ReceiveDatagram(context.Context) ([]byte, error) {
	return nil, errors.New("datagram support disabled")
}

// AcceptUniStream is not supported.
func (c *Conn) AcceptUniStream(context.Context) (ReceiveStream, error) {
	return nil, errors.New("unsupported")
}

// OpenUniStream is not supported.
func (c *Conn) OpenUniStream() (SendStream, error) { return nil, errors.New("unsupported") }

// OpenUniStreamSync is not supported.
func (c *Conn) OpenUniStreamSync(context.Context) (SendStream, error) {
	return nil, errors.New("unsupported")
}

func (c *Conn) end(err error) {
	c.mux.Lock()
	if c.err != nil {
		c.mux.Unlock()
		return
	}
	c.err = err
	l := c.streams
	close(c.wake)
	c.wake = make(chan struct{})
	c.mux.Unlock()
	c.cancel()
	for _, s := range l {
		s.end(err)
	}
}

// Ended tells whether the connection is closed.
func (c *Conn) Ended() bool {
	c.mux.Lock()
	defer c.mux.Unlock()
	return c.err != nil
}

// CloseWithError ends the connection at both ends.
func (c *Conn) CloseWithError(code ApplicationErrorCode, msg string) error {
	c.end(&ApplicationError{ErrorCode: code, ErrorMessage: msg})
	c.peer.end(&ApplicationError{Remote: true, ErrorCode: code, ErrorMessage: msg})
	return nil
}

// Lose ends the connection at both ends as if nothing got through any more.
func (c *Conn) Lose() {
	c.end(errors.New("timeout: no recent network activity"))
	c.peer.end(errors.New("timeout: no recent network activity"))
}

// OpenStream opens a stream.
func (c *Conn) OpenStream() (Stream, error) {
	if c.mute {
		return nil, errors.New("too many open streams")
	}
	return c.OpenStreamSync(context.Background())
}

// OpenStreamSync opens a stream; the peer learns of it with its first frame.
func (c *Conn) OpenStreamSync(ctx context.Context) (Stream, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	if OpenFault != nil {
		return nil, OpenFault
	}
	c.mux.Lock()
	for c.mute && c.err == nil {
		// until the peer allows one
		ch := c.wake
		c.mux.Unlock()
		select {
		case <-ch:
		case <-ctx.Done():
			return nil, ctx.Err()
		}
		c.mux.Lock()
	}
	defer c.mux.Unlock()
	if c.err != nil {
		return nil, c.err
	}
	id := c.next
	c.next += 4
	a, b := newPipe(), newPipe()
	mine := &stream{id: id, c: c, in: a, out: b}
	mine.ctx, mine.cancel = context.WithCancel(context.Background())
	theirs := &stream{id: id, c: c.peer, in: b, out: a, seen: true}
	theirs.ctx, theirs.cancel = context.WithCancel(context.Background())
	mine.theirs = theirs
	c.streams = append(c.streams, mine)
	return mine, nil
}

// AcceptStream returns the next stream the peer opened.
func (c *Conn) AcceptStream(ctx context.Context) (Stream, error) {
	for {
		if err := ctx.Err(); err != nil {
			return nil, err
		}
		c.mux.Lock()
		if len(c.arrived) > 0 {
			s := c.arrived[0]
			c.arrived = c.arrived[1:]
			c.mux.Unlock()
			return s, nil
		}
		if c.err != nil {
			err := c.err
			c.mux.Unlock()
			return nil, err
		}
		ch := c.wake
		c.mux.Unlock()
		select {
		case <-ch:
		case <-ctx.Done():
		}
	}
}

func (c *Conn) arrive(s *stream) {
	c.mux.Lock()
	c.streams = append(c.streams, s)
	c.arrived = append(c.arrived, s)
	err := c.err
	close(c.wake)
	c.wake = make(chan struct{})
	c.mux.Unlock()
	if err != nil {
		s.end(err)
	}
}

// pipe is one direction of a stream.
type pipe struct {
	mux          sync.Mutex
	wake         chan struct{}
	data         []byte
	fin          bool
	rerr, werr   error
	rdead, wdead time.Time
}

func newPipe() *pipe { return &pipe{wake: make(chan struct{})} }

func (p *pipe) notify() {
	close(p.wake)
	p.wake = make(chan struct{})
}

// end ends this end of the stream.
func (s *stream) end(err error) {
	s.in.mux.Lock()
	if s.in.rerr == nil {
		s.in.rerr = err
	}
	s.in.notify()
	s.in.mux.Unlock()
	s.out.mux.Lock()
	if s.out.werr == nil {
		s.out.werr = err
	}
	s.out.notify()
	s.out.mux.Unlock()
}

// wait for a change or a deadline; called with the lock, returns without.
func (p *pipe) wait(dead time.Time) {
	ch := p.wake
	p.mux.Unlock()
	if dead.IsZero() {
		<-ch
		return
	}
	t := time.NewTimer(time.Until(dead))
	select {
	case <-ch:
	case <-t.C:
	}
	t.Stop()
}

func late(t time.Time) bool { return !t.IsZero() && !time.Now().Before(t) }

type stream struct {
	id      StreamID
	c       *Conn
	in, out *pipe
	ctx     context.Context
	cancel  context.CancelFunc
	one     sync.Mutex
	smux    sync.Mutex
	seen    bool
	theirs  *stream
}

func (s *stream) StreamID() StreamID       { return s.id }
func (s *stream) Context() context.Context { return s.ctx }

// show makes the stream known to the peer.
func (s *stream) show() {
	s.smux.Lock()
	seen := s.seen
	s.seen = true
	s.smux.Unlock()
	if !seen {
		// streams with lower numbers arrive first
		s.c.mux.Lock()
		l := s.c.streams
		s.c.mux.Unlock()
		for _, x := range l {
			if x.id < s.id && x.theirs != nil {
				x.show()
			}
		}
		s.c.peer.arrive(s.theirs)
	}
}

func (s *stream) Read(b []byte) (int, error) {
	p := s.in
	for {
		p.mux.Lock()
		if p.rerr != nil {
			err := p.rerr
			p.mux.Unlock()
			return 0, err
		}
		if late(p.rdead) {
			p.mux.Unlock()
			return 0, os.ErrDeadlineExceeded
		}
		if n := len(p.data); n > 0 && len(b) > 0 {
			if n > len(b) {
				n = len(b)
			}
			if Short != nil {
				n = Short(n)
			}
			copy(b, p.data[:n])
			p.data = p.data[n:]
			p.notify()
			p.mux.Unlock()
			return n, nil
		}
		if len(b) == 0 {
			p.mux.Unlock()
			return 0, nil
		}
		if p.fin {
			p.mux.Unlock()
			return 0, io.EOF
		}
		p.wait(p.rdead)
	}
}

func (s *stream) Write(b []byte) (int, error) {
	// one Write at a time
	s.one.Lock()
	defer s.one.Unlock()
	p := s.out
	done := 0
	// Close alone does not wake a blocked Write
	for first := true; ; first = false {
		p.mux.Lock()
		var err error
		switch {
		case p.fin && done == 0 && first:
			err = fmt.Errorf("write on closed stream %d", s.id)
		case p.werr != nil:
			err = p.werr
		case late(p.wdead):
			err = os.ErrDeadlineExceeded
		}
		if err != nil {
			p.mux.Unlock()
			return done, err
		}
		if done == len(b) {
			p.mux.Unlock()
			return done, nil
		}
		n := Window - len(p.data)
		if p.fin {
			n = 0
		}
		if n > len(b)-done {
			n = len(b) - done
		}
		if n > 0 {
			p.data = append(p.data, b[done:done+n]...)
			done += n
			p.notify()
			p.mux.Unlock()
			s.show()
			if done == len(b) {
				return done, nil
			}
			continue
		}
		p.wait(p.wdead)
	}
}

// Close ends the write direction.
func (s *stream) Close() error {
	p := s.out
	p.mux.Lock()
	if p.fin {
		p.mux.Unlock()
		return nil
	}
	if p.werr != nil {
		_, ok := p.werr.(*StreamError)
		p.mux.Unlock()
		s.cancel()
		if ok {
			return fmt.Errorf("close called for canceled stream %d", s.id)
		}
		return nil
	}
	p.fin = true
	p.notify()
	p.mux.Unlock()
	s.cancel()
	s.show()
	return nil
}

func (s *stream) CancelRead(code StreamErrorCode) {
	p := s.in
	p.mux.Lock()
	defer p.mux.Unlock()
	if p.rerr != nil {
		return
	}
	p.rerr = &StreamError{StreamID: s.id, ErrorCode: code}
	if p.werr == nil {
		p.werr = &StreamError{StreamID: s.id, ErrorCode: code, Remote: true}
	}
	p.notify()
}

func (s *stream) CancelWrite(code StreamErrorCode) {
	p := s.out
	p.mux.Lock()
	if p.werr == nil {
		p.werr = &StreamError{StreamID: s.id, ErrorCode: code}
	}
	if p.rerr == nil {
		p.rerr = &StreamError{StreamID: s.id, ErrorCode: code, Remote: true}
	}
	p.notify()
	p.mux.Unlock()
	s.cancel()
	s.show()
}

func (s *stream) SetReadDeadline(t time.Time) error {
	s.in.mux.Lock()
	s.in.rdead = t
	s.in.notify()
	s.in.mux.Unlock()
	return nil
}

func (s *stream) SetWriteDeadline(t time.Time) error {
	s.out.mux.Lock()
	s.out.wdead = t
	s.out.notify()
	s.out.mux.Unlock()
	return nil
}

func (s *stream) SetDeadline(t time.Time) error {
	s.SetReadDeadline(t)
	return s.SetWriteDeadline(t)
}
