// Package scen holds the closed systems (scenarios) explored for each property.
// It uses only the exported API of the code under test.
package scen

import (
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/log"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

type quiet struct{}

func (quiet) SetLevel(int)                 {}
func (quiet) Debug(string, ...interface{}) {}
func (quiet) Info(string, ...interface{})  {}
func (quiet) Warn(string, ...interface{})  {}
func (quiet) Error(string, ...interface{}) {}

// begin must be called first by every scenario.
func begin() {
	log.SetLogger(quiet{})
	arpc.DefaultAllocator = allocator0
	mc.WriteHook = nil
	mc.PoolCheck = false
	mc.PoolAny = false
	mc.PoolYield = false
}

var allocator0 = arpc.DefaultAllocator

const hour = time.Hour

// one is a helper for scenarios with a list of parameter combinations.
func cfg(name string, kv ...interface{}) mc.Config {
	c := mc.Config{Name: name, P: map[string]int{}, MaxBound: -1}
	for i := 0; i+1 < len(kv); i += 2 {
		c.P[kv[i].(string)] = kv[i+1].(int)
	}
	return c
}

// handlerOpts builds a handler according to the generic parameters:
// async (write mode), batchsend, batchrecv, pool, queue.
func newHandler(c *mc.Config, tag string) arpc.Handler {
	h := arpc.NewHandler()
	h.SetLogTag(tag)
	setup(h, c)
	return h
}

func setup(h arpc.Handler, c *mc.Config) {
	if v, ok := c.P["async"]; ok {
		h.SetAsyncWrite(v == 1)
	}
	if v, ok := c.P["bsend"]; ok {
		h.SetBatchSend(v == 1)
	}
	if v, ok := c.P["brecv"]; ok {
		h.SetBatchRecv(v == 1)
	}
	if v, ok := c.P["sendbuf"]; ok {
		h.SetSendBufferSize(v)
	}
	if v, ok := c.P["pool"]; ok && v == 1 {
		h.EnablePool(true)
	}
	// the default sizes only cost memory here
	h.SetSendQueueSize(32)
	h.SetRecvBufferSize(512)
	if v, ok := c.P["queue"]; ok {
		h.SetSendQueueSize(v)
	}
}

// newServer returns a server whose handler is set up like newHandler.
func newServer(c *mc.Config) *arpc.Server {
	s := arpc.NewServer()
	setup(s.Handler, c)
	return s
}

// dialer returns a DialerFunc to a simulated listener.
func dialer(l *mc.Listener) arpc.DialerFunc {
	return func() (net.Conn, error) {
		c, err := l.Dial()
		if err != nil {
			return nil, err
		}
		return c, nil
	}
}

// frame is a parsed wire message of the scripted peer.
type frame struct {
	cmd, flag, reserved byte
	method              string
	seq                 uint64
	data                string
}

// readFrame reads one frame with an independent implementation of the format.
func readFrame(r io.Reader) (*frame, error) {
	var hd [16]byte
	if _, err := io.ReadFull(r, hd[:]); err != nil {
		return nil, err
	}
	n := binary.LittleEndian.Uint32(hd[0:4])
	ml := int(hd[7])
	if n > 1<<26 || ml > int(n) {
		return nil, fmt.Errorf("bad frame % x", hd[:])
	}
	body := make([]byte, n)
	if _, err := io.ReadFull(r, body); err != nil {
		return nil, err
	}
	return &frame{cmd: hd[5], flag: hd[6], reserved: hd[4], method: string(body[:ml]), seq: binary.LittleEndian.Uint64(hd[8:16]), data: string(body[ml:])}, nil
}

// bytes encodes a frame.
func (f *frame) bytes() []byte {
	b := make([]byte, 16, 16+len(f.method)+len(f.data))
	binary.LittleEndian.PutUint32(b[0:4], uint32(len(f.method)+len(f.data)))
	b[4] = f.reserved
	b[5] = f.cmd
	b[6] = f.flag
	b[7] = byte(len(f.method))
	binary.LittleEndian.PutUint64(b[8:16], f.seq)
	b = append(b, f.method...)
	return append(b, f.data...)
}

func errStr(err error) string {
	if err == nil {
		return "nil"
	}
	return err.Error()
}

// latch is a one-shot event.
type latch struct{ ch chan struct{} }

func newLatch() *latch { return &latch{make(chan struct{})} }
func (l *latch) wait() { <-l.ch }
func (l *latch) fire() { close(l.ch) }
