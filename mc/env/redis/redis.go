// Package redis stands in for github.com/go-redis/redis/v8: the part of its
// interface a hash registry needs, on an in-memory server shared by all
// clients. It is environment, not code under test: every command takes
// effect atomically, is a scheduling point of its own, and fails when the
// scenario says so.
package redis

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strconv"
	"sync"
	"time"
)

// Nil is returned when a key or field does not exist.
var Nil = errors.New("redis: nil")

// ErrClosed is returned by a closed client.
var ErrClosed = errors.New("redis: client is closed")

// ErrDown is the failure injected by scenarios.
var ErrDown = errors.New("dial tcp: connection refused")

// Server is the one server there is.
type server struct {
	mux  sync.Mutex
	hash map[string]map[string]string
}

var srv = &server{hash: map[string]map[string]string{}}

// Fault decides about the outcome of a command of a client: 0 success,
// 1 failure without effect, 2 failure with effect (the reply is lost).
var Fault func(c *Client, cmd string) int

// Clients are all clients made so far.
var Clients []*Client

// Hash returns a copy of a hash, for scenarios.
func Hash(key string) map[string]string {
	srv.mux.Lock()
	defer srv.mux.Unlock()
	m := map[string]string{}
	for k, v := range srv.hash[key] {
		m[k] = v
	}
	return m
}

// Put stores a field, for scenarios.
func Put(key, field, value string) {
	srv.mux.Lock()
	defer srv.mux.Unlock()
	put(key, field, value)
}

func put(key, field, value string) bool {
	h := srv.hash[key]
	if h == nil {
		h = map[string]string{}
		srv.hash[key] = h
	}
	_, ok := h[field]
	h[field] = value
	return !ok
}

func del(key string, fields ...string) int64 {
	n := int64(0)
	for _, f := range fields {
		if _, ok := srv.hash[key][f]; ok {
			delete(srv.hash[key], f)
			n++
		}
	}
	if len(srv.hash[key]) == 0 {
		delete(srv.hash, key)
	}
	return n
}

// Options of a client.
type Options struct {
	Network, Addr, Username, Password      string
	DB, MaxRetries, PoolSize, MinIdleConns int
	DialTimeout, ReadTimeout, WriteTimeout time.Duration
	MinRetryBackoff, MaxRetryBackoff       time.Duration
	MaxConnAge, PoolTimeout, IdleTimeout   time.Duration
	IdleCheckFrequency                     time.Duration
	OnConnect                              func(ctx context.Context, cn interface{}) error
}

// Client is a connection to the server.
type Client struct {
	mux    sync.Mutex
	opt    *Options
	closed bool
	cut    bool
	ID     int
}

// NewClient never fails: the real one dials lazily.
func NewClient(opt *Options) *Client {
	c := &Client{opt: opt, ID: len(Clients)}
	Clients = append(Clients, c)
	return c
}

// Cut makes every further command of the client fail.
func (c *Client) Cut() {
	c.mux.Lock()
	c.cut = true
	c.mux.Unlock()
}

// Close ends the client.
func (c *Client) Close() error {
	c.mux.Lock()
	defer c.mux.Unlock()
	if c.closed {
		return ErrClosed
	}
	c.closed = true
	return nil
}

// Closed reports whether Close was called.
func (c *Client) Closed() bool {
	c.mux.Lock()
	defer c.mux.Unlock()
	return c.closed
}

// Options returns the options.
func (c *Client) Options() *Options { return c.opt }

func (c *Client) do(ctx context.Context, cmd string, f func()) error {
	if ctx != nil && ctx.Err() != nil {
		return ctx.Err()
	}
	c.mux.Lock()
	closed, cut := c.closed, c.cut
	c.mux.Unlock()
	if closed {
		return ErrClosed
	}
	if cut {
		return ErrDown
	}
	what := 0
	if Fault != nil {
		what = Fault(c, cmd)
	}
	if what == 1 {
		return ErrDown
	}
	srv.mux.Lock()
	f()
	srv.mux.Unlock()
	if what == 2 {
		return ErrDown
	}
	return nil
}

type cmd struct{ err error }

func (c *cmd) Err() error     { return c.err }
func (c *cmd) SetErr(e error) { c.err = e }

// IntCmd is a reply.
type IntCmd struct {
	cmd
	val int64
}

// Val of the reply.
func (c *IntCmd) Val() int64 { return c.val }

// Result of the command.
func (c *IntCmd) Result() (int64, error) { return c.val, c.err }

// BoolCmd is a reply.
type BoolCmd struct {
	cmd
	val bool
}

// Val of the reply.
func (c *BoolCmd) Val() bool { return c.val }

// Result of the command.
func (c *BoolCmd) Result() (bool, error) { return c.val, c.err }

// StringCmd is a reply.
type StringCmd struct {
	cmd
	val string
}

// Val of the reply.
func (c *StringCmd) Val() string { return c.val }

// Result of the command.
func (c *StringCmd) Result() (string, error) { return c.val, c.err }

// Int64 parses the reply.
func (c *StringCmd) Int64() (int64, error) {
	if c.err != nil {
		return 0, c.err
	}
	return strconv.ParseInt(c.val, 10, 64)
}

// StatusCmd is a reply.
type StatusCmd struct{ StringCmd }

// StringStringMapCmd is a reply.
type StringStringMapCmd struct {
	cmd
	val map[string]string
}

// Val of the reply.
func (c *StringStringMapCmd) Val() map[string]string { return c.val }

// Result of the command.
func (c *StringStringMapCmd) Result() (map[string]string, error) { return c.val, c.err }

// StringSliceCmd is a reply.
type StringSliceCmd struct {
	cmd
	val []string
}

// Val of the reply.
func (c *StringSliceCmd) Val() []string { return c.val }

// Result of the command.
func (c *StringSliceCmd) Result() ([]string, error) { return c.val, c.err }

func arg(v interface{}) string {
	switch x := v.(type) {
	case string:
		return x
	case []byte:
		return string(x)
	case nil:
		return ""
	case bool:
		if x {
			return "1"
		}
		return "0"
	case time.Time:
		return x.Format(time.RFC3339Nano)
	case time.Duration:
		return strconv.FormatInt(int64(x), 10)
	}
	return fmt.Sprint(v)
}

func flat(values []interface{}) []string {
	var l []string
	for _, v := range values {
		switch x := v.(type) {
		case []string:
			l = append(l, x...)
		case []interface{}:
			for _, y := range x {
				l = append(l, arg(y))
			}
		case map[string]interface{}:
			for k, y := range x {
				l = append(l, k, arg(y))
			}
		default:
			l = append(l, arg(v))
		}
	}
	return l
}

// HGetAll returns a hash.
func (c *Client) HGetAll(ctx context.Context, key string) *StringStringMapCmd {
	r := &StringStringMapCmd{}
	r.err = c.do(ctx, "HGETALL", func() {
		r.val = map[string]string{}
		for k, v := range srv.hash[key] {
			r.val[k] = v
		}
	})
	if r.err != nil {
		r.val = nil
	}
	return r
}

// HKeys returns the fields of a hash.
func (c *Client) HKeys(ctx context.Context, key string) *StringSliceCmd {
	r := &StringSliceCmd{}
	r.err = c.do(ctx, "HKEYS", func() {
		for k := range srv.hash[key] {
			r.val = append(r.val, k)
		}
		sort.Strings(r.val)
	})
	return r
}

// HGet returns a field.
func (c *Client) HGet(ctx context.Context, key, field string) *StringCmd {
	r := &StringCmd{}
	ok := false
	r.err = c.do(ctx, "HGET", func() { r.val, ok = srv.hash[key][field] })
	if r.err == nil && !ok {
		r.err = Nil
	}
	return r
}

// HExists tells about a field.
func (c *Client) HExists(ctx context.Context, key, field string) *BoolCmd {
	r := &BoolCmd{}
	r.err = c.do(ctx, "HEXISTS", func() { _, r.val = srv.hash[key][field] })
	return r
}

// HLen counts fields.
func (c *Client) HLen(ctx context.Context, key string) *IntCmd {
	r := &IntCmd{}
	r.err = c.do(ctx, "HLEN", func() { r.val = int64(len(srv.hash[key])) })
	return r
}

// HDel removes fields.
func (c *Client) HDel(ctx context.Context, key string, fields ...string) *IntCmd {
	r := &IntCmd{}
	r.err = c.do(ctx, "HDEL", func() { r.val = del(key, fields...) })
	return r
}

// HSet stores fields.
func (c *Client) HSet(ctx context.Context, key string, values ...interface{}) *IntCmd {
	r := &IntCmd{}
	r.err = c.do(ctx, "HSET", func() {
		l := flat(values)
		for i := 0; i+1 < len(l); i += 2 {
			if put(key, l[i], l[i+1]) {
				r.val++
			}
		}
	})
	return r
}

// HSetNX stores a field unless it exists.
func (c *Client) HSetNX(ctx context.Context, key, field string, value interface{}) *BoolCmd {
	r := &BoolCmd{}
	r.err = c.do(ctx, "HSETNX", func() {
		if _, ok := srv.hash[key][field]; !ok {
			put(key, field, arg(value))
			r.val = true
		}
	})
	return r
}

// Del removes keys.
func (c *Client) Del(ctx context.Context, keys ...string) *IntCmd {
	r := &IntCmd{}
	r.err = c.do(ctx, "DEL", func() {
		for _, k := range keys {
			if _, ok := srv.hash[k]; ok {
				delete(srv.hash, k)
				r.val++
			}
		}
	})
	return r
}

// Ping the server.
func (c *Client) Ping(ctx context.Context) *StatusCmd {
	r := &StatusCmd{}
	r.err = c.do(ctx, "PING", func() { r.val = "PONG" })
	return r
}
