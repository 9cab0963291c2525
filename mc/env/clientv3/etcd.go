// Package clientv3 stands in for go.etcd.io/etcd/client/v3: keys, leases and
// watches on an in-memory store shared by all clients. It is environment,
// not code under test: requests take effect atomically and are scheduling
// points, watch events arrive in order but whenever the scheduler pleases,
// and requests fail when the scenario says so.
package clientv3

import (
	"context"
	"errors"
	"sort"
	"strings"
	"sync"
	"time"
)

// LeaseID names a lease.
type LeaseID int64

// NoLease is the zero LeaseID.
const NoLease LeaseID = 0

// EventType of a watch event.
type EventType int32

// The types of events.
const (
	EventTypePut    EventType = 0
	EventTypeDelete EventType = 1
)

// KeyValue is an entry.
type KeyValue struct {
	Key, Value                  []byte
	CreateRevision, ModRevision int64
	Version, Lease              int64
}

// Event is a change of an entry.
type Event struct {
	Type       EventType
	Kv, PrevKv *KeyValue
}

// IsCreate tells whether the key is new.
func (e *Event) IsCreate() bool {
	return e.Type == EventTypePut && e.Kv.CreateRevision == e.Kv.ModRevision
}

// IsModify tells whether the key existed.
func (e *Event) IsModify() bool {
	return e.Type == EventTypePut && e.Kv.CreateRevision != e.Kv.ModRevision
}

// ResponseHeader heads every response.
type ResponseHeader struct {
	ClusterId, MemberId uint64
	Revision            int64
}

// GetResponse answers Get.
type GetResponse struct {
	Header *ResponseHeader
	Kvs    []*KeyValue
	More   bool
	Count  int64
}

// PutResponse answers Put.
type PutResponse struct {
	Header *ResponseHeader
	PrevKv *KeyValue
}

// DeleteResponse answers Delete.
type DeleteResponse struct {
	Header  *ResponseHeader
	Deleted int64
	PrevKvs []*KeyValue
}

// WatchResponse carries events.
type WatchResponse struct {
	Header          ResponseHeader
	Events          []*Event
	CompactRevision int64
	Canceled        bool
	Created         bool
	closeErr        error
}

// Err of the watch.
func (w *WatchResponse) Err() error { return w.closeErr }

// IsProgressNotify is for responses without events.
func (w *WatchResponse) IsProgressNotify() bool { return false }

// WatchChan delivers WatchResponses.
type WatchChan <-chan WatchResponse

// LeaseGrantResponse answers Grant.
type LeaseGrantResponse struct {
	*ResponseHeader
	ID    LeaseID
	TTL   int64
	Error string
}

// LeaseKeepAliveResponse tells that a lease was kept alive.
type LeaseKeepAliveResponse struct {
	*ResponseHeader
	ID  LeaseID
	TTL int64
}

// LeaseRevokeResponse answers Revoke.
type LeaseRevokeResponse struct{ Header *ResponseHeader }

// Op holds the options of a request.
type Op struct {
	prefix bool
	rev    int64
	lease  LeaseID
	prevKV bool
	limit  int64
	keys   bool
	filter map[EventType]bool
}

// OpOption sets an option.
type OpOption func(*Op)

// WithPrefix makes the key a prefix.
func WithPrefix() OpOption { return func(o *Op) { o.prefix = true } }

// WithRev starts a watch at a revision.
func WithRev(rev int64) OpOption { return func(o *Op) { o.rev = rev } }

// WithLease attaches a key to a lease.
func WithLease(id LeaseID) OpOption { return func(o *Op) { o.lease = id } }

// WithPrevKV asks for the former entry.
func WithPrevKV() OpOption { return func(o *Op) { o.prevKV = true } }

// WithCreatedNotify is accepted and ignored.
func WithCreatedNotify() OpOption { return func(o *Op) {} }

// WithSerializable is accepted and ignored.
func WithSerializable() OpOption { return func(o *Op) {} }

// WithKeysOnly leaves out the values.
func WithKeysOnly() OpOption { return func(o *Op) { o.keys = true } }

// WithLimit bounds the number of entries.
func WithLimit(n int64) OpOption { return func(o *Op) { o.limit = n } }

// WithRequireLeader returns the context.
func WithRequireLeader(ctx context.Context) context.Context { return ctx }

// The errors of the stand-in.
var (
	ErrDown          = errors.New("etcdserver: request timed out")
	ErrLeaseNotFound = errors.New("etcdserver: requested lease not found")
	ErrCompacted     = errors.New("etcdserver: mvcc: required revision has been compacted")
)

type lease struct {
	id    LeaseID
	ttl   time.Duration
	keys  map[string]bool
	timer *time.Timer
	gen   int
	alive bool
}

type watcher struct {
	c      *Client
	key    string
	op     Op
	mux    sync.Mutex
	queue  []*Event
	wake   chan struct{}
	closed chan struct{}
}

type store struct {
	mux       sync.Mutex
	rev       int64
	kvs       map[string]*KeyValue
	history   []*Event
	leases    map[LeaseID]*lease
	nextID    LeaseID
	compacted int64
	watchers  []*watcher
	changed   chan struct{}
}

var st = &store{rev: 1, kvs: map[string]*KeyValue{}, leases: map[LeaseID]*lease{}, changed: make(chan struct{})}

// Fault decides about the outcome of a request: 0 success, 1 failure without
// effect, 2 failure with effect (the response is lost).
var Fault func(c *Client, req string) int

// Clients are all clients made so far.
var Clients []*Client

// Watchers is the number of watches open.
func Watchers() int {
	st.mux.Lock()
	defer st.mux.Unlock()
	return len(st.watchers)
}

// Entries returns the entries below a prefix, for scenarios.
func Entries(prefix string) map[string]string {
	st.mux.Lock()
	defer st.mux.Unlock()
	m := map[string]string{}
	for k, v := range st.kvs {
		if strings.HasPrefix(k, prefix) {
			m[k] = string(v.Value)
		}
	}
	return m
}

// Compact forgets the history of the store, for scenarios.
func Compact() {
	st.mux.Lock()
	st.compacted = st.rev
	st.history = nil
	st.mux.Unlock()
}

// Set stores an entry, for scenarios.
func Set(key, value string) {
	st.mux.Lock()
	st.put(key, value, 0)
	st.mux.Unlock()
}

// Remove deletes an entry, for scenarios.
func Remove(key string) {
	st.mux.Lock()
	st.del(key)
	st.mux.Unlock()
}

func (o *Op) match(key, k string) bool {
	if o.prefix {
		return strings.HasPrefix(k, key)
	}
	return key == k
}

// emit appends an event to the history and to the queues of the watchers.
func (s *store) emit(e *Event) {
	s.history = append(s.history, e)
	for _, w := range s.watchers {
		if w.op.match(w.key, string(e.Kv.Key)) && e.Kv.ModRevision >= w.op.rev {
			w.add(e)
		}
	}
	close(s.changed)
	s.changed = make(chan struct{})
}

func (w *watcher) add(e *Event) {
	w.mux.Lock()
	w.queue = append(w.queue, e)
	w.mux.Unlock()
	select {
	case w.wake <- struct{}{}:
	default:
	}
}

func (s *store) put(key, value string, id LeaseID) {
	s.rev++
	kv := &KeyValue{Key: []byte(key), Value: []byte(value), CreateRevision: s.rev, ModRevision: s.rev, Version: 1, Lease: int64(id)}
	if old := s.kvs[key]; old != nil {
		kv.CreateRevision = old.CreateRevision
		kv.Version = old.Version + 1
		if l := s.leases[LeaseID(old.Lease)]; l != nil {
			delete(l.keys, key)
		}
	}
	s.kvs[key] = kv
	if l := s.leases[id]; l != nil {
		l.keys[key] = true
	}
	s.emit(&Event{Type: EventTypePut, Kv: kv})
}

func (s *store) del(key string) bool {
	old := s.kvs[key]
	if old == nil {
		return false
	}
	s.rev++
	delete(s.kvs, key)
	if l := s.leases[LeaseID(old.Lease)]; l != nil {
		delete(l.keys, key)
	}
	s.emit(&Event{Type: EventTypeDelete, Kv: &KeyValue{Key: []byte(key), ModRevision: s.rev}, PrevKv: old})
	return true
}

func (s *store) end(l *lease) {
	if !l.alive {
		return
	}
	l.alive = false
	l.timer.Stop()
	delete(s.leases, l.id)
	var keys []string
	for k := range l.keys {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		s.del(k)
	}
}

func (s *store) arm(l *lease) {
	l.gen++
	g := l.gen
	if l.timer != nil {
		l.timer.Stop()
	}
	l.timer = time.AfterFunc(l.ttl, func() {
		s.mux.Lock()
		if l.gen == g {
			s.end(l)
		}
		s.mux.Unlock()
	})
}

func header() *ResponseHeader { return &ResponseHeader{ClusterId: 1, MemberId: 1, Revision: st.rev} }

// Config of a client.
type Config struct {
	Endpoints            []string
	AutoSyncInterval     time.Duration
	DialTimeout          time.Duration
	DialKeepAliveTime    time.Duration
	DialKeepAliveTimeout time.Duration
	Username, Password   string
	RejectOldCluster     bool
	Context              context.Context
	PermitWithoutStream  bool
}

// Client is a connection to the store.
type Client struct {
	ID     int
	ctx    context.Context
	cancel context.CancelFunc
	mux    sync.Mutex
	cut    bool
}

// New makes a client.
func New(cfg Config) (*Client, error) {
	c := &Client{ID: len(Clients)}
	p := cfg.Context
	if p == nil {
		p = context.Background()
	}
	c.ctx, c.cancel = context.WithCancel(p)
	if Fault != nil && Fault(c, "new") != 0 {
		return nil, ErrDown
	}
	Clients = append(Clients, c)
	return c, nil
}

// Ctx of the client.
func (c *Client) Ctx() context.Context { return c.ctx }

// Cut separates the client from the store: requests fail, leases are no
// longer kept alive and events no longer arrive.
func (c *Client) Cut() {
	c.mux.Lock()
	c.cut = true
	c.mux.Unlock()
}

func (c *Client) isCut() bool {
	c.mux.Lock()
	defer c.mux.Unlock()
	return c.cut
}

// Close ends the client, its watches and keep-alives.
func (c *Client) Close() error {
	err := c.ctx.Err()
	c.cancel()
	return err
}

// Closed reports whether Close was called.
func (c *Client) Closed() bool { return c.ctx.Err() != nil }

func (c *Client) do(ctx context.Context, req string, f func() error) error {
	if err := ctx.Err(); err != nil {
		return err
	}
	if err := c.ctx.Err(); err != nil {
		return err
	}
	if c.isCut() {
		return ErrDown
	}
	what := 0
	if Fault != nil {
		what = Fault(c, req)
	}
	if what == 1 {
		return ErrDown
	}
	st.mux.Lock()
	err := f()
	st.mux.Unlock()
	if what == 2 {
		return ErrDown
	}
	return err
}

func ops(o []OpOption) Op {
	var op Op
	for _, f := range o {
		f(&op)
	}
	return op
}

// Get returns entries.
func (c *Client) Get(ctx context.Context, key string, opts ...OpOption) (*GetResponse, error) {
	op := ops(opts)
	var r *GetResponse
	err := c.do(ctx, "get", func() error {
		r = &GetResponse{Header: header()}
		for k, v := range st.kvs {
			if op.match(key, k) {
				x := *v
				if op.keys {
					x.Value = nil
				}
				r.Kvs = append(r.Kvs, &x)
			}
		}
		sort.Slice(r.Kvs, func(i, j int) bool { return string(r.Kvs[i].Key) < string(r.Kvs[j].Key) })
		r.Count = int64(len(r.Kvs))
		if op.limit > 0 && r.Count > op.limit {
			r.Kvs, r.More = r.Kvs[:op.limit], true
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	return r, nil
}

// Put stores an entry.
func (c *Client) Put(ctx context.Context, key, val string, opts ...OpOption) (*PutResponse, error) {
	op := ops(opts)
	var r *PutResponse
	err := c.do(ctx, "put", func() error {
		if op.lease != 0 && st.leases[op.lease] == nil {
			return ErrLeaseNotFound
		}
		old := st.kvs[key]
		st.put(key, val, op.lease)
		r = &PutResponse{Header: header()}
		if op.prevKV {
			r.PrevKv = old
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	return r, nil
}

// Delete removes entries.
func (c *Client) Delete(ctx context.Context, key string, opts ...OpOption) (*DeleteResponse, error) {
	op := ops(opts)
	var r *DeleteResponse
	err := c.do(ctx, "delete", func() error {
		r = &DeleteResponse{}
		var keys []string
		for k := range st.kvs {
			if op.match(key, k) {
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		for _, k := range keys {
			if op.prevKV {
				r.PrevKvs = append(r.PrevKvs, st.kvs[k])
			}
			st.del(k)
			r.Deleted++
		}
		r.Header = header()
		return nil
	})
	if err != nil {
		return nil, err
	}
	return r, nil
}

// Grant makes a lease.
func (c *Client) Grant(ctx context.Context, ttl int64) (*LeaseGrantResponse, error) {
	var r *LeaseGrantResponse
	err := c.do(ctx, "grant", func() error {
		st.nextID++
		l := &lease{id: st.nextID, ttl: time.Duration(ttl) * time.Second, keys: map[string]bool{}, alive: true}
		st.leases[l.id] = l
		st.arm(l)
		r = &LeaseGrantResponse{ResponseHeader: header(), ID: l.id, TTL: ttl}
		return nil
	})
	if err != nil {
		return nil, err
	}
	return r, nil
}

// Revoke ends a lease.
func (c *Client) Revoke(ctx context.Context, id LeaseID) (*LeaseRevokeResponse, error) {
	err := c.do(ctx, "revoke", func() error {
		l := st.leases[id]
		if l == nil {
			return ErrLeaseNotFound
		}
		st.end(l)
		return nil
	})
	if err != nil {
		return nil, err
	}
	return &LeaseRevokeResponse{}, nil
}

func (c *Client) renew(id LeaseID) (r *LeaseKeepAliveResponse, gone bool) {
	if c.isCut() || c.ctx.Err() != nil {
		return nil, false
	}
	st.mux.Lock()
	defer st.mux.Unlock()
	l := st.leases[id]
	if l == nil {
		return nil, true
	}
	st.arm(l)
	return &LeaseKeepAliveResponse{ResponseHeader: header(), ID: id, TTL: int64(l.ttl / time.Second)}, false
}

// KeepAliveOnce renews a lease.
func (c *Client) KeepAliveOnce(ctx context.Context, id LeaseID) (*LeaseKeepAliveResponse, error) {
	var r *LeaseKeepAliveResponse
	err := c.do(ctx, "keepaliveonce", func() error {
		l := st.leases[id]
		if l == nil {
			return ErrLeaseNotFound
		}
		st.arm(l)
		r = &LeaseKeepAliveResponse{ResponseHeader: header(), ID: id, TTL: int64(l.ttl / time.Second)}
		return nil
	})
	if err != nil {
		return nil, err
	}
	return r, nil
}

// KeepAlive renews a lease for as long as the client and the lease live.
func (c *Client) KeepAlive(ctx context.Context, id LeaseID) (<-chan *LeaseKeepAliveResponse, error) {
	var ttl time.Duration
	err := c.do(ctx, "keepalive", func() error {
		if l := st.leases[id]; l != nil {
			ttl = l.ttl
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	ch := make(chan *LeaseKeepAliveResponse, 16)
	go func() {
		defer close(ch)
		for {
			r, gone := c.renew(id)
			if gone {
				return
			}
			if r != nil {
				select {
				case ch <- r:
				default:
				}
			}
			t := time.NewTimer(ttl / 3)
			select {
			case <-t.C:
			case <-ctx.Done():
				t.Stop()
				return
			case <-c.ctx.Done():
				t.Stop()
				return
			}
		}
	}()
	return ch, nil
}

// Watch delivers the changes below a key.
func (c *Client) Watch(ctx context.Context, key string, opts ...OpOption) WatchChan {
	w := &watcher{c: c, key: key, op: ops(opts), wake: make(chan struct{}, 1)}
	ch := make(chan WatchResponse)
	if c.ctx.Err() != nil {
		close(ch)
		return ch
	}
	st.mux.Lock()
	if w.op.rev > 0 && w.op.rev <= st.compacted {
		// the history wanted is gone
		rev := st.compacted
		st.mux.Unlock()
		go func() {
			defer close(ch)
			select {
			case ch <- WatchResponse{CompactRevision: rev, Canceled: true, closeErr: ErrCompacted}:
			case <-ctx.Done():
			case <-c.ctx.Done():
			}
		}()
		return ch
	}
	if w.op.rev > 0 {
		for _, e := range st.history {
			if w.op.match(key, string(e.Kv.Key)) && e.Kv.ModRevision >= w.op.rev {
				w.add(e)
			}
		}
	}
	st.watchers = append(st.watchers, w)
	st.mux.Unlock()
	go func() {
		defer func() {
			st.mux.Lock()
			for i, x := range st.watchers {
				if x == w {
					st.watchers = append(st.watchers[:i:i], st.watchers[i+1:]...)
					break
				}
			}
			st.mux.Unlock()
			close(ch)
		}()
		for {
			select {
			case <-w.wake:
			case <-ctx.Done():
				return
			case <-c.ctx.Done():
				return
			}
			w.mux.Lock()
			q := w.queue
			w.queue = nil
			w.mux.Unlock()
			if len(q) == 0 || c.isCut() {
				continue
			}
			l := make([]*Event, len(q))
			for i, e := range q {
				x := *e
				if !w.op.prevKV {
					x.PrevKv = nil
				}
				l[i] = &x
			}
			select {
			case ch <- WatchResponse{Header: ResponseHeader{Revision: q[len(q)-1].Kv.ModRevision}, Events: l}:
			case <-ctx.Done():
				return
			case <-c.ctx.Done():
				return
			}
		}
	}()
	return ch
}

// First puts a key under a lease and waits until no key below the prefix is
// older: the lock of the concurrency package.
func First(ctx context.Context, c *Client, pfx, key string, id LeaseID) error {
	err := c.do(ctx, "lock", func() error {
		if st.leases[id] == nil {
			return ErrLeaseNotFound
		}
		if st.kvs[key] == nil {
			st.put(key, "", id)
		}
		return nil
	})
	if err != nil {
		return err
	}
	for {
		st.mux.Lock()
		mine := st.kvs[key]
		first := true
		for k, v := range st.kvs {
			if mine != nil && strings.HasPrefix(k, pfx) && v.CreateRevision < mine.CreateRevision {
				first = false
			}
		}
		ch := st.changed
		st.mux.Unlock()
		if mine == nil {
			return ErrLeaseNotFound
		}
		if first {
			return nil
		}
		select {
		case <-ch:
		case <-ctx.Done():
			return ctx.Err()
		case <-c.ctx.Done():
			return c.ctx.Err()
		}
	}
}
