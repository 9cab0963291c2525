// Package concurrency stands in for go.etcd.io/etcd/client/v3/concurrency.
package concurrency

import (
	"context"
	"errors"
	"strconv"

	"github.com/lesismal/arpc/zmc/env/clientv3"
)

// ErrLocked is returned by TryLock.
var ErrLocked = errors.New("mutex: Locked by another session")

type sessionOptions struct{ ttl int }

// SessionOption sets an option.
type SessionOption func(*sessionOptions)

// WithTTL sets the time to live of the session.
func WithTTL(ttl int) SessionOption { return func(o *sessionOptions) { o.ttl = ttl } }

// Session is a lease kept alive.
type Session struct {
	client *clientv3.Client
	id     clientv3.LeaseID
	cancel context.CancelFunc
	done   chan struct{}
}

// NewSession makes a session.
func NewSession(client *clientv3.Client, opts ...SessionOption) (*Session, error) {
	o := &sessionOptions{ttl: 60}
	for _, f := range opts {
		f(o)
	}
	r, err := client.Grant(client.Ctx(), int64(o.ttl))
	if err != nil {
		return nil, err
	}
	ctx, cancel := context.WithCancel(client.Ctx())
	ch, err := client.KeepAlive(ctx, r.ID)
	if err != nil {
		cancel()
		return nil, err
	}
	s := &Session{client: client, id: r.ID, cancel: cancel, done: make(chan struct{})}
	go func() {
		defer close(s.done)
		for range ch {
		}
	}()
	return s, nil
}

// Client of the session.
func (s *Session) Client() *clientv3.Client { return s.client }

// Lease of the session.
func (s *Session) Lease() clientv3.LeaseID { return s.id }

// Done is closed when the lease ends.
func (s *Session) Done() <-chan struct{} { return s.done }

// Orphan ends the refresh.
func (s *Session) Orphan() {
	s.cancel()
	<-s.done
}

// Close revokes the lease.
func (s *Session) Close() error {
	s.Orphan()
	_, err := s.client.Revoke(s.client.Ctx(), s.id)
	return err
}

// Mutex is a lock in the store.
type Mutex struct {
	s        *Session
	pfx, key string
}

// NewMutex makes a lock.
func NewMutex(s *Session, pfx string) *Mutex {
	return &Mutex{s: s, pfx: pfx + "/"}
}

// Lock the mutex.
func (m *Mutex) Lock(ctx context.Context) error {
	m.key = m.pfx + strconv.FormatInt(int64(m.s.id), 16)
	err := clientv3.First(ctx, m.s.client, m.pfx, m.key, m.s.id)
	if err != nil {
		m.s.client.Delete(m.s.client.Ctx(), m.key)
	}
	return err
}

// Unlock the mutex.
func (m *Mutex) Unlock(ctx context.Context) error {
	_, err := m.s.client.Delete(ctx, m.key)
	return err
}

// Key of the lock.
func (m *Mutex) Key() string { return m.key }
