package mcrt

import (
	"fmt"
	"runtime"
	"sync"
	"unsafe"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex replaces sync.Mutex.
type Mutex struct {
	o      obj
	locked bool
}

// Lock locks m.
func (m *Mutex) Lock() {
	if s != nil && s.dead {
		runtime.Goexit()
	}
	t := point("Lock", func() bool { return !m.locked })
	m.locked = true
	if t != nil {
		t.acquire(&m.o)
		s.touch(t, &m.o, 0x10c)
	}
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	if s != nil && s.dead {
		runtime.Goexit()
	}
	t := point("TryLock", nil)
	if m.locked {
		if t != nil {
			t.hash = mix(t.hash, 0x7f)
		}
		return false
	}
	m.locked = true
	if t != nil {
		t.acquire(&m.o)
		s.touch(t, &m.o, 0x10c)
	}
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	if s != nil && s.dead {
		m.locked = false
		return
	}
	if !m.locked {
		if s == nil {
			panic("sync: unlock of unlocked mutex")
		}
		s.fail("crash: fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
	if s != nil {
		t := s.cur
		s.touch(t, &m.o, 0x10d)
		t.release(&m.o)
		if s.ex != nil && s.ex.tracing {
			s.op(t, "Unlock")
		}
	}
}

// RWMutex replaces sync.RWMutex (a waiting writer blocks new readers).
type RWMutex struct {
	o       obj
	ro      obj
	w       bool
	r       int
	waiting int
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	if s != nil && s.dead {
		runtime.Goexit()
	}
	if s != nil {
		point("RWMutex.Lock (enqueue)", nil)
		m.waiting++
		s.touch(s.cur, &m.o, 0x2ff)
	}
	t := point("RWMutex.Lock", func() bool { return !m.w && m.r == 0 })
	m.w = true
	if t != nil {
		m.waiting--
		t.acquire(&m.o)
		t.acquire(&m.ro)
		s.touch(t, &m.o, 0x20c)
	}
}

// Unlock unlocks for writing.
func (m *RWMutex) Unlock() {
	if s != nil && s.dead {
		m.w = false
		return
	}
	if !m.w {
		if s == nil {
			panic("sync: Unlock of unlocked RWMutex")
		}
		s.fail("crash: fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	if s != nil {
		s.touch(s.cur, &m.o, 0x20d)
		s.cur.release(&m.o)
	}
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	if s != nil && s.dead {
		runtime.Goexit()
	}
	t := point("RLock", func() bool { return !m.w && m.waiting == 0 })
	m.r++
	if t != nil {
		t.acquire(&m.o)
		t.hash = mix(t.hash, m.o.hash)
		m.o.hash += mix(t.hash, 0x41)
	}
}

// RUnlock unlocks for reading.
func (m *RWMutex) RUnlock() {
	if s != nil && s.dead {
		return
	}
	if m.r <= 0 {
		if s == nil {
			panic("sync: RUnlock of unlocked RWMutex")
		}
		s.fail("crash: fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	if s != nil {
		m.o.hash += mix(s.cur.hash, 0x42)
		s.cur.release(&m.ro)
	}
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	t := point("RWMutex.TryLock", nil)
	if m.w || m.r > 0 {
		if t != nil {
			t.hash = mix(t.hash, 0x7e)
		}
		return false
	}
	m.w = true
	if t != nil {
		t.acquire(&m.o)
		t.acquire(&m.ro)
		s.touch(t, &m.o, 0x20c)
	}
	return true
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	t := point("TryRLock", nil)
	if m.w || m.waiting > 0 {
		if t != nil {
			t.hash = mix(t.hash, 0x7d)
		}
		return false
	}
	m.r++
	if t != nil {
		t.acquire(&m.o)
		t.hash = mix(t.hash, m.o.hash)
	}
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	o obj
	n int
}

// Add adds delta.
func (w *WaitGroup) Add(d int) {
	if s != nil && s.dead {
		return
	}
	if s != nil {
		t := s.cur
		if d > 0 {
			t = point("WaitGroup.Add", nil)
		}
		s.touch(t, &w.o, uint64(d)+0x300)
		t.release(&w.o)
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits for zero.
func (w *WaitGroup) Wait() {
	if s != nil && s.dead {
		runtime.Goexit()
	}
	t := point("WaitGroup.Wait", func() bool { return w.n == 0 })
	if t != nil {
		t.acquire(&w.o)
		t.hash = mix(t.hash, w.o.hash)
	}
}

// Go runs f in a goroutine counted by w.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do calls f once.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues is sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

// Pool replaces sync.Pool: a deterministic LIFO.
type Pool struct {
	o     obj
	items []interface{}
	epoch int
	New   func() interface{}
}

var epoch int

func (p *Pool) fresh() {
	if p.epoch != epoch {
		p.items, p.o, p.epoch = nil, obj{}, epoch
	}
}

// Get takes an item.
func (p *Pool) Get() interface{} {
	p.fresh()
	if s != nil && !s.dead {
		t := s.cur
		t.acquire(&p.o)
		s.touch(t, &p.o, 0x400)
	}
	if n := len(p.items); n > 0 {
		i := n - 1
		if PoolAny && s != nil && !s.dead {
			if i = n - 1 - Choose(n+1); i < 0 {
				return p.New()
			}
		}
		x := p.items[i]
		p.items = append(p.items[:i:i], p.items[i+1:]...)
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put gives an item back.
func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	p.fresh()
	if s != nil {
		if s.dead {
			return
		}
		t := s.cur
		s.touch(t, &p.o, 0x401)
		t.release(&p.o)
	}
	if PoolCheck {
		for _, y := range p.items {
			if y == x {
				s.fail(fmt.Sprintf("an object (%T) was given back to its pool twice", x))
			}
		}
	}
	p.items = append(p.items, x)
	if PoolYield && s != nil {
		t := point("after pool.Put", nil)
		s.touch(t, &p.o, 0x402)
	}
}

// PoolYield makes the moment after an object was given back a scheduling point.
var PoolYield bool

// PoolCheck makes giving an object to a pool it is in already a violation.
var PoolCheck bool

// PoolAny makes a pool hand out any item it has, or a new one (as sync.Pool may).
var PoolAny bool

// Cond replaces sync.Cond.
type Cond struct {
	L       Locker
	o       obj
	waiters []*bool
}

// NewCond returns a Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for a signal.
func (c *Cond) Wait() {
	f := new(bool)
	c.waiters = append(c.waiters, f)
	c.L.Unlock()
	t := point("Cond.Wait", func() bool { return *f })
	if t != nil {
		t.acquire(&c.o)
		s.touch(t, &c.o, 0x500)
	}
	c.L.Lock()
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	if s == nil || s.dead {
		return
	}
	t := point("Cond.Signal", nil)
	s.touch(t, &c.o, 0x501)
	t.release(&c.o)
	if len(c.waiters) > 0 {
		*c.waiters[0] = true
		c.waiters = c.waiters[1:]
	}
}

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() {
	if s == nil || s.dead {
		return
	}
	t := point("Cond.Broadcast", nil)
	s.touch(t, &c.o, 0x502)
	t.release(&c.o)
	for _, w := range c.waiters {
		*w = true
	}
	c.waiters = nil
}

// Map replaces sync.Map.
type Map struct {
	o obj
	m map[interface{}]interface{}
	k []interface{}
}

func (m *Map) op(d string) {
	if s == nil {
		return
	}
	t := point("sync.Map."+d, nil)
	t.acquire(&m.o)
	s.touch(t, &m.o, strHash(d))
	t.release(&m.o)
}

// Load loads a value.
func (m *Map) Load(k interface{}) (interface{}, bool) { m.op("Load"); v, ok := m.m[k]; return v, ok }

func (m *Map) set(k, v interface{}) {
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	if _, ok := m.m[k]; !ok {
		m.k = append(m.k, k)
	}
	m.m[k] = v
}

func (m *Map) del(k interface{}) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i, x := range m.k {
			if x == k {
				m.k = append(append([]interface{}{}, m.k[:i]...), m.k[i+1:]...)
				break
			}
		}
	}
}

// Store stores a value.
func (m *Map) Store(k, v interface{}) { m.op("Store"); m.set(k, v) }

// LoadOrStore loads or stores.
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.op("LoadOrStore")
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.set(k, v)
	return v, false
}

// LoadAndDelete loads and deletes.
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.op("LoadAndDelete")
	x, ok := m.m[k]
	m.del(k)
	return x, ok
}

// Delete deletes.
func (m *Map) Delete(k interface{}) { m.op("Delete"); m.del(k) }

// Swap swaps.
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.op("Swap")
	x, ok := m.m[k]
	m.set(k, v)
	return x, ok
}

// CompareAndSwap compares and swaps.
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	m.op("CompareAndSwap")
	if x, ok := m.m[k]; ok && x == o {
		m.set(k, n)
		return true
	}
	return false
}

// CompareAndDelete compares and deletes.
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	m.op("CompareAndDelete")
	if x, ok := m.m[k]; ok && x == o {
		m.del(k)
		return true
	}
	return false
}

// Clear removes everything.
func (m *Map) Clear() { m.op("Clear"); m.m, m.k = nil, nil }

// Range ranges.
func (m *Map) Range(f func(k, v interface{}) bool) {
	m.op("Range")
	ks := append([]interface{}{}, m.k...)
	for _, k := range ks {
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}

// ---------------------------------------------------------------- atomics

func atomicOp(d string, p unsafe.Pointer, write bool) {
	sink = p
	if s == nil || s.dead {
		return
	}
	t := point(d, nil)
	sh := shadowAt(uintptr(p))
	t.acquire(&sh.obj)
	var race bool
	if write {
		s.touch(t, &sh.obj, 0xa0)
		race = sh.raceWrite(t)
		t.release(&sh.obj)
	} else {
		t.hash = mix(t.hash, sh.hash)
		race = sh.raceRead(t)
	}
	// plain accesses to the same variable must be ordered with this one
	if race && sh.cls >= 0 && s.ex != nil {
		s.ex.promote(sh.cls)
	}
}

type intLike interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

func aAdd[T intLike](d string, p *T, v T) T {
	atomicOp(d, unsafe.Pointer(p), true)
	*p += v
	return *p
}
func aLoad[T any](d string, p *T) T { atomicOp(d, unsafe.Pointer(p), false); return *p }
func aStore[T any](d string, p *T, v T) {
	atomicOp(d, unsafe.Pointer(p), true)
	*p = v
}
func aSwap[T any](d string, p *T, v T) T {
	atomicOp(d, unsafe.Pointer(p), true)
	o := *p
	*p = v
	return o
}
func aCAS[T comparable](d string, p *T, o, n T) bool {
	atomicOp(d, unsafe.Pointer(p), true)
	if *p == o {
		*p = n
		return true
	}
	return false
}

func aAnd[T intLike](p *T, v T) T {
	atomicOp("atomic.And", unsafe.Pointer(p), true)
	o := *p
	*p &= v
	return o
}
func aOr[T intLike](p *T, v T) T {
	atomicOp("atomic.Or", unsafe.Pointer(p), true)
	o := *p
	*p |= v
	return o
}

func AndInt32(p *int32, v int32) int32                    { return aAnd(p, v) }
func AndInt64(p *int64, v int64) int64                    { return aAnd(p, v) }
func AndUint32(p *uint32, v uint32) uint32                { return aAnd(p, v) }
func AndUint64(p *uint64, v uint64) uint64                { return aAnd(p, v) }
func OrInt32(p *int32, v int32) int32                     { return aOr(p, v) }
func OrInt64(p *int64, v int64) int64                     { return aOr(p, v) }
func OrUint32(p *uint32, v uint32) uint32                 { return aOr(p, v) }
func OrUint64(p *uint64, v uint64) uint64                 { return aOr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr           { return aSwap("atomic.Swap", p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool { return aCAS("atomic.CAS", p, o, n) }

func AddInt32(p *int32, v int32) int32         { return aAdd("atomic.Add", p, v) }
func AddInt64(p *int64, v int64) int64         { return aAdd("atomic.Add", p, v) }
func AddUint32(p *uint32, v uint32) uint32     { return aAdd("atomic.Add", p, v) }
func AddUint64(p *uint64, v uint64) uint64     { return aAdd("atomic.Add", p, v) }
func AddUintptr(p *uintptr, v uintptr) uintptr { return aAdd("atomic.Add", p, v) }
func LoadInt32(p *int32) int32                 { return aLoad("atomic.Load", p) }
func LoadInt64(p *int64) int64                 { return aLoad("atomic.Load", p) }
func LoadUint32(p *uint32) uint32              { return aLoad("atomic.Load", p) }
func LoadUint64(p *uint64) uint64              { return aLoad("atomic.Load", p) }
func LoadUintptr(p *uintptr) uintptr           { return aLoad("atomic.Load", p) }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	return aLoad("atomic.Load", p)
}
func StoreInt32(p *int32, v int32)                     { aStore("atomic.Store", p, v) }
func StoreInt64(p *int64, v int64)                     { aStore("atomic.Store", p, v) }
func StoreUint32(p *uint32, v uint32)                  { aStore("atomic.Store", p, v) }
func StoreUint64(p *uint64, v uint64)                  { aStore("atomic.Store", p, v) }
func StoreUintptr(p *uintptr, v uintptr)               { aStore("atomic.Store", p, v) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { aStore("atomic.Store", p, v) }
func SwapInt32(p *int32, v int32) int32                { return aSwap("atomic.Swap", p, v) }
func SwapInt64(p *int64, v int64) int64                { return aSwap("atomic.Swap", p, v) }
func SwapUint32(p *uint32, v uint32) uint32            { return aSwap("atomic.Swap", p, v) }
func SwapUint64(p *uint64, v uint64) uint64            { return aSwap("atomic.Swap", p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	return aSwap("atomic.Swap", p, v)
}
func CompareAndSwapInt32(p *int32, o, n int32) bool    { return aCAS("atomic.CAS", p, o, n) }
func CompareAndSwapInt64(p *int64, o, n int64) bool    { return aCAS("atomic.CAS", p, o, n) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool { return aCAS("atomic.CAS", p, o, n) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool { return aCAS("atomic.CAS", p, o, n) }
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	return aCAS("atomic.CAS", p, o, n)
}

type aInt[T intLike] struct{ v T }

func (a *aInt[T]) Load() T                    { return aLoad("atomic.Load", &a.v) }
func (a *aInt[T]) Store(v T)                  { aStore("atomic.Store", &a.v, v) }
func (a *aInt[T]) Add(v T) T                  { return aAdd("atomic.Add", &a.v, v) }
func (a *aInt[T]) Swap(v T) T                 { return aSwap("atomic.Swap", &a.v, v) }
func (a *aInt[T]) And(v T) T                  { return aAnd(&a.v, v) }
func (a *aInt[T]) Or(v T) T                   { return aOr(&a.v, v) }
func (a *aInt[T]) CompareAndSwap(o, n T) bool { return aCAS("atomic.CAS", &a.v, o, n) }

type (
	Int32  struct{ aInt[int32] }
	Int64  struct{ aInt[int64] }
	Uint32 struct{ aInt[uint32] }
	Uint64 struct{ aInt[uint64] }

	Uintptr struct{ aInt[uintptr] }
)

// Bool replaces atomic.Bool.
type Bool struct{ v bool }

func (a *Bool) Load() bool                    { return aLoad("atomic.Load", &a.v) }
func (a *Bool) Store(v bool)                  { aStore("atomic.Store", &a.v, v) }
func (a *Bool) Swap(v bool) bool              { return aSwap("atomic.Swap", &a.v, v) }
func (a *Bool) CompareAndSwap(o, n bool) bool { return aCAS("atomic.CAS", &a.v, o, n) }

// Value replaces atomic.Value.
type Value struct{ v interface{} }

func (a *Value) Load() interface{} { return aLoad("atomic.Load", &a.v) }
func (a *Value) Store(v interface{}) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	aStore("atomic.Store", &a.v, v)
}
func (a *Value) Swap(v interface{}) interface{} { return aSwap("atomic.Swap", &a.v, v) }
func (a *Value) CompareAndSwap(o, n interface{}) bool {
	atomicOp("atomic.CAS", unsafe.Pointer(&a.v), true)
	if a.v == o {
		a.v = n
		return true
	}
	return false
}

// Pointer replaces atomic.Pointer.
type Pointer[T any] struct{ v *T }

func (a *Pointer[T]) Load() *T                    { return aLoad("atomic.Load", &a.v) }
func (a *Pointer[T]) Store(v *T)                  { aStore("atomic.Store", &a.v, v) }
func (a *Pointer[T]) Swap(v *T) *T                { return aSwap("atomic.Swap", &a.v, v) }
func (a *Pointer[T]) CompareAndSwap(o, n *T) bool { return aCAS("atomic.CAS", &a.v, o, n) }
