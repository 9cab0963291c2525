package mcrt

import (
	"runtime"
	"unsafe"
)

type chanState struct {
	obj
	keep   interface{}
	cp     int
	length func() int
	closed bool
	slots  []VC // per buffer slot
	sx, rx int
}

type chop struct {
	st   *chanState
	send bool
	val  interface{}
	// buffered transfers
	doSend func()
	doRecv func() (interface{}, bool)
	// result
	set func(v interface{}, ok bool)
}

func chanPtr[C any](c C) uintptr { return *(*uintptr)(unsafe.Pointer(&c)) }

func stateOf[T any](ch <-chan T) *chanState {
	p := chanPtr(ch)
	if p == 0 {
		return nil
	}
	st := s.chans[p]
	if st == nil {
		st = &chanState{keep: ch, cp: cap(ch), length: func() int { return len(ch) }}
		if st.cp > 0 {
			n := st.cp
			if n > 64 {
				n = 64
			}
			st.slots = make([]VC, n)
		}
		st.sx = len(ch)
		s.chans[p] = st
	}
	return st
}

func (s *sched) partner(t *Thread, st *chanState, send bool) (ps []*Thread, ks []int) {
	for _, u := range s.live {
		if u == t || u.chDone >= 0 {
			continue
		}
		for k, c := range u.chops {
			if c.st == st && c.send != send {
				ps = append(ps, u)
				ks = append(ks, k)
				break
			}
		}
	}
	return
}

func (s *sched) hasPartner(t *Thread, st *chanState, send bool) bool {
	for _, u := range s.live {
		if u == t || u.chDone >= 0 {
			continue
		}
		for _, c := range u.chops {
			if c.st == st && c.send != send {
				return true
			}
		}
	}
	return false
}

func (s *sched) ready(t *Thread, c *chop) bool {
	st := c.st
	if st == nil {
		return false
	}
	if st.closed {
		return true
	}
	if st.cp > 0 {
		if c.send {
			return st.length() < st.cp
		}
		return st.length() > 0
	}
	return s.hasPartner(t, st, c.send)
}

func (s *sched) chEnabled(t *Thread) bool {
	if t.hasDef || t.chDone >= 0 {
		return true
	}
	for _, c := range t.chops {
		if s.ready(t, c) {
			return true
		}
	}
	return false
}

// doSelect executes a channel operation (one or several cases).
func (s *sched) doSelect(desc string, hasDef bool, ops []*chop) int {
	if s.dead {
		runtime.Goexit()
	}
	t := s.cur
	if ops == nil {
		ops = []*chop{}
	}
	t.chops, t.hasDef, t.chDone, t.desc = ops, hasDef, -1, desc
	s.sw(t)
	clear := func() { t.chops, t.hasDef = nil, false }
	if t.chDone >= 0 { // completed by the partner
		k := t.chDone
		if !ops[k].send {
			ops[k].set(t.chVal, t.chOK)
		}
		t.chDone, t.chVal = -1, nil
		clear()
		if s.ex != nil && s.ex.tracing {
			s.op(t, desc+" (handed over)")
		}
		return k
	}
	var rd [16]int
	n := 0
	for i, c := range ops {
		if n < len(rd) && s.ready(t, c) {
			rd[n] = i
			n++
		}
	}
	if n == 0 {
		if !hasDef {
			internalErr("select: nothing ready")
		}
		clear()
		t.hash = mix(t.hash, 0xdef)
		if s.ex != nil && s.ex.tracing {
			s.op(t, desc+" default")
		}
		return -1
	}
	c := s.decide(n, !s.ex.cfg.Calm, mix(t.phash, 0x5e1))
	if c < 0 {
		s.dead = true
		runtime.Goexit()
	}
	k := rd[c]
	op := ops[k]
	st := op.st
	if st.closed && op.send {
		clear()
		t.hash = mix(t.hash, 0xc105)
		panic(errSendClosed{})
	}
	if st.closed && (st.cp == 0 || st.length() == 0) {
		clear()
		t.acquire(&st.obj)
		t.hash = mix(mix(t.hash, st.hash), 0xc1)
		var z interface{}
		op.set(z, false)
	} else if st.cp > 0 {
		clear()
		if op.send {
			sl := &st.slots[st.sx%len(st.slots)]
			st.sx++
			t.vc.join(*sl)
			sl.join(t.vc)
			t.tick()
			s.touch(t, &st.obj, uint64(k)+0x11)
			op.doSend()
		} else {
			sl := &st.slots[st.rx%len(st.slots)]
			st.rx++
			t.vc.join(*sl)
			sl.join(t.vc)
			t.tick()
			s.touch(t, &st.obj, uint64(k)+0x22)
			op.set(op.doRecv())
		}
	} else {
		ps, ks := s.partner(t, st, op.send)
		pi := s.decide(len(ps), false, mix(t.phash, 0x9a7))
		if pi < 0 {
			s.dead = true
			runtime.Goexit()
		}
		u, uk := ps[pi], ks[pi]
		clear()
		t.vc.join(u.vc)
		u.vc.join(t.vc)
		t.tick()
		u.tick()
		t.hash = mix(mix(t.hash, u.hash), uint64(k)+0x33)
		u.hash = mix(mix(u.hash, t.hash), uint64(uk)+0x44)
		st.hash = mix(st.hash, t.hash)
		u.chDone = uk
		if op.send {
			u.chVal, u.chOK = op.val, true
		} else {
			op.set(u.chops[uk].val, true)
		}
	}
	t.hash = mix(t.hash, uint64(k))
	if s.ex != nil && s.ex.tracing {
		s.op(t, desc)
	}
	return k
}

type errSendClosed struct{}

func (errSendClosed) Error() string { return "send on closed channel" }
func (errSendClosed) RuntimeError() {}

func recvOp[T any](ch <-chan T, set func(v interface{}, ok bool)) *chop {
	return &chop{st: stateOf(ch), doRecv: func() (interface{}, bool) { v, ok := <-ch; return v, ok }, set: set}
}

func sendOp[T any](ch chan<- T, v T) *chop {
	rc := *(*<-chan T)(unsafe.Pointer(&ch))
	return &chop{st: stateOf(rc), send: true, val: v, doSend: func() { ch <- v }}
}

// SendTo is ch <- v (curried, so that v is converted to the element type).
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		if s == nil {
			ch <- v
			return
		}
		s.doSelect("send", false, []*chop{sendOp(ch, v)})
	}
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	var r T
	var rok bool
	if s == nil {
		r, rok = <-ch
		return r, rok
	}
	s.doSelect("recv", false, []*chop{recvOp(ch, func(v interface{}, ok bool) {
		if v != nil {
			r = v.(T)
		}
		rok = ok
	})})
	return r, rok
}

// SelCase is one prepared select case.
type SelCase interface{ chop() *chop }

// SelS is a send case.
type SelS struct{ mk func() *chop }

func (c *SelS) chop() *chop { return c.mk() }

// SelR is a receive case.
type SelR[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

func (c *SelR[T]) chop() *chop {
	return recvOp(c.ch, func(v interface{}, ok bool) {
		if v != nil {
			c.V = v.(T)
		}
		c.OK = ok
	})
}

// SelSend prepares a send case.
func SelSend[T any](ch chan<- T) func(T) *SelS {
	return func(v T) *SelS { return &SelS{func() *chop { return sendOp(ch, v) }} }
}

// SelRecv prepares a receive case.
func SelRecv[T any](ch <-chan T) *SelR[T] { return &SelR[T]{ch: ch} }

// Select executes a select statement; -1 is the default case.
func Select(hasDef bool, cases ...SelCase) int {
	if s == nil {
		panic("mcrt: select outside an execution")
	}
	if s.dead {
		runtime.Goexit()
	}
	ops := make([]*chop, len(cases))
	for i, c := range cases {
		ops[i] = c.chop()
	}
	return s.doSelect("select", hasDef, ops)
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	if s == nil {
		close(ch)
		return
	}
	if s.dead {
		return
	}
	if chanPtr(ch) == 0 {
		close(ch)
	}
	t := point("close", nil)
	closeNow(t, ch)
}

func closeNow[T any](t *Thread, ch chan<- T) {
	rc := *(*<-chan T)(unsafe.Pointer(&ch))
	st := stateOf(rc)
	if st.closed {
		close(ch) // panics
	}
	if t != nil {
		s.touch(t, &st.obj, 0xc0)
		t.release(&st.obj)
	}
	st.closed = true
	close(ch)
}

// Len is len(ch).
func Len[T any](ch <-chan T) int {
	if s == nil || s.dead {
		return len(ch)
	}
	if chanPtr(ch) == 0 {
		return 0
	}
	t := point("len(chan)", nil)
	st := stateOf(ch)
	t.hash = mix(t.hash, st.hash)
	return len(ch)
}

// ChanZero returns the zero value of the element type.
func ChanZero[T any](ch <-chan T) (z T) { return }
