package mcrt

import (
	"fmt"
	"runtime"
	"strings"
	"time"
)

// Choose enumerates 0..n-1 (all of them, at no deviation cost).
func Choose(n int) int {
	if s.dead {
		runtime.Goexit()
	}
	c := s.decide(n, true, mix(s.cur.phash, 0xc400))
	if c < 0 {
		s.dead = true
		runtime.Goexit()
	}
	s.cur.hash = mix(s.cur.hash, uint64(c)+0xc4)
	return c
}

// Deviate enumerates 0..n-1; anything but 0 costs one deviation.
func Deviate(n int) int {
	if s.dead {
		runtime.Goexit()
	}
	c := s.decide(n, false, mix(s.cur.phash, 0xd400))
	if c < 0 {
		s.dead = true
		runtime.Goexit()
	}
	s.cur.hash = mix(s.cur.hash, uint64(c)+0xd4)
	return c
}

// Yield is a plain scheduling point for harness code.
func Yield() { point("yield", nil) }

// Fail reports a property violation and ends the execution.
func Fail(f string, a ...interface{}) {
	if s == nil || s.dead {
		runtime.Goexit()
	}
	s.fail(fmt.Sprintf(f, a...) + s.logText())
}

// Assert fails unless ok.
func Assert(ok bool, f string, a ...interface{}) {
	if !ok {
		Fail(f, a...)
	}
}

func (s *sched) logText() string {
	if len(s.log) == 0 {
		return ""
	}
	return "\nlog:\n  " + strings.Join(s.log, "\n  ")
}

// Log appends to the execution's event log (a shared object, so its order is
// part of the state).
func Log(f string, a ...interface{}) {
	if s == nil || s.dead {
		return
	}
	t := s.cur
	s.touch(t, &s.logObj, 0x106)
	s.log = append(s.log, fmt.Sprintf(f, a...))
}

// Sync makes the order of accesses to harness data part of the state: harness
// data may be shared freely around it. It adds no happens-before edge, so races
// of the code under test stay visible.
func Sync() {
	if s == nil || s.dead {
		return
	}
	t := s.cur
	s.touch(t, &s.logObj, 0x107)
}

// Outcome records part of the observable outcome.
func Outcome(f string, a ...interface{}) {
	if s == nil || s.dead {
		return
	}
	s.outcome = append(s.outcome, fmt.Sprintf(f, a...))
}

// Idle waits until no other thread can run (timers do not count).
func Idle() {
	if s.dead {
		runtime.Goexit()
	}
	t := s.cur
	t.idle = 1
	t.desc = "Idle"
	s.sw(t)
	t.idle = 0
	t.idleDone()
}

// IdleAll waits until no other thread can run and no timer is pending.
func IdleAll() {
	if s.dead {
		runtime.Goexit()
	}
	t := s.cur
	t.idle = 2
	t.desc = "IdleAll"
	s.sw(t)
	t.idle = 0
	t.idleDone()
}

// idleDone: a quiescent point; everything that happened is ordered before.
func (t *Thread) idleDone() {
	h := uint64(0)
	for _, u := range s.threads {
		t.vc.join(u.vc)
		h += mix(u.phash, u.hash)
	}
	t.hash = mix(mix(t.hash, h), s.clockH)
}

// Elapsed is the virtual time since the start of the execution.
func Elapsed() time.Duration { return time.Duration(s.now) }

// EarlyFired is the number of timers fired while threads could still run.
func EarlyFired() int { return s.early }

// Live returns the number of live threads except main.
func Live() int { return len(s.live) - 1 }

// LiveDesc describes the live threads.
func LiveDesc() string { return s.describe() }

// PendingTimers returns the number of armed timers.
func PendingTimers() int { return len(s.timers) }

// InExec reports whether a controlled execution is running.
func InExec() bool { return s != nil && !s.dead }

// ---------------------------------------------------------------- rand

func rnd() uint64 {
	if s == nil {
		return 0
	}
	s.randN++
	return mix(uint64(s.randN), 0x1234)
}

func RandInt() int             { return int(rnd() >> 1) }
func RandIntn(n int) int       { return Deviate(n) }
func RandInt31n(n int32) int32 { return int32(Deviate(int(n))) }
func RandInt63n(n int64) int64 { return int64(Deviate(int(n))) }
func RandInt63() int64         { return int64(rnd() >> 1) }
func RandInt31() int32         { return int32(rnd() >> 33) }
func RandUint32() uint32       { return uint32(rnd()) }
func RandUint64() uint64       { return rnd() }
func RandFloat64() float64     { return float64(rnd()>>11) / (1 << 53) }
func RandSeed(int64)           {}
func RandPerm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	return p
}
func RandShuffle(n int, swap func(i, j int)) {}
