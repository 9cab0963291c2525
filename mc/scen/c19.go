package scen

import (
	"bytes"
	"fmt"
	"unsafe"

	"github.com/lesismal/arpc"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

func init() {
	// sizes of the allocator: small, big
	sz := []int{0x22, 0x24, 0x28, 0x13}
	reg("C19", "seq", c19Seq, func(th bool) []mc.Config {
		n := 4
		if th {
			n = 5
		}
		return bound(cat(cross("", "sz", sz, "n", []int{2, n - 1}, "debug", i01), cross("", "sz", sz, "n", []int{n})), 0, 0, th)
	})
	reg("C19", "any", c19Seq, func(th bool) []mc.Config {
		n := []int{4}
		if th {
			n = []int{5}
		}
		return bound(cross("", "sz", []int{0x22, 0x24, 0x28}, "n", n, "few", []int{1}, "any", []int{1}), 0, 0, th)
	})
	reg("C19", "grow", c19Seq, func(th bool) []mc.Config {
		n := 5
		if th {
			n = 6
		}
		return bound(cat(cross("", "sz", sz, "n", []int{n}, "few", []int{1}), cross("", "sz", sz, "n", []int{n - 1}, "few", []int{1}, "debug", []int{1})), 0, 0, th)
	})
	reg("C19", "sizes", c19Sizes, func(th bool) []mc.Config {
		return bound(cross("", "deflt", []int{0, 1, 2, 3}), 0, 0, th)
	})
	reg("C19", "report", c19Report, func(th bool) []mc.Config {
		return bound(cross("", "sz", sz, "n", []int{1, 2, 3}), 0, 0, th)
	})
	reg("C19", "concurrent", c19Concurrent, func(th bool) []mc.Config {
		return bound(cross("", "sz", []int{0x22, 0x24}, "debug", i01, "g", []int{2, 3}), 2, 3, th)
	})
}

// live is a buffer in use and what it must contain.
type live struct {
	b    []byte
	want []byte
	mark byte
}

type lives struct {
	l    []*live
	next byte
	hist string
}

func (s *lives) fill(x *live) {
	x.want = x.want[:0]
	for i := range x.b {
		x.b[i] = x.mark + byte(i)
		x.want = append(x.want, x.mark+byte(i))
	}
}

func span(b []byte) (uintptr, uintptr) {
	if cap(b) == 0 {
		return 0, 0
	}
	p := uintptr(unsafe.Pointer(&b[:1][0]))
	return p, p + uintptr(cap(b))
}

func (s *lives) check() {
	for i, x := range s.l {
		mc.Assert(bytes.Equal(x.b, x.want), "%s: buffer %d of %d bytes holds % x..., want %d bytes % x...", s.hist, i, len(x.b), head(x.b), len(x.want), head(x.want))
		a0, a1 := span(x.b)
		for j := 0; j < i; j++ {
			b0, b1 := span(s.l[j].b)
			mc.Assert(a1 <= b0 || b1 <= a0, "%s: buffers %d and %d, both in use, share memory", s.hist, j, i)
		}
	}
}

func (s *lives) malloc(a arpc.Allocator, n int) {
	s.hist += fmt.Sprintf(" malloc(%d)", n)
	x := &live{b: a.Malloc(n), mark: s.next}
	s.next += 32
	mc.Assert(len(x.b) == n, "%s: got length %d", s.hist, len(x.b))
	s.l = append(s.l, x)
	s.check2(x)
	s.fill(x)
}

// check2 checks before the new buffer is filled.
func (s *lives) check2(x *live) {
	x.want = append([]byte{}, x.b...)
	s.check()
}

func (s *lives) free(a arpc.Allocator, i int) {
	s.hist += fmt.Sprintf(" free(%d)", i)
	x := s.l[i]
	s.l = append(s.l[:i:i], s.l[i+1:]...)
	a.Free(x.b)
}

func (s *lives) realloc(a arpc.Allocator, i, n int) {
	x := s.l[i]
	s.hist += fmt.Sprintf(" realloc(%d: %d to %d)", i, len(x.b), n)
	x.b = a.Realloc(x.b, n)
	mc.Assert(len(x.b) == n, "%s: got length %d", s.hist, len(x.b))
	k := len(x.want)
	if n < k {
		k = n
	}
	mc.Assert(bytes.Equal(x.b[:k], x.want[:k]), "%s: content %v, was %v", s.hist, x.b, x.want)
	s.check2(x)
	s.fill(x)
}

func (s *lives) append(a arpc.Allocator, i, n int, str bool) {
	x := s.l[i]
	s.hist += fmt.Sprintf(" append(%d: %d+%d)", i, len(x.b), n)
	more := make([]byte, n)
	for j := range more {
		more[j] = 200 + byte(j)
	}
	keep := append([]byte{}, more...)
	if str {
		x.b = a.AppendString(x.b, string(more))
	} else {
		x.b = a.Append(x.b, more...)
	}
	mc.Assert(bytes.Equal(more, keep), "%s: the bytes to add were changed", s.hist)
	x.want = append(x.want, more...)
	s.check()
	s.fill(x)
}

func c19New(c *mc.Config) arpc.Allocator {
	begin()
	sz := c.Get("sz")
	a := arpc.New(sz>>4, sz&15)
	if c.Get("debug") == 1 {
		a.(*arpc.BufferPool).Debug = true
	}
	mc.PoolAny = c.Get("any") == 1
	return a
}

// every sequence of operations
func c19Seq(c *mc.Config) {
	a := c19New(c)
	s := &lives{}
	sizes := []int{0, 1, 2, 3, 4, 5, 8, 9, 17}
	adds := []int{0, 1, 3, 6, 9}
	if c.Get("few") == 1 {
		sizes = []int{1, 4, 9}
		adds = []int{1, 7}
	}
	for k := 0; k < c.Get("n"); k++ {
		n := len(s.l)
		op := mc.Choose(len(sizes) + n*(1+len(sizes)+2*len(adds)))
		if op < len(sizes) {
			s.malloc(a, sizes[op])
		} else {
			op -= len(sizes)
			i := op % n
			op /= n
			switch {
			case op == 0:
				s.free(a, i)
			case op < 1+len(sizes):
				s.realloc(a, i, sizes[op-1])
			default:
				op -= 1 + len(sizes)
				s.append(a, i, adds[op/2], op%2 == 1)
			}
		}
		s.check()
	}
	for len(s.l) > 0 {
		s.free(a, 0)
		s.check()
	}
	for _, n := range []int{1, 4, 9, 2, 8} {
		s.malloc(a, n)
		s.check()
	}
}

// real sizes, defaults and package functions
func c19Sizes(c *mc.Config) {
	begin()
	var a arpc.Allocator
	switch c.Get("deflt") {
	case 0:
		a = arpc.New(0, 0)
	case 1:
		a = arpc.New(64, 64)
	case 2:
		a = arpc.New(128, 64)
	case 3:
		a = pkgAlloc{}
	}
	sizes := []int{0, 1, 63, 64, 65, 127, 128, 129, 1024, 65535, 65536, 65537, 100000}
	s := &lives{}
	n, m := sizes[mc.Choose(len(sizes))], sizes[mc.Choose(len(sizes))]
	s.malloc(a, n)
	s.malloc(a, n)
	s.realloc(a, 0, m)
	s.append(a, 1, m, mc.Choose(2) == 1)
	s.free(a, 0)
	s.malloc(a, m)
	s.realloc(a, 0, n+m)
	s.append(a, 1, 1, false)
	s.check()
	// buffers that are not from the pool, and none at all
	out := []byte{7, 8, 9}
	y := a.Append(a.Realloc(out, 3+m), 1, 2)
	mc.Assert(len(y) == 5+m && y[0] == 7 && y[1] == 8 && y[2] == 9 && y[3+m] == 1 && y[4+m] == 2, "foreign buffer: %d %v", len(y), short(string(y)))
	z := a.AppendString(nil, string(out))
	mc.Assert(bytes.Equal(z, out), "append to nothing: %v", z)
	s.l = append(s.l, &live{b: z, want: append([]byte{}, z...)})
	for _, k := range sizes {
		s.malloc(a, k)
	}
	s.check()
	// the native allocator
	na := &arpc.NativeAllocator{}
	b := na.Malloc(n)
	mc.Assert(len(b) == n, "native malloc: %d", len(b))
	for i := range b {
		b[i] = byte(i)
	}
	b2 := na.Realloc(b, m)
	mc.Assert(len(b2) == m, "native realloc: %d", len(b2))
	for i := 0; i < n && i < m; i++ {
		mc.Assert(b2[i] == byte(i), "native realloc: content")
	}
	na.Free(b2)
}

type pkgAlloc struct{}

func (pkgAlloc) Malloc(n int) []byte                    { return arpc.Malloc(n) }
func (pkgAlloc) Realloc(b []byte, n int) []byte         { return arpc.Realloc(b, n) }
func (pkgAlloc) Append(b []byte, m ...byte) []byte      { return arpc.Append(b, m...) }
func (pkgAlloc) AppendString(b []byte, m string) []byte { return arpc.AppendString(b, m) }
func (pkgAlloc) Free(b []byte)                          { arpc.Free(b) }

func panics(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

// in debug mode every wrong free is reported, at every point of a history
func c19Report(c *mc.Config) {
	c.P["debug"] = 1
	a := c19New(c)
	s := &lives{}
	var dead [][]byte // memory given back or moved away from
	gone := func(b []byte) {
		if cap(b) > 0 {
			dead = append(dead, b)
		}
	}
	used := func(b []byte) bool {
		p, _ := span(b)
		for _, x := range s.l {
			if q, _ := span(x.b); p == q {
				return true
			}
		}
		return false
	}
	sizes := []int{1, 2, 5, 9}
	s.malloc(a, sizes[mc.Choose(len(sizes))])
	for k := 0; k < c.Get("n"); k++ {
		if len(s.l) == 0 {
			s.malloc(a, sizes[mc.Choose(len(sizes))])
		}
		old := s.l[0].b
		switch op := mc.Choose(2 + 2*len(sizes)); {
		case op == 0:
			s.malloc(a, 3)
		case op == 1:
			s.free(a, 0)
			gone(old)
		case op < 2+len(sizes):
			s.realloc(a, 0, sizes[op-2])
			gone(old)
		default:
			s.append(a, 0, sizes[op-2-len(sizes)], false)
			gone(old)
		}
		s.check()
		for _, d := range append(dead, make([]byte, 4)) {
			if !used(d) {
				p := panics(func() { a.Free(d) })
				mc.Assert(p != nil, "%s: freeing a buffer that is not in use was not reported", s.hist)
			}
		}
		s.check()
	}
	// the right ones are not reported
	for len(s.l) > 0 {
		p := panics(func() { s.free(a, 0) })
		mc.Assert(p == nil, "%s: freeing a buffer in use was reported: %v", s.hist, p)
	}
	s.malloc(a, 1)
	s.malloc(a, 9)
	s.check()
}

// the same by several goroutines
func c19Concurrent(c *mc.Config) {
	a := c19New(c)
	mc.PoolYield = true
	g := newGroup()
	all := make([]*lives, c.Get("g"))
	for k := range all {
		s := &lives{next: byte(k * 50)}
		all[k] = s
		ops := mc.Choose(3)
		g.run(func() {
			s.malloc(a, 1)
			mc.Yield()
			switch ops {
			case 0:
				s.free(a, 0)
			case 1:
				s.append(a, 0, 4, false)
			case 2:
				s.realloc(a, 0, 6)
			}
			mc.Yield()
			s.malloc(a, 4)
			mc.Yield()
			s.check()
			if ops != 0 {
				s.free(a, 0)
			}
			mc.Yield()
			s.check()
			s.malloc(a, 1)
		})
	}
	g.wait()
	one := &lives{}
	for _, s := range all {
		one.l = append(one.l, s.l...)
	}
	one.check()
}
