package scen

import (
	"errors"
	"fmt"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/middleware/router"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

func init() {
	reg("C07", "chain", c07Chain, func(th bool) []mc.Config {
		n := []int{0, 1, 2}
		if th {
			n = []int{0, 1, 2, 3}
		}
		return cat(
			bound(cross("", "async", i01, "hasync", i01, "n", n, "cmd", []int{1, 3}, "pool", []int{0}), 0, 0, th),
			bound(cross("", "async", []int{1}, "hasync", i01, "n", n, "cmd", []int{1}, "pool", []int{1}), 0, 0, th),
		)
	})
	reg("C07", "many", c07Many, func(th bool) []mc.Config {
		return bound(cross("", "n", []int{3, 64, 125, 126, 127, 128, 129, 130, 200, 255, 256, 300}), 0, 0, th)
	})
	reg("C07", "notfound", c07NotFound, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "custom", []int{0, 1, 2, 3}, "mid", []int{0, 1, 2}), 0, 1, th)
	})
	reg("C07", "notify", c07Notify, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "pool", i01), 0, 1, th)
	})
	reg("C07", "register", c07Register, func(th bool) []mc.Config {
		n := []int{1, 2, 3, 4, 5, 6, 7, 8}
		if th {
			n = append(n, 9, 10)
		}
		return bound(cross("", "n", n, "nf", i01), 0, 0, th)
	})
	reg("C07", "concurrent", c07Concurrent, func(th bool) []mc.Config {
		return bound(cross("", "async", i01, "pool", i01, "abort", i01), 2, 3, th)
	})
}

// behaviours of one function of the chain
const (
	bPlain = iota
	bNext
	bNextTwice
	bAbort
	bAbortNext
	bNextAbort
	bPanic
	bMax
)

// runs the function number i
func c07Func(e *evs, i int, beh int, body func(ctx *arpc.Context)) arpc.HandlerFunc {
	return func(ctx *arpc.Context) {
		e.add("+" + itoa(i))
		if body != nil {
			body(ctx)
		}
		switch beh {
		case bNext:
			ctx.Next()
		case bNextTwice:
			ctx.Next()
			ctx.Next()
		case bAbort:
			ctx.Abort()
		case bAbortNext:
			ctx.Abort()
			ctx.Next()
		case bNextAbort:
			ctx.Next()
			ctx.Abort()
		case bPanic:
			panic("behaviour")
		}
		e.add("-" + itoa(i))
	}
}

// the model: which entries and exits are expected
func c07Model(behs []int) []string {
	var out []string
	idx := 0
	aborted := false
	var next func() bool
	next = func() bool { // false: a panic unwinds
		if aborted || idx >= len(behs) {
			return true
		}
		i := idx
		idx++
		out = append(out, "+"+itoa(i))
		switch behs[i] {
		case bNext:
			if !next() {
				return false
			}
		case bNextTwice:
			if !next() || !next() {
				return false
			}
		case bAbort:
			aborted = true
		case bAbortNext:
			aborted = true
		case bNextAbort:
			if !next() {
				return false
			}
			aborted = true
		case bPanic:
			return false
		}
		out = append(out, "-"+itoa(i))
		return next()
	}
	next()
	return out
}

func c07Chain(c *mc.Config) {
	r := newRig(c)
	e := &evs{}
	n := c.Get("n") // middleware
	pos := mc.Choose(n + 1)
	behs := make([]int, n+1)
	for i := range behs {
		behs[i] = mc.Choose(bMax)
	}
	writer := mc.Choose(n + 1)
	ans := mc.Choose(3)
	errAns := ans > 0
	seenErr := make([]interface{}, n+1)
	sent := 0
	body := func(i int) func(ctx *arpc.Context) {
		return func(ctx *arpc.Context) {
			seenErr[i] = ctx.ResponseError()
			if i == writer {
				var err error
				switch ans {
				case 1:
					err = ctx.Error("bad")
				case 2:
					err = ctx.Write(errors.New("bad"))
				default:
					err = ctx.Write("good")
				}
				if c.Get("cmd") == 1 {
					mc.Assert(err == nil, "answer: %v", err)
					sent++
				} else {
					mc.Assert(err == arpc.ErrContextResponseToNotify, "answering a notification returned %v", err)
				}
			}
		}
	}
	h := r.srv.Handler
	for i := 0; i <= n; i++ {
		f := c07Func(e, i, behs[i], body(i))
		if i == pos {
			h.Handle("/m", f, c.Get("hasync") == 1)
		} else {
			h.Use(f)
		}
	}
	h.Handle("/other", func(ctx *arpc.Context) { e.add("other") }, false)
	r.serve()
	b := r.raw()
	b.Write((&frame{cmd: byte(c.Get("cmd")), method: "/m", seq: 5}).bytes())
	mc.Idle()
	want := c07Model(behs)
	got := e.all()
	mc.Assert(fmt.Sprint(got) == fmt.Sprint(want), "behaviours %v, handler at %d: ran %v, want %v", behs, pos, got, want)
	fs, whole := parseAll(b.Unread())
	mc.Assert(whole, "bytes % x", b.Unread())
	ran := false
	for _, x := range want {
		if x == "+"+itoa(writer) {
			ran = true
		}
	}
	if c.Get("cmd") == 1 && ran {
		mc.Assert(len(fs) == 1, "%d responses", len(fs))
		f := fs[0]
		if errAns {
			mc.Assert(f.cmd == 2 && f.seq == 5 && f.flag == 1 && f.data == "bad", "response %+v", f)
		} else {
			mc.Assert(f.cmd == 2 && f.seq == 5 && f.flag == 0 && f.data == "good", "response %+v", f)
		}
		for i := writer + 1; i <= n; i++ {
			for _, x := range got {
				if x == "+"+itoa(i) {
					w := interface{}(nil)
					if errAns {
						w = "bad"
					}
					if e, ok := seenErr[i].(error); ok && ans == 2 {
						seenErr[i] = e.Error()
					}
					mc.Assert(seenErr[i] == w, "function %d after the answer of %d saw response error %v, want %v", i, writer, seenErr[i], w)
				}
			}
		}
	} else {
		mc.Assert(len(fs) == 0, "%d responses, first %+v", len(fs), fs)
	}
}

// long chains with an abort anywhere near the interesting places
func c07Many(c *mc.Config) {
	r := newRig(c)
	n := c.Get("n")
	counts := make([]int, n)
	last := -1
	places := []int{-1, 0, 1, 100, 125, 126, 127, 128, 129, 199, 254, 255, 256, n - 2, n - 1}
	p := places[mc.Choose(len(places))]
	how := mc.Choose(3)
	h := r.srv.Handler
	mk := func(i int) arpc.HandlerFunc {
		return func(ctx *arpc.Context) {
			mc.Assert(i > last, "function %d ran after %d", i, last)
			last = i
			counts[i]++
			mc.Assert(counts[i] == 1, "function %d ran twice", i)
			if i == p {
				ctx.Abort()
				if how == 1 {
					ctx.Next()
				}
			} else if how == 2 {
				ctx.Next()
			}
		}
	}
	for i := 0; i < n-1; i++ {
		h.Use(mk(i))
	}
	h.Handle("/m", mk(n-1), false)
	r.serve()
	b := r.raw()
	b.Write((&frame{cmd: 1, method: "/m", seq: 5}).bytes())
	mc.Idle()
	for i := range counts {
		want := 1
		if p >= 0 && p < n && i > p {
			want = 0
		}
		mc.Assert(counts[i] == want, "abort at %d of %d (how %d): function %d ran %d times", p, n, how, i, counts[i])
	}
}

func c07NotFound(c *mc.Config) {
	r := newRig(c)
	h := r.srv.Handler
	e := &evs{}
	mid := func(i int) {
		h.Use(func(ctx *arpc.Context) { e.add("m" + itoa(i)) })
	}
	if c.Get("mid") >= 1 {
		mid(1)
	}
	if c.Get("custom") == 1 {
		h.HandleNotFound(func(ctx *arpc.Context) { e.add("nf"); ctx.Error(errors.New("custom")) })
	}
	h.Handle("/m", func(ctx *arpc.Context) { e.add("h"); ctx.Write("ok") }, false)
	if c.Get("custom") == 2 {
		h.HandleNotFound(func(ctx *arpc.Context) { e.add("nf"); ctx.Error("custom") })
	}
	if c.Get("custom") == 3 {
		h.HandleNotFound(func(ctx *arpc.Context) { e.add("nf"); ctx.Write("fallback:" + ctx.Message.Method()) })
	}
	if c.Get("mid") == 2 {
		mid(2)
	}
	r.serve()
	b := r.raw()
	want := ""
	methods := []string{"/m", "/x", "/mm", "/", "m", "/M"}
	m := methods[mc.Choose(len(methods))]
	cmd := byte(1 + 2*mc.Choose(2))
	flag := byte(2 * mc.Choose(2))
	b.Write((&frame{cmd: cmd, method: m, seq: 5, flag: flag}).bytes())
	mc.Idle()
	if c.Get("mid") >= 1 {
		want = "m1 "
	}
	data, fl := "ok", flag
	switch {
	case m == "/m":
		want += "h"
	case c.Get("custom") == 0:
		data, fl = arpc.ErrMethodNotFound.Error(), flag|1
		if want != "" {
			want = want[:len(want)-1]
		}
	case c.Get("custom") == 3:
		want += "nf"
		data = "fallback:" + m
	default:
		want += "nf"
		data, fl = "custom", flag|1
	}
	if c.Get("mid") == 2 {
		want += " m2"
	}
	mc.Assert(e.String() == want, "method %q: ran %q, want %q", m, e.String(), want)
	fs, whole := parseAll(b.Unread())
	mc.Assert(whole, "bytes")
	if cmd == 1 {
		mc.Assert(len(fs) == 1 && fs[0].cmd == 2 && fs[0].seq == 5 && fs[0].data == data && fs[0].flag == fl && fs[0].method == m, "method %q: answers %+v, want %q flag %d", m, fs, data, fl)
	} else {
		mc.Assert(len(fs) == 0, "notification of %q was answered: %d times", m, len(fs))
	}
	b.Write((&frame{cmd: 1, method: "/m", seq: 6}).bytes())
	f := &frame{}
	for f.seq != 6 {
		f = mustFrame(b)
	}
	mc.Assert(f.data == "ok", "later request: %+v", f)
}

func c07Notify(c *mc.Config) {
	r := newRig(c)
	ran := 0
	r.srv.Handler.Handle("/m", func(ctx *arpc.Context) {
		ran++
		for i, err := range []error{ctx.Write("x"), ctx.Write(errors.New("x")), ctx.Error("x"), ctx.Error(errors.New("x")), ctx.WriteWithTimeout("x", 0), ctx.WriteWithTimeout("x", hour)} {
			mc.Assert(err == arpc.ErrContextResponseToNotify, "answer %d to a notification returned %v", i, err)
		}
		mc.Assert(ctx.ResponseError() == nil, "ResponseError %v", ctx.ResponseError())
	}, false)
	r.serve()
	b := r.raw()
	flag := byte(mc.Choose(4))
	b.Write((&frame{cmd: 3, method: "/m", seq: 5, flag: flag}).bytes())
	mc.Idle()
	mc.Assert(ran == 1, "handler ran %d times", ran)
	mc.Assert(len(b.Unread()) == 0, "notification was answered: % x", b.Unread())
}

// concurrent requests on one and two connections keep separate chains
func c07Concurrent(c *mc.Config) {
	r := newRig(c)
	h := r.srv.Handler
	e := map[string]*evs{}
	for _, k := range []string{"a", "b", "c"} {
		e[k] = &evs{}
	}
	h.Use(router.Recover())
	h.Use(func(ctx *arpc.Context) {
		k := string(ctx.Body())
		e[k].add("1")
		if k == "b" && c.Get("abort") == 1 {
			ctx.Error("no")
			ctx.Abort()
			return
		}
		ctx.Set("who", k)
		mc.Yield()
		ctx.Next()
		if k == "b" {
			mc.Assert(ctx.ResponseError() == "err", "response error %v", ctx.ResponseError())
		} else {
			mc.Assert(ctx.ResponseError() == nil, "response error %v", ctx.ResponseError())
		}
	})
	h.Use(func(ctx *arpc.Context) { e[string(ctx.Body())].add("2") })
	h.Handle("/m", func(ctx *arpc.Context) {
		k := string(ctx.Body())
		w, _ := ctx.Get("who")
		mc.Assert(w == k, "value of another request: %v", w)
		e[k].add("h")
		mc.Yield()
		if k == "b" {
			ctx.Error("err")
		} else {
			ctx.Write("re:" + k)
		}
	}, true)
	r.serve()
	b := r.raw()
	b2 := r.raw()
	b.Write((&frame{cmd: 1, method: "/m", seq: 1, data: "a"}).bytes())
	b.Write((&frame{cmd: 1, method: "/m", seq: 2, data: "b"}).bytes())
	b2.Write((&frame{cmd: 1, method: "/m", seq: 3, data: "c"}).bytes())
	mc.Idle()
	for k, v := range e {
		want := "1 2 h"
		if k == "b" && c.Get("abort") == 1 {
			want = "1"
		}
		mc.Assert(v.String() == want, "request %s ran %q", k, v.String())
	}
	fs, _ := parseAll(b.Unread())
	mc.Assert(len(fs) == 2, "%d answers", len(fs))
	for _, f := range fs {
		switch f.seq {
		case 1:
			mc.Assert(f.data == "re:a" && f.flag == 0, "%+v", f)
		case 2:
			mc.Assert((f.data == "err" || f.data == "no" && c.Get("abort") == 1) && f.flag == 1, "%+v", f)
		}
	}
}

// every order of registering middleware and routes
func c07Register(c *mc.Config) {
	r := newRig(c)
	h := r.srv.Handler
	n := c.Get("n")
	e := &evs{}
	type route struct {
		name string
		want string
	}
	mids := ""
	var routes []*route
	nf := &route{name: "/unknown"}
	ops := 2
	if c.Get("nf") == 1 {
		ops = 3
	}
	nm := 0
	desc := ""
	for i := 0; i < n; i++ {
		op := mc.Choose(ops)
		desc += itoa(op)
		switch op {
		case 0:
			k := "m" + itoa(nm) + " "
			nm++
			h.Use(func(ctx *arpc.Context) { e.add(k) })
			mids += k
			for _, x := range routes {
				x.want += k
			}
			if nf.want != "" {
				nf.want += k
			}
		case 1:
			k := "h" + itoa(len(routes)) + " "
			x := &route{name: "/r" + itoa(len(routes)), want: mids + k}
			if len(routes) == 0 && nf.want == "" {
				nf.want = mids // the default one answers only
				if mids == "" {
					nf.want = "-"
				}
			}
			routes = append(routes, x)
			h.Handle(x.name, func(ctx *arpc.Context) { e.add(k) }, false)
		case 2:
			k := "nf" + itoa(i) + " "
			h.HandleNotFound(func(ctx *arpc.Context) { e.add(k) })
			nf.want = mids + k
		}
	}
	r.up()
	b := r.raw()
	for _, x := range append(routes, nf) {
		e.l = nil
		b.Write((&frame{cmd: 3, method: x.name, seq: 1}).bytes())
		mc.Idle()
		got := ""
		for _, k := range e.all() {
			got += k
		}
		want := x.want
		if len(want) > 0 && want[0] == '-' {
			want = want[1:]
		}
		mc.Assert(got == want, "registered %s (0 middleware, 1 route, 2 not-found): %s ran %q, want %q", desc, x.name, got, want)
	}
}
