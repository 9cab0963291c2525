// Package scenx holds the scenarios of packages that need third-party modules.
package scenx

import (
	"strconv"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/log"
	mc "github.com/lesismal/arpc/zmc/mcrt"
)

type quiet struct{}

func (quiet) SetLevel(int)                 {}
func (quiet) Debug(string, ...interface{}) {}
func (quiet) Info(string, ...interface{})  {}
func (quiet) Warn(string, ...interface{})  {}
func (quiet) Error(string, ...interface{}) {}

var allocator0 = arpc.DefaultAllocator

func begin() {
	log.SetLogger(quiet{})
	arpc.DefaultAllocator = allocator0
	mc.WriteHook = nil
	mc.PoolCheck = false
	mc.PoolAny = false
	mc.PoolYield = false
}

var i01 = []int{0, 1}

func itoa(n int) string { return strconv.Itoa(n) }

// cross returns all combinations of the dimensions' values.
func cross(dims ...interface{}) []mc.Config {
	l := []mc.Config{{P: map[string]int{}, MaxBound: -1}}
	for i := 0; i+1 < len(dims); i += 2 {
		k := dims[i].(string)
		var n []mc.Config
		for _, c := range l {
			for _, v := range dims[i+1].([]int) {
				x := c
				x.P = map[string]int{}
				for a, b := range c.P {
					x.P[a] = b
				}
				x.P[k] = v
				if x.Name != "" {
					x.Name += ","
				}
				x.Name += k + "=" + itoa(v)
				n = append(n, x)
			}
		}
		l = n
	}
	return l
}

func bound(cs []mc.Config, quick, thorough int, th bool) []mc.Config {
	for i := range cs {
		cs[i].MaxBound = quick
		if th {
			cs[i].MaxBound = thorough
		}
	}
	return cs
}

func orders(cs []mc.Config, p ...int) []mc.Config {
	for i := range cs {
		cs[i].Policies = p
	}
	return cs
}

func reg(prop, name string, run func(*mc.Config), configs func(th bool) []mc.Config) {
	mc.Register(&mc.Scenario{Prop: prop, Name: name, Run: run, Configs: configs})
}

type latch struct{ ch chan struct{} }

func newLatch() *latch { return &latch{make(chan struct{})} }
func (l *latch) wait() { <-l.ch }
func (l *latch) fire() { close(l.ch) }

type group struct {
	n  int
	ch chan struct{}
}

func newGroup() *group { return &group{ch: make(chan struct{}, 64)} }
func (g *group) run(f func()) {
	g.n++
	go func() {
		f()
		g.ch <- struct{}{}
	}()
}
func (g *group) wait() {
	for ; g.n > 0; g.n-- {
		<-g.ch
	}
}

func cat(l ...[]mc.Config) []mc.Config {
	var r []mc.Config
	for _, x := range l {
		r = append(r, x...)
	}
	return r
}
