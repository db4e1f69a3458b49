//sym:into ripsrc/verifsym

package verifsym

import (
	"context"
	"sync"
	"time"
)

// Idle waits until d has passed, which it does when nothing else can go on.
func Idle(d int) { time.Sleep(time.Duration(d)) }

// timing is the state of a timer.
type timing struct {
	c   chan time.Time
	f   func()
	gen int // 0 when it is not running
	n   int
}

var timings = map[*time.Timer]*timing{}

func (s *timing) start(d time.Duration) {
	s.n++
	g := s.n
	s.gen = g
	go func() {
		Idle(int(d))
		if s.gen != g {
			return
		}
		s.gen = 0
		if s.f != nil {
			s.f()
			return
		}
		select {
		case s.c <- time.Now():
		default:
		}
	}()
}

//sym:subst time.NewTimer
func newTimer(d time.Duration) *time.Timer {
	c := make(chan time.Time, 1)
	t := &time.Timer{C: c}
	timings[t] = &timing{c: c}
	timings[t].start(d)
	return t
}

//sym:subst time.AfterFunc
func afterFunc(d time.Duration, f func()) *time.Timer {
	t := &time.Timer{}
	timings[t] = &timing{f: f}
	timings[t].start(d)
	return t
}

//sym:subst time.After
func after(d time.Duration) <-chan time.Time { return newTimer(d).C }

//sym:subst (*time.Timer).Stop
func timerStop(t *time.Timer) bool {
	s := timings[t]
	was := s.gen != 0
	s.gen = 0
	return was
}

//sym:subst (*time.Timer).Reset
func timerReset(t *time.Timer, d time.Duration) bool {
	s := timings[t]
	was := s.gen != 0
	s.start(d)
	return was
}

// syncMaps are the contents of maps.
var syncMaps = map[*sync.Map]map[interface{}]interface{}{}

func syncMap(m *sync.Map) map[interface{}]interface{} {
	r, ok := syncMaps[m]
	if !ok {
		r = map[interface{}]interface{}{}
		syncMaps[m] = r
	}
	return r
}

//sym:subst (*sync.Map).Load
func mapLoad(m *sync.Map, k interface{}) (interface{}, bool) {
	v, ok := syncMap(m)[k]
	return v, ok
}

//sym:subst (*sync.Map).Store
func mapStore(m *sync.Map, k, v interface{}) { syncMap(m)[k] = v }

//sym:subst (*sync.Map).Delete
func mapDelete(m *sync.Map, k interface{}) { delete(syncMap(m), k) }

//sym:subst (*sync.Map).LoadOrStore
func mapLoadOrStore(m *sync.Map, k, v interface{}) (interface{}, bool) {
	if x, ok := syncMap(m)[k]; ok {
		return x, true
	}
	syncMap(m)[k] = v
	return v, false
}

//sym:subst (*sync.Map).LoadAndDelete
func mapLoadAndDelete(m *sync.Map, k interface{}) (interface{}, bool) {
	x, ok := syncMap(m)[k]
	delete(syncMap(m), k)
	return x, ok
}

//sym:subst (*sync.Map).Swap
func mapSwap(m *sync.Map, k, v interface{}) (interface{}, bool) {
	x, ok := syncMap(m)[k]
	syncMap(m)[k] = v
	return x, ok
}

//sym:subst (*sync.Map).CompareAndSwap
func mapCompareAndSwap(m *sync.Map, k, old, v interface{}) bool {
	if x, ok := syncMap(m)[k]; !ok || x != old {
		return false
	}
	syncMap(m)[k] = v
	return true
}

//sym:subst (*sync.Map).Range
func mapRange(m *sync.Map, f func(k, v interface{}) bool) {
	for k, v := range syncMap(m) {
		if !f(k, v) {
			return
		}
	}
}

// valued is a context with a value.
type valued struct {
	context.Context
	k, v interface{}
}

func (c *valued) Value(k interface{}) interface{} {
	if k == c.k {
		return c.v
	}
	return c.Context.Value(k)
}

//sym:subst context.WithValue
func withValue(ctx context.Context, k, v interface{}) context.Context { return &valued{ctx, k, v} }
