// Package sync stands in for the standard package in instrumented code: its
// locks let the controlled scheduler run other threads instead of blocking.
package sync

import (
	"sync"
	"sync/atomic"
	"unsafe"

	"verif/sched"
)

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
	Map       = sync.Map
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	sched.Point()
	for !m.m.TryLock() {
		if !sched.Wait() {
			m.m.Lock()
			return
		}
	}
}

func (m *Mutex) TryLock() bool { sched.Point(); return m.m.TryLock() }
func (m *Mutex) Unlock()       { sched.Point(); m.m.Unlock() }

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	sched.Point()
	for !m.m.TryLock() {
		if !sched.Wait() {
			m.m.Lock()
			return
		}
	}
}

func (m *RWMutex) RLock() {
	sched.Point()
	for !m.m.TryRLock() {
		if !sched.Wait() {
			m.m.RLock()
			return
		}
	}
}

func (m *RWMutex) TryLock() bool  { sched.Point(); return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { sched.Point(); return m.m.TryRLock() }
func (m *RWMutex) Unlock()        { sched.Point(); m.m.Unlock() }
func (m *RWMutex) RUnlock()       { sched.Point(); m.m.RUnlock() }
func (m *RWMutex) RLocker() Locker {
	return (*rlocker)(m)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once as in the standard library, with the lock above.
type Once struct {
	done atomic.Bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	sched.Point()
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	var p interface{}
	ok := false
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
					panic(p)
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var v T
	o := OnceFunc(func() { v = f() })
	return func() T { o(); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var v T
	var w U
	o := OnceFunc(func() { v, w = f() })
	return func() (T, U) { o(); return v, w }
}

// Pool hands out the objects put back last, so that reuse is deterministic.
type Pool struct {
	New   func() interface{}
	mu    spin
	items []interface{}
}

type spin struct{ m sync.Mutex }

func addr(x interface{}) unsafe.Pointer {
	return (*[2]unsafe.Pointer)(unsafe.Pointer(&x))[1]
}

func (p *Pool) Get() interface{} {
	sched.Point()
	x := p.take()
	if x != nil {
		sched.Acquire(addr(x))
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) take() interface{} {
	sched.Hide()
	defer sched.Unhide()
	p.mu.m.Lock()
	defer p.mu.m.Unlock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	sched.Point()
	if x == nil {
		return
	}
	sched.Release(addr(x))
	p.put(x)
}

//go:norace
func (p *Pool) put(x interface{}) {
	sched.Hide()
	defer sched.Unhide()
	p.mu.m.Lock()
	defer p.mu.m.Unlock()
	p.items = append(p.items, x)
}
