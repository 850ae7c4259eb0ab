// Package simsync replaces package sync in the instrumented copy of plainkv:
// waiting is a decision of the simulated scheduler and sync.Pool is
// deterministic (last in, first out, never drained).
package simsync

import (
	"sync"

	"github.com/roy2220/fsm/simhook"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
)

type Mutex struct{ held bool }

func (m *Mutex) Lock() {
	simhook.Y()
	for m.held {
		simhook.Block()
	}
	m.held = true
}

func (m *Mutex) TryLock() bool {
	simhook.Y()
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	simhook.Y()
}

type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock() {
	simhook.Y()
	for m.w || m.r > 0 {
		simhook.Block()
	}
	m.w = true
}

func (m *RWMutex) TryLock() bool {
	simhook.Y()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	simhook.Y()
}

func (m *RWMutex) RLock() {
	simhook.Y()
	for m.w {
		simhook.Block()
	}
	m.r++
}

func (m *RWMutex) TryRLock() bool {
	simhook.Y()
	if m.w {
		return false
	}
	m.r++
	return true
}

func (m *RWMutex) RUnlock() {
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	simhook.Y()
}

type rlocker struct{ m *RWMutex }

func (l rlocker) Lock()   { l.m.RLock() }
func (l rlocker) Unlock() { l.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type Pool struct {
	New   func() interface{}
	items []interface{}
}

func (p *Pool) Get() interface{} {
	simhook.Y()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if x != nil {
		p.items = append(p.items, x)
	}
	simhook.Y()
}

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) { w.n += d }
func (w *WaitGroup) Done()     { w.n-- }
func (w *WaitGroup) Wait() {
	for w.n > 0 {
		simhook.Block()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var r T
	return func() T { o.Do(func() { r = f() }); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var r1 T1
	var r2 T2
	return func() (T1, T2) { o.Do(func() { r1, r2 = f() }); return r1, r2 }
}

// Cond wakes in the order of waiting.
type Cond struct {
	L       Locker
	waiting []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	woken := new(bool)
	c.waiting = append(c.waiting, woken)
	c.L.Unlock()
	for !*woken {
		simhook.Block()
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	if len(c.waiting) > 0 {
		*c.waiting[0] = true
		c.waiting = c.waiting[1:]
	}
}

func (c *Cond) Broadcast() {
	for len(c.waiting) > 0 {
		c.Signal()
	}
}
