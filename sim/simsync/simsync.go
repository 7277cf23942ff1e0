// Package sync replaces the standard package in the instrumented build: the blocking
// operations try the real ones and give control back to the simulator when they would block.
package sync

import (
	real "sync"
	"sync/atomic"

	"verifsim/hook"
)

type (
	// Locker is sync.Locker.
	Locker = real.Locker
	// Map is sync.Map (never blocks across a yield point).
	Map = real.Map
)

// Mutex simulates sync.Mutex.
type Mutex struct{ m real.Mutex }

// Lock locks m.
func (m *Mutex) Lock() {
	for !m.m.TryLock() {
		hook.Wait()
	}
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool { return m.m.TryLock() }

// Unlock unlocks m.
func (m *Mutex) Unlock() { m.m.Unlock() }

// RWMutex simulates sync.RWMutex.
type RWMutex struct{ m real.RWMutex }

// Lock locks m for writing.
func (m *RWMutex) Lock() {
	for !m.m.TryLock() {
		hook.Wait()
	}
}

// TryLock tries to lock m for writing.
func (m *RWMutex) TryLock() bool { return m.m.TryLock() }

// Unlock undoes Lock.
func (m *RWMutex) Unlock() { m.m.Unlock() }

// RLock locks m for reading.
func (m *RWMutex) RLock() {
	for !m.m.TryRLock() {
		hook.Wait()
	}
}

// TryRLock tries to lock m for reading.
func (m *RWMutex) TryRLock() bool { return m.m.TryRLock() }

// RUnlock undoes RLock.
func (m *RWMutex) RUnlock() { m.m.RUnlock() }

// RLocker is as in sync.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once simulates sync.Once.
type Once struct {
	done uint32
	m    Mutex
}

// Do is as in sync.
func (o *Once) Do(f func()) {
	if atomic.LoadUint32(&o.done) == 1 {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.done == 0 {
		defer atomic.StoreUint32(&o.done, 1)
		f()
	}
}

// OnceFunc is as in sync.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is as in sync.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is as in sync.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

// WaitGroup simulates sync.WaitGroup.
type WaitGroup struct{ n int64 }

// Add is as in sync.
func (w *WaitGroup) Add(d int) { atomic.AddInt64(&w.n, int64(d)) }

// Done is as in sync.
func (w *WaitGroup) Done() { atomic.AddInt64(&w.n, -1) }

// Go is as in sync.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	hook.Spawn()
	go func() {
		defer w.Done()
		f()
	}()
}

// Wait is as in sync.
func (w *WaitGroup) Wait() {
	for atomic.LoadInt64(&w.n) > 0 {
		hook.Wait()
	}
}

// Pool simulates sync.Pool deterministically: last in, first out, nothing is dropped.
type Pool struct {
	New func() any

	m     real.Mutex
	items []any
}

// Get is as in sync.
func (p *Pool) Get() any {
	p.m.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put is as in sync.
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.m.Lock()
	p.items = append(p.items, x)
	p.m.Unlock()
}

// Cond simulates sync.Cond: a waiter re-checks whenever it is scheduled (a spurious wake-up
// is not possible with sync.Cond, so the waiter waits for a generation change).
type Cond struct {
	L   Locker
	gen uint64
	one uint64
}

// NewCond is as in sync.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait is as in sync.
func (c *Cond) Wait() {
	g := atomic.LoadUint64(&c.gen)
	c.L.Unlock()
	for atomic.LoadUint64(&c.gen) == g {
		hook.Wait()
	}
	c.L.Lock()
}

// Signal wakes waiters (all of them re-check; users of Cond loop on their condition).
func (c *Cond) Signal() { atomic.AddUint64(&c.gen, 1) }

// Broadcast is as in sync.
func (c *Cond) Broadcast() { atomic.AddUint64(&c.gen, 1) }
