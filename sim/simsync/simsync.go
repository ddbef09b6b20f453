// Package simsync replaces package sync in the instrumented packages: the same
// API, but waiting is a simulated block so that the scheduler keeps control. The
// real primitives are used underneath (with Try operations) so that the
// happens-before edges the race detector sees are those of the real ones.
package simsync

import (
	"sync"

	"verifsim/simrt"
)

type Locker = sync.Locker

// What a waiting task waits for is noted beside the real primitive, because others
// look at it on its behalf: the race detector must not see them do so.

type Mutex struct {
	m    sync.Mutex
	held bool
}

//go:norace
func (m *Mutex) set(b bool) { m.held = b }

//go:norace
func (m *Mutex) free() bool { return !m.held }

func (m *Mutex) TryLock() bool {
	ok := m.m.TryLock()
	if ok {
		m.set(true)
	}
	return ok
}

func (m *Mutex) Unlock() {
	simrt.LockOp()
	m.set(false)
	m.m.Unlock()
}

func (m *Mutex) Lock() {
	simrt.LockOp()
	simrt.Y()
	for !m.TryLock() {
		simrt.Block(m.free)
	}
}

type RWMutex struct {
	m       sync.RWMutex
	held    bool
	readers int
	writers int // that wait: they keep new readers out
}

//go:norace
func (m *RWMutex) wait(n int) { m.writers += n }

//go:norace
func (m *RWMutex) set(held bool, readers int) { m.held = held; m.readers += readers }

//go:norace
func (m *RWMutex) free() bool { return !m.held && m.readers == 0 }

//go:norace
func (m *RWMutex) readable() bool { return !m.held && m.writers == 0 }

func (m *RWMutex) TryLock() bool {
	ok := m.m.TryLock()
	if ok {
		m.set(true, 0)
	}
	return ok
}

func (m *RWMutex) TryRLock() bool {
	ok := m.readable() && m.m.TryRLock()
	if ok {
		m.set(false, 1)
	}
	return ok
}

func (m *RWMutex) Unlock() {
	simrt.LockOp()
	m.set(false, 0)
	m.m.Unlock()
}

func (m *RWMutex) RUnlock() {
	simrt.LockOp()
	m.set(false, -1)
	m.m.RUnlock()
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) Lock() {
	simrt.LockOp()
	simrt.Y()
	if m.TryLock() {
		return
	}
	m.wait(1)
	for !m.TryLock() {
		simrt.Block(m.free)
	}
	m.wait(-1)
}

func (m *RWMutex) RLock() {
	simrt.LockOp()
	simrt.Y()
	for !m.TryRLock() {
		simrt.Block(m.readable)
	}
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	var p any
	bad := false
	return func() {
		o.Do(func() {
			defer func() {
				if p = recover(); p != nil {
					bad = true
				}
			}()
			f()
		})
		if bad {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var v T
	g := OnceFunc(func() { v = f() })
	return func() T { g(); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var a A
	var b B
	g := OnceFunc(func() { a, b = f() })
	return func() (A, B) { g(); return a, b }
}

// Pool is a deterministic LIFO pool shared by all tasks: the choice most likely
// to hand an object back while somebody still uses it. Like the real one it orders
// only who puts an object before who gets it.
type Pool struct {
	New func() any
	top *pooled
}

type pooled struct {
	v    any
	put  chan struct{}
	next *pooled
}

//go:norace
func (p *Pool) pop() *pooled {
	e := p.top
	if e != nil {
		p.top = e.next
	}
	return e
}

//go:norace
func (p *Pool) push(e *pooled) { e.next = p.top; p.top = e }

//go:norace
func (e *pooled) value() any { return e.v }

func (p *Pool) Get() any {
	simrt.Y()
	if e := p.pop(); e != nil {
		<-e.put
		return e.value()
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	simrt.Y()
	if v == nil {
		return
	}
	e := &pooled{v: v, put: make(chan struct{}, 1)}
	e.put <- struct{}{}
	p.push(e)
}

// Map is the real one, but iterates in insertion order.
type Map struct {
	m    sync.Map
	keys *mapKey
}

type mapKey struct {
	k    any
	next *mapKey
}

//go:norace
func (m *Map) note(k any) {
	p := &m.keys
	for ; *p != nil; p = &(*p).next {
		if (*p).k == k {
			return
		}
	}
	*p = &mapKey{k: k}
}

//go:norace
func (m *Map) forget(k any) {
	for p := &m.keys; *p != nil; p = &(*p).next {
		if (*p).k == k {
			*p = (*p).next
			return
		}
	}
}

//go:norace
func (m *Map) first() *mapKey { return m.keys }

//go:norace
func (k *mapKey) get() (any, *mapKey) { return k.k, k.next }

//go:norace
func (m *Map) reset() { m.keys = nil }

func (m *Map) Load(k any) (v any, ok bool) { simrt.Y(); return m.m.Load(k) }
func (m *Map) Store(k, v any)              { m.Swap(k, v) }
func (m *Map) Delete(k any)                { m.LoadAndDelete(k) }
func (m *Map) Clear()                      { simrt.Y(); m.m.Clear(); m.reset() }

func (m *Map) LoadOrStore(k, v any) (a any, loaded bool) {
	simrt.Y()
	a, loaded = m.m.LoadOrStore(k, v)
	if !loaded {
		m.note(k)
	}
	return
}

func (m *Map) LoadAndDelete(k any) (v any, ok bool) {
	simrt.Y()
	v, ok = m.m.LoadAndDelete(k)
	if ok {
		m.forget(k)
	}
	return
}

func (m *Map) Swap(k, v any) (prev any, ok bool) {
	simrt.Y()
	prev, ok = m.m.Swap(k, v)
	if !ok {
		m.note(k)
	}
	return
}

func (m *Map) CompareAndSwap(k, o, n any) (ok bool) { simrt.Y(); return m.m.CompareAndSwap(k, o, n) }

func (m *Map) CompareAndDelete(k, o any) (ok bool) {
	simrt.Y()
	ok = m.m.CompareAndDelete(k, o)
	if ok {
		m.forget(k)
	}
	return
}

func (m *Map) Range(f func(k, v any) bool) {
	simrt.Y()
	for e := m.first(); e != nil; {
		k, next := e.get()
		if v, ok := m.m.Load(k); ok && !f(k, v) {
			return
		}
		e = next
	}
}

type WaitGroup struct {
	mu sync.Mutex
	n  int
}

//go:norace
func (w *WaitGroup) add(d int) int { w.n += d; return w.n }

//go:norace
func (w *WaitGroup) zero() bool { return w.n == 0 }

// order makes what was done before it happen before what is done after it.
func (w *WaitGroup) order() { w.mu.Lock(); w.mu.Unlock() }

func (w *WaitGroup) Add(d int) {
	w.order()
	if w.add(d) < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	simrt.Y()
	if !w.zero() {
		simrt.Block(w.zero)
	}
	w.order()
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() { defer w.Done(); f() })
}

type Cond struct {
	L     Locker
	first *waiter
}

type waiter struct {
	woken bool
	next  *waiter
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) add() *waiter {
	w := &waiter{}
	p := &c.first
	for *p != nil {
		p = &(*p).next
	}
	*p = w
	return w
}

//go:norace
func (w *waiter) is() bool { return w.woken }

//go:norace
func (c *Cond) wake(all bool) {
	for c.first != nil {
		c.first.woken = true
		c.first = c.first.next
		if !all {
			return
		}
	}
}

func (c *Cond) Wait() {
	w := c.add()
	c.L.Unlock()
	simrt.Block(w.is)
	c.L.Lock()
}
func (c *Cond) Signal()    { c.wake(false) }
func (c *Cond) Broadcast() { c.wake(true) }
