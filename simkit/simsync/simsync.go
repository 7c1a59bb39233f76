// Package simsync has the API of package sync. Inside a simulated run blocking
// is decided by the simulator; the real primitives underneath are only ever
// used uncontended, and give the race detector the happens-before edges of the
// real program.
package simsync

import (
	"sync"
	"sync/atomic"
	"unsafe"

	"verif.local/simkit/simrt"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex is a simulated sync.Mutex.
type Mutex struct{ mu sync.Mutex }

func (m *Mutex) key() unsafe.Pointer { return unsafe.Pointer(m) }

// Lock locks m.
func (m *Mutex) Lock() {
	if !simrt.Active() || simrt.Cur() < 0 {
		m.mu.Lock()
		return
	}
	simrt.YS()
	for !m.mu.TryLock() {
		simrt.Block(m.key(), "Mutex.Lock")
	}
	simrt.LockHeld(m.key())
	simrt.YS()
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	simrt.YS()
	ok := m.mu.TryLock()
	if ok {
		simrt.LockHeld(m.key())
	}
	return ok
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	simrt.LockReleased(m.key())
	m.mu.Unlock()
	if simrt.Active() {
		simrt.Wake(m.key())
		simrt.YS()
	}
}

// RWMutex is a simulated sync.RWMutex. As in package sync a waiting writer
// keeps new readers out.
type RWMutex struct {
	mu      sync.RWMutex
	waiting int32
}

func (m *RWMutex) key() unsafe.Pointer { return unsafe.Pointer(m) }

//go:norace
func (m *RWMutex) addWaiting(d int32) { m.waiting += d }

//go:norace
func (m *RWMutex) writers() int32 { return m.waiting }

// Lock locks m for writing.
func (m *RWMutex) Lock() {
	if !simrt.Active() || simrt.Cur() < 0 {
		m.mu.Lock()
		return
	}
	simrt.YS()
	if !m.mu.TryLock() {
		m.addWaiting(1)
		for {
			simrt.Block(m.key(), "RWMutex.Lock")
			if m.mu.TryLock() {
				break
			}
		}
		m.addWaiting(-1)
		simrt.Wake(m.key())
	}
	simrt.LockHeld(m.key())
	simrt.YS()
}

// TryLock tries to lock m for writing.
func (m *RWMutex) TryLock() bool {
	simrt.YS()
	ok := m.mu.TryLock()
	if ok {
		simrt.LockHeld(m.key())
	}
	return ok
}

// Unlock undoes Lock.
func (m *RWMutex) Unlock() {
	simrt.LockReleased(m.key())
	m.mu.Unlock()
	if simrt.Active() {
		simrt.Wake(m.key())
		simrt.YS()
	}
}

// RLock locks m for reading.
func (m *RWMutex) RLock() {
	if !simrt.Active() || simrt.Cur() < 0 {
		m.mu.RLock()
		return
	}
	simrt.YS()
	for m.writers() > 0 || !m.mu.TryRLock() {
		simrt.Block(m.key(), "RWMutex.RLock")
	}
	simrt.LockHeld(m.key())
	simrt.YS()
}

// TryRLock tries to lock m for reading.
func (m *RWMutex) TryRLock() bool {
	simrt.YS()
	ok := m.writers() == 0 && m.mu.TryRLock()
	if ok {
		simrt.LockHeld(m.key())
	}
	return ok
}

// RUnlock undoes RLock.
func (m *RWMutex) RUnlock() {
	simrt.LockReleased(m.key())
	m.mu.RUnlock()
	if simrt.Active() {
		simrt.Wake(m.key())
		simrt.YS()
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for the read side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is a simulated sync.Once.
type Once struct {
	done uint32
	m    Mutex
}

// Do calls f once.
func (o *Once) Do(f func()) {
	simrt.YS()
	if atomic.LoadUint32(&o.done) == 0 {
		o.slow(f)
	}
}

func (o *Once) slow(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if atomic.LoadUint32(&o.done) == 0 {
		defer atomic.StoreUint32(&o.done, 1)
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var (
		once  Once
		valid bool
		p     interface{}
	)
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		f()
		valid = true
	}
	return func() {
		once.Do(g)
		if !valid {
			panic(p)
		}
	}
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var r T
	g := OnceFunc(func() { r = f() })
	return func() T { g(); return r }
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	g := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { g(); return r1, r2 }
}

// WaitGroup is a simulated sync.WaitGroup.
type WaitGroup struct{ n int64 }

// Add adds delta.
func (w *WaitGroup) Add(delta int) {
	simrt.YS()
	n := atomic.AddInt64(&w.n, int64(delta))
	if n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if n == 0 && simrt.Active() {
		simrt.Wake(unsafe.Pointer(w))
	}
}

// Done decrements the counter.
func (w *WaitGroup) Done() { w.Add(-1) }

// Go runs f in a new task.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

// Wait blocks until the counter is zero.
func (w *WaitGroup) Wait() {
	simrt.YS()
	for atomic.LoadInt64(&w.n) != 0 {
		if !simrt.Active() || simrt.Cur() < 0 {
			panic("simsync: WaitGroup.Wait outside a run would block")
		}
		simrt.Block(unsafe.Pointer(w), "WaitGroup.Wait")
	}
}

// Cond is a simulated sync.Cond.
type Cond struct {
	L   Locker
	gen uint64
	n   int
	tok int
}

// NewCond returns a Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) enter() uint64 { c.n++; return c.gen }

//go:norace
func (c *Cond) check(g uint64) bool {
	if c.gen != g {
		c.n--
		return true
	}
	if c.tok > 0 {
		c.tok--
		c.n--
		return true
	}
	return false
}

//go:norace
func (c *Cond) signal() {
	if c.tok < c.n {
		c.tok++
	}
}

//go:norace
func (c *Cond) broadcast() { c.gen++; c.tok = 0 }

// Wait waits for a signal.
func (c *Cond) Wait() {
	g := c.enter()
	c.L.Unlock()
	for !c.check(g) {
		simrt.Block(unsafe.Pointer(c), "Cond.Wait")
	}
	c.L.Lock()
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	c.signal()
	simrt.Wake(unsafe.Pointer(c))
	simrt.YS()
}

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() {
	c.broadcast()
	simrt.Wake(unsafe.Pointer(c))
	simrt.YS()
}

// Map is sync.Map with yield points.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool) { simrt.YS(); v, ok := m.m.Load(k); simrt.YS(); return v, ok }
func (m *Map) Store(k, v any)         { simrt.YS(); m.m.Store(k, v); simrt.YS() }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	simrt.YS()
	a, l := m.m.LoadOrStore(k, v)
	simrt.YS()
	return a, l
}
func (m *Map) LoadAndDelete(k any) (any, bool) { simrt.YS(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                    { simrt.YS(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)       { simrt.YS(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool { simrt.YS(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool  { simrt.YS(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Clear() {
	simrt.YS()
	m.m.Range(func(k, _ any) bool { m.m.Delete(k); return true })
}
func (m *Map) Range(f func(k, v any) bool) {
	simrt.YS()
	tmp := map[any]any{}
	m.m.Range(func(k, v any) bool { tmp[k] = v; return true })
	for it, k, v := simrt.RangeMap2(tmp); it.Next2(&k, &v); {
		if !f(k, v) {
			return
		}
	}
}

// Pool is a simulated sync.Pool: a stack whose Get sometimes pretends to be
// empty, which the contract allows.
type Pool struct {
	noCopy [0]sync.Mutex
	mu     sync.Mutex
	items  []any
	New    func() any
}

// Get takes an item.
func (p *Pool) Get() any {
	simrt.YS()
	p.mu.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put returns an item.
func (p *Pool) Put(x any) {
	simrt.YS()
	if x == nil {
		return
	}
	p.mu.Lock()
	p.items = append(p.items, x)
	p.mu.Unlock()
	simrt.YS()
}
