// Package vsync replaces sync under the scheduler.
package vsync

import (
	"sync"

	"verifmc/vsched"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// off tells that the operation is not scheduled (outside an execution, or while it is torn down).
func off() bool { return !vsched.Active() || vsched.Killing() }

// Mutex is a mutual exclusion lock.
type Mutex struct {
	nat    sync.Mutex // outside executions
	ep     uint64
	locked bool
	sv     vsched.SyncVar
}

func (m *Mutex) fresh() {
	if e := vsched.Epoch(); m.ep != e {
		m.ep, m.locked = e, false
	}
}

func (m *Mutex) Lock() {
	if off() {
		if vsched.Native() {
			m.nat.Lock()
		}
		return
	}
	m.fresh()
	vsched.BlockOn("lock", func() bool { return !m.locked }, func() { m.locked = true; m.sv.Acquire() }, &m.sv)
}

func (m *Mutex) TryLock() (ok bool) {
	if off() {
		if vsched.Native() {
			return m.nat.TryLock()
		}
		return true
	}
	m.fresh()
	vsched.Block("trylock", nil, func() {
		if !m.locked {
			m.locked, ok = true, true
		}
		m.sv.Acquire()
	})
	return
}

func (m *Mutex) Unlock() {
	if off() {
		if vsched.Native() {
			m.nat.Unlock()
		}
		return
	}
	m.fresh()
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.sv.Release()
	m.locked = false
}

// RWMutex is a reader/writer lock; a waiting writer keeps new readers out.
type RWMutex struct {
	nat     sync.RWMutex
	ep      uint64
	w       bool
	readers int
	waiting int
	wv, rv  vsched.SyncVar
}

func (m *RWMutex) fresh() {
	if e := vsched.Epoch(); m.ep != e {
		m.ep, m.w, m.readers, m.waiting = e, false, 0, 0
	}
}

func (m *RWMutex) Lock() {
	if off() {
		if vsched.Native() {
			m.nat.Lock()
		}
		return
	}
	m.fresh()
	got := false
	take := func() { got, m.w = true, true; m.wv.Acquire(); m.rv.Acquire() }
	vsched.Block("wlock", nil, func() {
		if !m.w && m.readers == 0 {
			take()
		} else {
			m.waiting++
			m.wv.Touch(true)
		}
	})
	if !got {
		vsched.BlockOn("wlock wait", func() bool { return !m.w && m.readers == 0 }, func() { m.waiting--; take() }, &m.wv, &m.rv)
	}
}

func (m *RWMutex) TryLock() (ok bool) {
	if off() {
		if vsched.Native() {
			return m.nat.TryLock()
		}
		return true
	}
	m.fresh()
	vsched.Block("trywlock", nil, func() {
		m.wv.Acquire()
		m.rv.Acquire()
		if !m.w && m.readers == 0 {
			m.w, ok = true, true
		}
	})
	return
}

func (m *RWMutex) Unlock() {
	if off() {
		if vsched.Native() {
			m.nat.Unlock()
		}
		return
	}
	m.fresh()
	if !m.w {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.wv.Release()
	m.w = false
}

func (m *RWMutex) RLock() {
	if off() {
		if vsched.Native() {
			m.nat.RLock()
		}
		return
	}
	m.fresh()
	vsched.BlockOn("rlock", func() bool { return !m.w && m.waiting == 0 }, func() { m.readers++; m.wv.AcquireRead() }, &m.wv)
}

func (m *RWMutex) TryRLock() (ok bool) {
	if off() {
		if vsched.Native() {
			return m.nat.TryRLock()
		}
		return true
	}
	m.fresh()
	vsched.Block("tryrlock", nil, func() {
		m.wv.AcquireRead()
		if !m.w && m.waiting == 0 {
			m.readers++
			ok = true
		}
	})
	return
}

func (m *RWMutex) RUnlock() {
	if off() {
		if vsched.Native() {
			m.nat.RUnlock()
		}
		return
	}
	m.fresh()
	if m.readers == 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.rv.ReleaseRead()
	m.readers--
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// Once runs a function once.
type Once struct {
	ep    uint64
	state int
	sv    vsched.SyncVar
}

func (o *Once) Do(f func()) {
	if vsched.Killing() {
		return
	}
	if !vsched.Active() {
		if o.state == 0 {
			o.state = 2
			f()
		}
		return
	}
	if e := vsched.Epoch(); o.ep != e {
		o.ep = e
		if o.state == 1 {
			o.state = 0
		}
	}
	run := false
	vsched.Block("once", func() bool { return o.state != 1 }, func() {
		if o.state == 0 {
			o.state, run = 1, true
			o.sv.Touch(true)
		} else {
			o.sv.AcquireRead()
		}
	})
	if run {
		defer func() {
			if !vsched.Killing() {
				o.sv.Release()
				o.state = 2
			}
		}()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// WaitGroup waits for a collection of goroutines.
type WaitGroup struct {
	ep uint64
	n  int
	sv vsched.SyncVar
}

func (g *WaitGroup) fresh() {
	if e := vsched.Epoch(); g.ep != e {
		g.ep, g.n = e, 0
	}
}

func (g *WaitGroup) Add(d int) {
	if off() {
		return
	}
	g.fresh()
	vsched.Point("wg add")
	g.n += d
	g.sv.Release()
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (g *WaitGroup) Done() { g.Add(-1) }

func (g *WaitGroup) Wait() {
	if off() {
		return
	}
	g.fresh()
	vsched.BlockOn("wg wait", func() bool { return g.n == 0 }, g.sv.Acquire, &g.sv)
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	vsched.Go(func() { defer g.Done(); f() })
}

// Cond is a condition variable.
type Cond struct {
	L       Locker
	waiters []*bool
	sv      vsched.SyncVar
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if off() {
		return
	}
	woken := new(bool)
	c.waiters = append(c.waiters, woken)
	c.sv.Touch(true)
	c.L.Unlock()
	vsched.BlockOn("cond wait", func() bool { return *woken }, c.sv.Acquire, &c.sv)
	c.L.Lock()
}

func (c *Cond) Signal() {
	if off() {
		return
	}
	vsched.Point("signal")
	c.sv.Release()
	if len(c.waiters) > 0 {
		*c.waiters[0] = true
		c.waiters = c.waiters[1:]
	}
}

func (c *Cond) Broadcast() {
	if off() {
		return
	}
	vsched.Point("broadcast")
	c.sv.Release()
	for _, w := range c.waiters {
		*w = true
	}
	c.waiters = nil
}

// Pool hands out the item put back last, whoever put it: the reuse most likely to show sharing.
type Pool struct {
	New   func() any
	ep    uint64
	items []any
	sv    vsched.SyncVar
}

func (p *Pool) fresh() {
	if e := vsched.Epoch(); p.ep != e {
		p.ep, p.items = e, nil
	}
}

func (p *Pool) Get() any {
	if vsched.Active() && !vsched.Killing() {
		p.fresh()
		vsched.Point("pool get")
		p.sv.Acquire()
	}
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil || vsched.Killing() {
		return
	}
	if vsched.Active() {
		p.fresh()
		p.sv.Release()
	}
	p.items = append(p.items, x)
	if vsched.Active() {
		vsched.Point("pool put")
	}
}

// Map is sync.Map.
type Map struct {
	m    map[any]any
	keys []any
	sv   vsched.SyncVar
}

func (m *Map) op() {
	if off() {
		return
	}
	vsched.Point("sync.Map")
	m.sv.Acquire()
	m.sv.Release()
}

func (m *Map) set(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k any) {
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(append([]any(nil), m.keys[:i]...), m.keys[i+1:]...)
			break
		}
	}
}

func (m *Map) Load(k any) (any, bool) { m.op(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.op(); m.set(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.op()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) { m.op(); v, ok := m.m[k]; m.del(k); return v, ok }
func (m *Map) Delete(k any)                    { m.op(); m.del(k) }
func (m *Map) Swap(k, v any) (any, bool)       { m.op(); x, ok := m.m[k]; m.set(k, v); return x, ok }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.op()
	if x, ok := m.m[k]; ok && x == o {
		m.set(k, n)
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.op()
	if x, ok := m.m[k]; ok && x == o {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Clear() { m.op(); m.m, m.keys = nil, nil }
func (m *Map) Range(f func(k, v any) bool) {
	m.op()
	for _, k := range append([]any(nil), m.keys...) {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}
