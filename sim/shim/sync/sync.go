// Package simsync is package sync under the simulated scheduler.
package simsync

import (
	"sync"

	"btrsim/simrt"
)

type Locker = sync.Locker

// A lock that is not used inside a simulation is never contended: nothing but
// package initialisation runs there.

type Mutex struct {
	locked bool
	sv     simrt.SyncVar
}

func (m *Mutex) Lock() {
	if !simrt.Inside() {
		return
	}
	simrt.Enter("lock")
	for m.locked {
		simrt.Block("mutex", func() bool { return !m.locked })
	}
	m.locked = true
	m.sv.Acquire()
}

func (m *Mutex) TryLock() bool {
	if !simrt.Inside() {
		return true
	}
	simrt.Enter("lock")
	if m.locked {
		return false
	}
	m.locked = true
	m.sv.Acquire()
	return true
}

func (m *Mutex) Unlock() {
	if !simrt.Inside() {
		return
	}
	simrt.EnterNoYield()
	if !m.locked {
		simrt.FatalProc("fatal error: sync: unlock of unlocked mutex")
	}
	m.sv.Release()
	m.locked = false
	simrt.Enter("unlock")
}

type RWMutex struct {
	writer   bool
	readers  int
	wwaiting int
	rel, rrl simrt.SyncVar
}

func (m *RWMutex) Lock() {
	if !simrt.Inside() {
		return
	}
	simrt.Enter("lock")
	m.wwaiting++
	for m.writer || m.readers > 0 {
		simrt.Block("rwmutex", func() bool { return !m.writer && m.readers == 0 })
	}
	m.wwaiting--
	m.writer = true
	m.rel.Acquire()
	m.rrl.Acquire()
}

func (m *RWMutex) TryLock() bool {
	if !simrt.Inside() {
		return true
	}
	simrt.Enter("lock")
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	m.rel.Acquire()
	m.rrl.Acquire()
	return true
}

func (m *RWMutex) Unlock() {
	if !simrt.Inside() {
		return
	}
	simrt.EnterNoYield()
	if !m.writer {
		simrt.FatalProc("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.rel.Release()
	m.writer = false
	simrt.Enter("unlock")
}

func (m *RWMutex) RLock() {
	if !simrt.Inside() {
		return
	}
	simrt.Enter("rlock")
	// As in the real lock, a waiting writer keeps new readers out.
	for m.writer || m.wwaiting > 0 {
		simrt.Block("rwmutex read", func() bool { return !m.writer && m.wwaiting == 0 })
	}
	m.readers++
	m.rel.Acquire()
}

func (m *RWMutex) TryRLock() bool {
	if !simrt.Inside() {
		return true
	}
	simrt.Enter("rlock")
	if m.writer || m.wwaiting > 0 {
		return false
	}
	m.readers++
	m.rel.Acquire()
	return true
}

func (m *RWMutex) RUnlock() {
	if !simrt.Inside() {
		return
	}
	simrt.EnterNoYield()
	if m.readers <= 0 {
		simrt.FatalProc("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.rrl.Release()
	m.readers--
	simrt.Enter("runlock")
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct {
	n  int
	sv simrt.SyncVar
}

func (w *WaitGroup) Add(d int) {
	if !simrt.Inside() {
		return
	}
	simrt.EnterNoYield()
	w.sv.Release()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	simrt.Enter("wg")
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if !simrt.Inside() {
		return
	}
	simrt.Enter("wg")
	if w.n > 0 {
		simrt.Block("waitgroup", func() bool { return w.n == 0 })
	}
	w.sv.Acquire()
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	done bool
	m    Mutex
	sv   simrt.SyncVar
}

func (o *Once) Do(f func()) {
	if !simrt.Inside() {
		if !o.done {
			o.done = true
			f()
		}
		return
	}
	simrt.Enter("once")
	if o.done {
		o.sv.Acquire()
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			o.done = true
			o.sv.Release()
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v T1
	var w T2
	return func() (T1, T2) {
		o.Do(func() { v, w = f() })
		return v, w
	}
}

type Cond struct {
	L  Locker
	q  []*bool
	sv simrt.SyncVar
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	simrt.Enter("cond")
	woken := false
	c.q = append(c.q, &woken)
	c.L.Unlock()
	if !woken {
		simrt.Block("cond", func() bool { return woken })
	}
	c.sv.Acquire()
	c.L.Lock()
}

func (c *Cond) Signal() {
	if !simrt.Inside() {
		return
	}
	simrt.Enter("cond")
	c.sv.Release()
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
}

func (c *Cond) Broadcast() {
	if !simrt.Inside() {
		return
	}
	simrt.Enter("cond")
	c.sv.Release()
	for _, w := range c.q {
		*w = true
	}
	c.q = nil
}

// Pool hands out any item it holds, or a new one: the choice is the
// simulator's, because the real pool promises nothing.
type Pool struct {
	New   func() any
	items []any
	svs   []*simrt.SyncVar
}

func (p *Pool) Get() any {
	if simrt.Inside() {
		simrt.Enter("pool")
		if n := len(p.items); n > 0 {
			k := simrt.Choose("pool", n+1)
			if k < n {
				v := p.items[k]
				p.svs[k].Acquire()
				p.items = append(p.items[:k:k], p.items[k+1:]...)
				p.svs = append(p.svs[:k:k], p.svs[k+1:]...)
				return v
			}
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if v == nil || !simrt.Inside() {
		return
	}
	simrt.EnterNoYield()
	sv := &simrt.SyncVar{}
	sv.Release()
	if len(p.items) < 64 {
		p.items = append(p.items, v)
		p.svs = append(p.svs, sv)
	}
	simrt.Enter("pool")
}

// Map is sync.Map: sequentially consistent operations with happens-before
// edges.
type Map struct {
	m    map[any]any
	keys []any
	sv   simrt.SyncVar
}

func (m *Map) enter() {
	if simrt.Inside() {
		simrt.Enter("map")
		m.sv.Acquire()
		m.sv.Release()
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
}

func (m *Map) Load(k any) (any, bool) {
	m.enter()
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) set(k, v any) {
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k any) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
}

func (m *Map) Store(k, v any) { m.enter(); m.set(k, v) }

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.enter()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.set(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.enter()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) Swap(k, v any) (any, bool) {
	m.enter()
	o, ok := m.m[k]
	m.set(k, v)
	return o, ok
}

func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.enter()
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, o any) bool {
	m.enter()
	if v, ok := m.m[k]; ok && v == o {
		m.del(k)
		return true
	}
	return false
}

func (m *Map) Clear() { m.enter(); m.m, m.keys = map[any]any{}, nil }

func (m *Map) Range(f func(k, v any) bool) {
	m.enter()
	for _, k := range append([]any{}, m.keys...) {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}
