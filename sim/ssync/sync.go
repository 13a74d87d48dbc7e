// Package ssync replaces sync in simulated code.
package ssync

import (
	"sync"
	"vsim"
)

type Locker = sync.Locker

type Mutex struct {
	locked bool
	q      vsim.Queue
}

func fatal(msg string) { panic("fatal error: " + msg) }

func (m *Mutex) Lock() {
	vsim.Y0()
	for m.locked {
		if !vsim.Active() {
			panic("vsim: lock contention outside a simulated goroutine")
		}
		m.q.Wait("sync.Mutex.Lock")
	}
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	vsim.Y0()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked {
		fatal("sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.q.WakeOne()
	vsim.Y0()
}

type RWMutex struct {
	w       bool
	readers int
	wwait   int
	q       vsim.Queue
}

func (m *RWMutex) Lock() {
	vsim.Y0()
	m.wwait++
	for m.w || m.readers > 0 {
		m.q.Wait("sync.RWMutex.Lock")
	}
	m.wwait--
	m.w = true
}

func (m *RWMutex) TryLock() bool {
	vsim.Y0()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	if !m.w {
		fatal("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.q.WakeAll()
	vsim.Y0()
}

func (m *RWMutex) RLock() {
	vsim.Y0()
	for m.w || m.wwait > 0 {
		m.q.Wait("sync.RWMutex.RLock")
	}
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	vsim.Y0()
	if m.w || m.wwait > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if m.readers == 0 {
		m.q.WakeAll()
	}
	vsim.Y0()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct {
	n int
	q vsim.Queue
}

func (w *WaitGroup) Add(d int) {
	vsim.Y0()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.q.WakeAll()
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	vsim.Y0()
	for w.n > 0 {
		w.q.Wait("sync.WaitGroup.Wait")
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsim.Go(0, func() { defer w.Done(); f() })
}

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	vsim.Y0()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

type Cond struct {
	L  Locker
	ws []*condWait
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	vsim.Y0()
	// enqueue before unlocking, as the real one does
	woke := &condWait{}
	c.enq(woke)
	c.L.Unlock()
	for !woke.ok {
		woke.q.Wait("sync.Cond.Wait")
	}
	c.L.Lock()
}

type condWait struct {
	ok bool
	q  vsim.Queue
}

func (c *Cond) enq(w *condWait) { c.ws = append(c.ws, w) }
func (c *Cond) Signal() {
	vsim.Y0()
	if ws := c.ws; len(ws) > 0 {
		ws[0].ok = true
		ws[0].q.WakeAll()
		c.ws = ws[1:]
	}
}
func (c *Cond) Broadcast() {
	vsim.Y0()
	for _, w := range c.ws {
		w.ok = true
		w.q.WakeAll()
	}
	c.ws = nil
}

// Pool hands out recently returned objects first; it may also drop them.
type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	vsim.Y0()
	if n := len(p.items); n > 0 {
		if vsim.Active() && vsim.Flip(0.1, "pool-miss") {
			if p.New != nil {
				return p.New()
			}
			return nil
		}
		v := p.items[n-1]
		p.items = p.items[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(v any) {
	vsim.Y0()
	if v != nil {
		p.items = append(p.items, v)
	}
}

// Map is an insertion-ordered map.
type Map struct {
	keys []any
	m    map[any]any
}

func (m *Map) Load(k any) (any, bool) { vsim.Y0(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.Swap(k, v) }
func (m *Map) Swap(k, v any) (prev any, loaded bool) {
	vsim.Y0()
	if m.m == nil {
		m.m = map[any]any{}
	}
	prev, loaded = m.m[k]
	if !loaded {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	return
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	vsim.Y0()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.keys = append(m.keys, k)
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	vsim.Y0()
	v, ok := m.m[k]
	if ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	vsim.Y0()
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	vsim.Y0()
	if v, ok := m.m[k]; ok && v == o {
		m.LoadAndDelete(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	vsim.Y0()
	for _, k := range append([]any(nil), m.keys...) {
		v, ok := m.m[k]
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}
func (m *Map) Clear() { vsim.Y0(); m.keys, m.m = nil, nil }
