// Package sync stands in for sync: waiting is a scheduling point of the world.
package sync

import "vsim/simrt"

type Locker interface {
	Lock()
	Unlock()
}

func block(class string, ready func() bool) {
	if simrt.Cur == nil { // initialisation
		return
	}
	simrt.Block(class, ready)
}

// Mutex is a lock.
type Mutex struct{ held bool }

func (m *Mutex) Lock() {
	block("lock", func() bool { return !m.held })
	m.held = true
}
func (m *Mutex) TryLock() bool {
	if m.held {
		return false
	}
	m.held = true
	return true
}
func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
}

// RWMutex is a lock for readers and writers.
type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock() {
	block("lock", func() bool { return !m.w && m.r == 0 })
	m.w = true
}
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
}
func (m *RWMutex) RLock() {
	block("rlock", func() bool { return !m.w })
	m.r++
}
func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
}
func (m *RWMutex) TryLock() bool {
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) TryRLock() bool {
	if m.w {
		return false
	}
	m.r++
	return true
}

type rlocker RWMutex

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }
func (m *rlocker) Lock()           { (*RWMutex)(m).RLock() }
func (m *rlocker) Unlock()         { (*RWMutex)(m).RUnlock() }

// WaitGroup waits for goroutines.
type WaitGroup struct{ n int }

func (g *WaitGroup) Add(d int) {
	if g.n += d; g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() { block("join", func() bool { return g.n == 0 }) }
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	simrt.Go(func() {
		defer g.Done()
		f()
	})
}

// Once runs something once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Cond is a condition variable.
type Cond struct {
	L    Locker
	wait []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	woken := new(bool)
	c.wait = append(c.wait, woken)
	c.L.Unlock()
	block("cond", func() bool { return *woken })
	c.L.Lock()
}
func (c *Cond) Signal() {
	if len(c.wait) > 0 {
		*c.wait[0] = true
		c.wait = c.wait[1:]
	}
}
func (c *Cond) Broadcast() {
	for len(c.wait) > 0 {
		c.Signal()
	}
}

// Pool keeps objects.
type Pool struct {
	New  func() any
	free []any
}

func (p *Pool) Get() any {
	if n := len(p.free); n > 0 {
		x := p.free[n-1]
		p.free = p.free[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) { p.free = append(p.free, x) }

// Map is a concurrent map.
type Map struct{ m map[any]any }

func (m *Map) Load(k any) (any, bool) { v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
}
func (m *Map) Swap(k, v any) (any, bool) { o, ok := m.m[k]; m.Store(k, v); return o, ok }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.Store(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) { v, ok := m.m[k]; delete(m.m, k); return v, ok }
func (m *Map) Delete(k any)                    { delete(m.m, k) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	if v, ok := m.m[k]; ok && v == o {
		delete(m.m, k)
		return true
	}
	return false
}
func (m *Map) Clear() { clear(m.m) }
func (m *Map) Range(f func(k, v any) bool) {
	for k, v := range simrt.RangeMap(m.m) {
		if !f(k, v) {
			return
		}
	}
}
