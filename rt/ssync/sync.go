// Package sync stands in for the standard package sync under simulation.
package sync

import (
	"unsafe"

	"vstrt/rt"
)

type Locker interface {
	Lock()
	Unlock()
}

// Mutex is a simulated mutual-exclusion lock.
type Mutex struct {
	held bool
	tok  int64
}

//go:norace
func (m *Mutex) tryAcquire() bool {
	if m.held {
		return false
	}
	m.held = true
	return true
}

//go:norace
func (m *Mutex) release() bool {
	if !m.held {
		return false
	}
	m.held = false
	return true
}

func (m *Mutex) Lock() {
	rt.Y(-10)
	for !m.tryAcquire() {
		rt.Block(unsafe.Pointer(m), -11)
	}
	rt.RaceAcquire(unsafe.Pointer(&m.tok))
}

func (m *Mutex) TryLock() bool {
	rt.Y(-12)
	if !m.tryAcquire() {
		return false
	}
	rt.RaceAcquire(unsafe.Pointer(&m.tok))
	return true
}

func (m *Mutex) Unlock() {
	rt.RaceRelease(unsafe.Pointer(&m.tok))
	if !m.release() {
		if rt.Aborting() {
			return
		}
		panic("sync: unlock of unlocked mutex")
	}
	rt.Wake(unsafe.Pointer(m))
	rt.YU(-13)
}

// RWMutex is a simulated reader/writer lock. As in the real one, a waiting
// writer blocks new readers.
type RWMutex struct {
	readers  int32
	writer   bool
	waiting  int32
	readTok  int64
	writeTok int64
}

//go:norace
func (rw *RWMutex) tryR() bool {
	if rw.writer || rw.waiting > 0 {
		return false
	}
	rw.readers++
	return true
}

//go:norace
func (rw *RWMutex) relR() bool {
	if rw.readers <= 0 {
		return false
	}
	rw.readers--
	return true
}

//go:norace
func (rw *RWMutex) tryW(wasWaiting bool) bool {
	if rw.writer || rw.readers > 0 {
		return false
	}
	rw.writer = true
	if wasWaiting {
		rw.waiting--
	}
	return true
}

//go:norace
func (rw *RWMutex) addWaiting(n int32) { rw.waiting += n }

//go:norace
func (rw *RWMutex) relW() bool {
	if !rw.writer {
		return false
	}
	rw.writer = false
	return true
}

func (rw *RWMutex) RLock() {
	rt.Y(-20)
	for !rw.tryR() {
		rt.Block(unsafe.Pointer(rw), -21)
	}
	rt.RaceAcquire(unsafe.Pointer(&rw.readTok))
}

func (rw *RWMutex) TryRLock() bool {
	rt.Y(-22)
	if !rw.tryR() {
		return false
	}
	rt.RaceAcquire(unsafe.Pointer(&rw.readTok))
	return true
}

func (rw *RWMutex) RUnlock() {
	rt.RaceReleaseMerge(unsafe.Pointer(&rw.writeTok))
	if !rw.relR() {
		if rt.Aborting() {
			return
		}
		panic("sync: RUnlock of unlocked RWMutex")
	}
	rt.Wake(unsafe.Pointer(rw))
	rt.YU(-23)
}

func (rw *RWMutex) Lock() {
	rt.Y(-24)
	if !rw.tryW(false) {
		rw.addWaiting(1)
		for {
			rt.Block(unsafe.Pointer(rw), -25)
			if rw.tryW(true) {
				break
			}
		}
	}
	rt.RaceAcquire(unsafe.Pointer(&rw.readTok))
	rt.RaceAcquire(unsafe.Pointer(&rw.writeTok))
}

func (rw *RWMutex) TryLock() bool {
	rt.Y(-26)
	if !rw.tryW(false) {
		return false
	}
	rt.RaceAcquire(unsafe.Pointer(&rw.readTok))
	rt.RaceAcquire(unsafe.Pointer(&rw.writeTok))
	return true
}

func (rw *RWMutex) Unlock() {
	rt.RaceRelease(unsafe.Pointer(&rw.readTok))
	if !rw.relW() {
		if rt.Aborting() {
			return
		}
		panic("sync: Unlock of unlocked RWMutex")
	}
	rt.Wake(unsafe.Pointer(rw))
	rt.YU(-27)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (rw *RWMutex) RLocker() Locker { return (*rlocker)(rw) }

// Once runs a function once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	rt.Y(-30)
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

// WaitGroup waits for a collection of tasks.
type WaitGroup struct {
	n   int
	tok int64
}

//go:norace
func (w *WaitGroup) add(n int) int { w.n += n; return w.n }

func (w *WaitGroup) Add(n int) {
	rt.Y(-31)
	if n < 0 {
		rt.RaceReleaseMerge(unsafe.Pointer(&w.tok))
	}
	v := w.add(n)
	if v < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if v == 0 {
		rt.Wake(unsafe.Pointer(w))
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	rt.Y(-32)
	for w.add(0) != 0 {
		rt.Block(unsafe.Pointer(w), -33)
	}
	rt.RaceAcquire(unsafe.Pointer(&w.tok))
}

// Cond is a condition variable.
type Cond struct {
	L   Locker
	gen int64
	sig int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	g := c.gen
	c.L.Unlock()
	for c.gen == g && c.sig == 0 {
		rt.Block(unsafe.Pointer(c), -34)
	}
	if c.gen == g {
		c.sig--
	}
	c.L.Lock()
}
func (c *Cond) Signal()    { c.sig++; rt.Wake(unsafe.Pointer(c)) }
func (c *Cond) Broadcast() { c.gen++; c.sig = 0; rt.Wake(unsafe.Pointer(c)) }

// Pool is a simulated sync.Pool: the seed decides whether the garbage
// collector emptied it, and which item Get returns.
type Pool struct {
	New   func() any
	items []any
	m     Mutex
}

func (p *Pool) Get() any {
	rt.Y(-35)
	p.m.Lock()
	if n := len(p.items); n > 0 {
		r := rt.LibRand()
		switch r % 8 {
		case 0: // collected
			p.items = nil
		default:
			i := int((r >> 8) % uint64(n))
			x := p.items[i]
			p.items[i] = p.items[n-1]
			p.items = p.items[:n-1]
			p.m.Unlock()
			return x
		}
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	rt.Y(-36)
	if x == nil {
		return
	}
	p.m.Lock()
	if rt.LibRand()%16 != 0 {
		p.items = append(p.items, x)
	}
	p.m.Unlock()
}

// Map is a simulated sync.Map.
type Map struct {
	m    Mutex
	keys []any
	vals map[any]any
}

func (m *Map) Load(k any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	v, ok := m.vals[k]
	return v, ok
}
func (m *Map) set(k, v any) {
	if m.vals == nil {
		m.vals = map[any]any{}
	}
	if _, ok := m.vals[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.vals[k] = v
}
func (m *Map) del(k any) {
	if _, ok := m.vals[k]; ok {
		delete(m.vals, k)
		for i := range m.keys {
			if m.keys[i] == k {
				m.keys = append(append([]any{}, m.keys[:i]...), m.keys[i+1:]...)
				break
			}
		}
	}
}
func (m *Map) Store(k, v any) { m.m.Lock(); defer m.m.Unlock(); m.set(k, v) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	o, ok := m.vals[k]
	m.set(k, v)
	return o, ok
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	if o, ok := m.vals[k]; ok {
		return o, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	o, ok := m.vals[k]
	m.del(k)
	return o, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.m.Lock()
	defer m.m.Unlock()
	if c, ok := m.vals[k]; !ok || c != o {
		return false
	}
	m.set(k, n)
	return true
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.m.Lock()
	defer m.m.Unlock()
	if c, ok := m.vals[k]; !ok || c != o {
		return false
	}
	m.del(k)
	return true
}
func (m *Map) Range(f func(k, v any) bool) {
	m.m.Lock()
	ks := append([]any{}, m.keys...)
	m.m.Unlock()
	for _, k := range ks {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}
func (m *Map) Clear() { m.m.Lock(); defer m.m.Unlock(); m.keys, m.vals = nil, nil }
