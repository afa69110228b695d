// Package sync is the simulated counterpart of the standard package.
package sync

import "github.com/KitchenMishap/pudding-shed/verifsim/simrt"

type Locker interface {
	Lock()
	Unlock()
}

func quiet() bool { return simrt.S != nil && simrt.Dying() }

type Mutex struct {
	locked bool
	q      simrt.WaitQ
}

func (m *Mutex) Lock() {
	if simrt.S != nil {
		simrt.Need()
		simrt.P()
		for m.locked {
			m.q.Wait("mutex lock")
		}
	}
	m.locked = true
}
func (m *Mutex) TryLock() bool {
	simrt.P()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}
func (m *Mutex) Unlock() {
	if quiet() {
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.q.WakeOne()
	simrt.P()
}

type RWMutex struct {
	w       bool
	readers int
	pendW   int
	q       simrt.WaitQ
}

func (m *RWMutex) Lock() {
	if simrt.S != nil {
		simrt.Need()
		simrt.P()
		m.pendW++
		for m.w || m.readers > 0 {
			m.q.Wait("rwmutex lock")
		}
		m.pendW--
	}
	m.w = true
}
func (m *RWMutex) TryLock() bool {
	simrt.P()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) Unlock() {
	if quiet() {
		return
	}
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.q.WakeAll()
	simrt.P()
}
func (m *RWMutex) RLock() {
	if simrt.S != nil {
		simrt.Need()
		simrt.P()
		for m.w || m.pendW > 0 {
			m.q.Wait("rwmutex rlock")
		}
	}
	m.readers++
}
func (m *RWMutex) TryRLock() bool {
	simrt.P()
	if m.w || m.pendW > 0 {
		return false
	}
	m.readers++
	return true
}
func (m *RWMutex) RUnlock() {
	if quiet() {
		return
	}
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if m.readers == 0 {
		m.q.WakeAll()
	}
	simrt.P()
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct {
	n int
	q simrt.WaitQ
}

func (wg *WaitGroup) Add(d int) {
	if quiet() {
		return
	}
	simrt.P()
	wg.n += d
	if wg.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if wg.n == 0 {
		wg.q.WakeAll()
	}
}
func (wg *WaitGroup) Done() { wg.Add(-1) }
func (wg *WaitGroup) Wait() {
	if simrt.S != nil {
		simrt.Need()
		simrt.P()
		for wg.n > 0 {
			wg.q.Wait("waitgroup")
		}
	}
}
func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	simrt.Go(func() {
		defer wg.Done()
		f()
	})
}

type Cond struct {
	L Locker
	q simrt.WaitQ
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	s := simrt.Need()
	t := s.EnqueueCur(&c.q)
	c.L.Unlock()
	s.ParkUnlessReady(t, &c.q, "cond wait")
	c.L.Lock()
}
func (c *Cond) Signal() {
	if quiet() {
		return
	}
	simrt.P()
	c.q.WakeCond()
}
func (c *Cond) Broadcast() {
	if quiet() {
		return
	}
	simrt.P()
	for c.q.WakeCond() {
	}
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	simrt.P()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	simrt.P()
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = p.items[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	if x != nil {
		p.items = append(p.items, x)
	}
	simrt.P()
}

type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) init() {
	if m.m == nil {
		m.m = map[any]any{}
	}
}
func (m *Map) Load(k any) (any, bool) { simrt.P(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any) {
	simrt.P()
	m.init()
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	simrt.P()
	m.init()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.keys = append(m.keys, k)
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	simrt.P()
	v, ok := m.m[k]
	if ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	o, ok := m.Load(k)
	m.Store(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	simrt.P()
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	if v, ok := m.Load(k); ok && v == o {
		m.Delete(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	for _, k := range append([]any(nil), m.keys...) {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}
func (m *Map) Clear() { m.m = nil; m.keys = nil }
