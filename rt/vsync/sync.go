// Package vsync stands for package sync.
package vsync

import (
	"sync"

	"verif.local/rt/vsched"
)

// Locker is sync.Locker.
type Locker = sync.Locker

type fatalError string

func (f fatalError) Error() string { return "fatal error: " + string(f) }

// Mutex stands for sync.Mutex.
type Mutex struct {
	o      vsched.Obj
	locked bool
}

// Enabled implements vsched.Enabler.
func (m *Mutex) Enabled() bool { return !m.locked }

// Lock locks m.
func (m *Mutex) Lock() {
	vsched.Yield("lock", &m.o, true, m)
	m.locked = true
	vsched.HBAcquire(m)
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	vsched.Yield("trylock", &m.o, true, nil)
	if m.locked {
		return false
	}
	m.locked = true
	vsched.HBAcquire(m)
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	if vsched.Aborting() {
		return
	}
	if !m.locked {
		panic(fatalError("sync: unlock of unlocked mutex"))
	}
	vsched.Touch(&m.o, true)
	vsched.HBRelease(m)
	m.locked = false
}

// RWMutex stands for sync.RWMutex.
type RWMutex struct {
	o       vsched.Obj
	readers int
	writer  bool
	waiting int
	rsync   byte
}

type rw struct{ m *RWMutex }
type rwr struct{ m *RWMutex }

func (w *rw) Enabled() bool  { return !w.m.writer && w.m.readers == 0 }
func (w *rwr) Enabled() bool { return !w.m.writer && w.m.waiting == 0 }

// Lock locks m for writing.
func (m *RWMutex) Lock() {
	vsched.Yield("rwlock", &m.o, true, nil)
	if m.writer || m.readers > 0 {
		m.waiting++
		vsched.Yield("rwlock", &m.o, true, &rw{m})
		m.waiting--
	}
	m.writer = true
	vsched.HBAcquire(m)
	vsched.HBAcquire(&m.rsync)
}

// TryLock tries to lock m for writing.
func (m *RWMutex) TryLock() bool {
	vsched.Yield("rwtrylock", &m.o, true, nil)
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	vsched.HBAcquire(m)
	vsched.HBAcquire(&m.rsync)
	return true
}

// Unlock unlocks m for writing.
func (m *RWMutex) Unlock() {
	if vsched.Aborting() {
		return
	}
	if !m.writer {
		panic(fatalError("sync: Unlock of unlocked RWMutex"))
	}
	vsched.Touch(&m.o, true)
	vsched.HBRelease(m)
	m.writer = false
}

// RLock locks m for reading.
func (m *RWMutex) RLock() {
	vsched.Yield("rlock", &m.o, false, &rwr{m})
	m.readers++
	vsched.HBAcquire(m)
}

// TryRLock tries to lock m for reading.
func (m *RWMutex) TryRLock() bool {
	vsched.Yield("tryrlock", &m.o, false, nil)
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	vsched.HBAcquire(m)
	return true
}

// RUnlock undoes RLock.
func (m *RWMutex) RUnlock() {
	if vsched.Aborting() {
		return
	}
	if m.readers <= 0 {
		panic(fatalError("sync: RUnlock of unlocked RWMutex"))
	}
	vsched.Touch(&m.o, false)
	vsched.HBReleaseMerge(&m.rsync)
	m.readers--
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// Cond stands for sync.Cond.
type Cond struct {
	L Locker

	o vsched.Obj
	q []*condWaiter
}

type condWaiter struct{ woken bool }

func (w *condWaiter) Enabled() bool { return w.woken }

// NewCond returns a new Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for a signal.
func (c *Cond) Wait() {
	if vsched.Aborting() {
		vsched.Yield("cond wait", nil, false, nil)
	}
	vsched.Touch(&c.o, true)
	w := &condWaiter{}
	c.q = append(c.q, w)
	c.L.Unlock()
	vsched.Yield("cond wait", &c.o, true, w)
	c.L.Lock()
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	vsched.Yield("cond signal", &c.o, true, nil)
	if len(c.q) > 0 {
		c.q[0].woken = true
		c.q = c.q[1:]
	}
}

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() {
	vsched.Yield("cond broadcast", &c.o, true, nil)
	for _, w := range c.q {
		w.woken = true
	}
	c.q = nil
}

// WaitGroup stands for sync.WaitGroup.
type WaitGroup struct {
	o vsched.Obj
	n int
}

// Enabled implements vsched.Enabler.
func (w *WaitGroup) Enabled() bool { return w.n == 0 }

// Add adds delta.
func (w *WaitGroup) Add(delta int) {
	if vsched.Aborting() {
		return
	}
	vsched.Touch(&w.o, true)
	if delta < 0 {
		vsched.HBReleaseMerge(w)
	}
	w.n += delta
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits for the counter to be zero.
func (w *WaitGroup) Wait() {
	vsched.Yield("wg wait", &w.o, true, w)
	vsched.HBAcquire(w)
}

// Go calls f in a new thread.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go("sync.WaitGroup.Go", func() {
		defer w.Done()
		f()
	})
}

// Once stands for sync.Once.
type Once struct {
	o       vsched.Obj
	done    bool
	running bool
}

// Enabled implements vsched.Enabler.
func (o *Once) Enabled() bool { return !o.running }

// Do calls f once.
func (o *Once) Do(f func()) {
	vsched.Yield("once", &o.o, true, o)
	if o.done {
		vsched.HBAcquire(o)
		return
	}
	o.running = true
	defer func() {
		vsched.Touch(&o.o, true)
		vsched.HBReleaseMerge(o)
		o.done, o.running = true, false
	}()
	f()
}

// OnceFunc stands for sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue stands for sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues stands for sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

// Pool stands for sync.Pool: the item put last is the one got next.
type Pool struct {
	New func() interface{}

	o     vsched.Obj
	items []interface{}
	epoch interface{}
}

// Get takes an item.
func (p *Pool) Get() interface{} {
	vsched.Yield("pool get", &p.o, true, nil)
	p.fresh()
	vsched.HBAcquire(p)
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put returns an item.
func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	vsched.Yield("pool put", &p.o, true, nil)
	p.fresh()
	vsched.HBReleaseMerge(p)
	p.items = append(p.items, x)
}

// fresh empties a pool left over from an earlier execution.
func (p *Pool) fresh() {
	cur := vsched.Value("pool epoch", func() interface{} { return new(int) })
	if vsched.Active() && p.epoch != cur {
		p.epoch, p.items = cur, nil
	}
}

// Map stands for sync.Map.
type Map struct {
	o vsched.Obj
	m []*mapEntry
}

type mapEntry struct{ k, v interface{} }

func (m *Map) at(kind string, write bool) {
	vsched.Yield(kind, &m.o, write, nil)
	vsched.HBAcquire(m)
	if write {
		vsched.HBReleaseMerge(m)
	}
}

func (m *Map) get(k interface{}) (interface{}, bool) {
	for _, e := range m.m {
		if e.k == k {
			return e.v, true
		}
	}
	return nil, false
}

func (m *Map) set(k, v interface{}) {
	for _, e := range m.m {
		if e.k == k {
			e.v = v
			return
		}
	}
	m.m = append(m.m, &mapEntry{k, v})
}

func (m *Map) del(k interface{}) {
	for i, e := range m.m {
		if e.k == k {
			m.m = vsched.Without(m.m, i)
			return
		}
	}
}

// Load stands for sync.Map.Load.
func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.at("map load", false)
	v, ok := m.get(k)
	return v, ok
}

// Store stands for sync.Map.Store.
func (m *Map) Store(k, v interface{}) {
	m.at("map store", true)
	m.set(k, v)
}

// LoadOrStore stands for sync.Map.LoadOrStore.
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.at("map loadorstore", true)
	if x, ok := m.get(k); ok {
		return x, true
	}
	m.set(k, v)
	return v, false
}

// LoadAndDelete stands for sync.Map.LoadAndDelete.
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.at("map loadanddelete", true)
	v, ok := m.get(k)
	m.del(k)
	return v, ok
}

// Delete stands for sync.Map.Delete.
func (m *Map) Delete(k interface{}) {
	m.at("map delete", true)
	m.del(k)
}

// Swap stands for sync.Map.Swap.
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.at("map swap", true)
	x, ok := m.get(k)
	m.set(k, v)
	return x, ok
}

// CompareAndSwap stands for sync.Map.CompareAndSwap.
func (m *Map) CompareAndSwap(k, old, new interface{}) bool {
	m.at("map cas", true)
	if x, ok := m.get(k); !ok || x != old {
		return false
	}
	m.set(k, new)
	return true
}

// CompareAndDelete stands for sync.Map.CompareAndDelete.
func (m *Map) CompareAndDelete(k, old interface{}) bool {
	m.at("map cad", true)
	if x, ok := m.get(k); !ok || x != old {
		return false
	}
	m.del(k)
	return true
}

// Range stands for sync.Map.Range.
func (m *Map) Range(f func(k, v interface{}) bool) {
	m.at("map range", false)
	for _, e := range append([]*mapEntry{}, m.m...) {
		m.at("map range", false)
		v, ok := m.get(e.k)
		if !ok {
			continue
		}
		if !f(e.k, v) {
			return
		}
	}
}

// Clear stands for sync.Map.Clear.
func (m *Map) Clear() {
	m.at("map clear", true)
	m.m = nil
}
