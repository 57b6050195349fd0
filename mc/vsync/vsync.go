// Package vsync stands in for package sync under the controlled scheduler.
package vsync

import (
	"sync"
	"unsafe"

	"verif.local/mc/mc/vsched"
)

type Locker = sync.Locker

// gen ties a primitive's state to one execution: a package-level lock or pool
// starts every execution in its zero state.
type gen struct{ id int64 }

func (g *gen) fresh() bool {
	id := vsched.ExecID()
	if g.id == id {
		return false
	}
	g.id = id
	return true
}

// UnlockPoints makes releases scheduling points.  Without TryLock a release is
// a left mover: preempting just before it is equivalent to preempting just
// after it, so the point is only needed when the code uses TryLock (the
// instrumenter sets this then).
var UnlockPoints bool

func unlockPoint(what string) {
	if UnlockPoints {
		vsched.Point(what)
		return
	}
	vsched.Note(what)
}

type Mutex struct{ c mutexCore }

type mutexCore struct {
	g      gen
	locked bool
	hb     byte
}

func (m *mutexCore) sync() {
	if m.g.fresh() {
		m.locked = false
	}
}

func (m *mutexCore) lock() {
	m.sync()
	vsched.Block("Lock", func() bool { return !m.locked })
	if m.locked {
		panic("vsync: Lock would block outside an execution")
	}
	m.locked = true
	vsched.Acquire(unsafe.Pointer(&m.hb))
}

func (m *mutexCore) tryLock() bool {
	m.sync()
	vsched.Point("TryLock")
	if m.locked {
		return false
	}
	m.locked = true
	vsched.Acquire(unsafe.Pointer(&m.hb))
	return true
}

func (m *mutexCore) unlock() {
	m.sync()
	unlockPoint("Unlock")
	if !m.locked {
		vsched.Fatal("fatal error: sync: unlock of unlocked mutex")
	}
	vsched.Release(unsafe.Pointer(&m.hb))
	m.locked = false
}

func (m *Mutex) Lock()         { m.c.lock() }
func (m *Mutex) TryLock() bool { return m.c.tryLock() }
func (m *Mutex) Unlock()       { m.c.unlock() }

type RWMutex struct{ c rwCore }

type rwCore struct {
	g       gen
	writer  bool // held for writing
	pending bool // a writer waits for readers to leave; new readers wait
	readers int
	hbW     byte
	hbR     byte
}

func (m *rwCore) sync() {
	if m.g.fresh() {
		m.writer, m.pending, m.readers = false, false, 0
	}
}

func (m *rwCore) lock() {
	m.sync()
	vsched.Block("RWMutex.Lock", func() bool { return !m.writer && !m.pending })
	if m.readers > 0 {
		m.pending = true
		vsched.Block("RWMutex.Lock (draining readers)", func() bool { return m.readers == 0 })
		m.pending = false
	}
	m.writer = true
	vsched.Acquire(unsafe.Pointer(&m.hbW))
	vsched.Acquire(unsafe.Pointer(&m.hbR))
}

func (m *rwCore) tryLock() bool {
	m.sync()
	vsched.Point("TryLock")
	if m.writer || m.pending || m.readers > 0 {
		return false
	}
	m.writer = true
	vsched.Acquire(unsafe.Pointer(&m.hbW))
	vsched.Acquire(unsafe.Pointer(&m.hbR))
	return true
}

func (m *rwCore) unlock() {
	m.sync()
	unlockPoint("RWMutex.Unlock")
	if !m.writer {
		vsched.Fatal("fatal error: sync: Unlock of unlocked RWMutex")
	}
	vsched.Release(unsafe.Pointer(&m.hbW))
	m.writer = false
}

func (m *rwCore) rlock() {
	m.sync()
	vsched.Block("RLock", func() bool { return !m.writer && !m.pending })
	m.readers++
	vsched.Acquire(unsafe.Pointer(&m.hbW))
}

func (m *rwCore) tryRLock() bool {
	m.sync()
	vsched.Point("TryRLock")
	if m.writer || m.pending {
		return false
	}
	m.readers++
	vsched.Acquire(unsafe.Pointer(&m.hbW))
	return true
}

func (m *rwCore) runlock() {
	m.sync()
	unlockPoint("RUnlock")
	if m.readers <= 0 {
		vsched.Fatal("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	vsched.ReleaseMerge(unsafe.Pointer(&m.hbR))
	m.readers--
}

func (m *RWMutex) Lock()           { m.c.lock() }
func (m *RWMutex) TryLock() bool   { return m.c.tryLock() }
func (m *RWMutex) Unlock()         { m.c.unlock() }
func (m *RWMutex) RLock()          { m.c.rlock() }
func (m *RWMutex) TryRLock() bool  { return m.c.tryRLock() }
func (m *RWMutex) RUnlock()        { m.c.runlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once follows sync.Once: a mutex-protected done flag set after f returns.
type Once struct{ c onceCore }

type onceCore struct {
	done bool
	m    mutexCore
	hb   byte
}

func (o *Once) Do(f func()) { o.c.do(f) }

func (o *onceCore) do(f func()) {
	vsched.Point("Once.Do")
	if o.done {
		vsched.Acquire(unsafe.Pointer(&o.hb))
		return
	}
	o.m.lock()
	defer o.m.unlock()
	if !o.done {
		defer o.set()
		f()
	}
}

func (o *onceCore) set() {
	if vsched.Aborting() {
		return
	}
	vsched.Point("Once done")
	vsched.Release(unsafe.Pointer(&o.hb))
	o.done = true
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	r := new(T)
	return func() T {
		o.Do(func() { *r = f() })
		return *r
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	r, q := new(T), new(U)
	return func() (T, U) {
		o.Do(func() { *r, *q = f() })
		return *r, *q
	}
}

type WaitGroup struct{ c wgCore }

type wgCore struct {
	g  gen
	n  int
	hb byte
}

func (w *wgCore) add(d int) {
	if w.g.fresh() {
		w.n = 0
	}
	vsched.Point("WaitGroup.Add")
	if d < 0 {
		vsched.ReleaseMerge(unsafe.Pointer(&w.hb))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *wgCore) wait() {
	if w.g.fresh() {
		w.n = 0
	}
	vsched.Block("WaitGroup.Wait", func() bool { return w.n == 0 })
	vsched.Acquire(unsafe.Pointer(&w.hb))
}

func (w *WaitGroup) Add(d int) { w.c.add(d) }
func (w *WaitGroup) Done()     { w.c.add(-1) }
func (w *WaitGroup) Wait()     { w.c.wait() }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() { defer w.Done(); f() })
}

// Cond: Wait may return only after a Signal or Broadcast that followed it.
type Cond struct {
	L Locker
	c condCore
}

type condCore struct {
	q  []*condWaiter
	hb byte
}

type condWaiter struct{ woken bool }

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *condCore) enqueue() *condWaiter {
	w := &condWaiter{}
	c.q = append(c.q, w)
	return w
}

func (c *condCore) park(w *condWaiter) {
	vsched.Block("Cond.Wait", func() bool { return w.woken })
	vsched.Acquire(unsafe.Pointer(&c.hb))
}

func (c *condCore) wake(all bool) {
	vsched.Point("Cond.Signal")
	vsched.ReleaseMerge(unsafe.Pointer(&c.hb))
	for len(c.q) > 0 {
		c.q[0].woken = true
		c.q = c.q[1:]
		if !all {
			return
		}
	}
}

func (c *Cond) Wait() {
	w := c.c.enqueue()
	c.L.Unlock()
	c.c.park(w)
	c.L.Lock()
}
func (c *Cond) Signal()    { c.c.wake(false) }
func (c *Cond) Broadcast() { c.c.wake(true) }

// Pool: Get is an environment choice between the most recently put object (the
// default), a fresh one, and each older one; objects may thus be dropped or
// reordered exactly as sync.Pool permits.
type Pool struct {
	New func() any
	c   poolCore
}

type poolCore struct {
	g     gen
	items []poolItem
}

type poolItem struct {
	v  any
	hb *byte
}

// PoolMode selects how many answers Get explores: 0 always the most recently
// put object, 1 that or New, 2 any of them.
var PoolMode = 1

// PoolDev makes each non-default pool answer cost one deviation.
var PoolDev = false

func (p *poolCore) get() (any, bool) {
	if p.g.fresh() {
		p.items = nil
	}
	vsched.Point("Pool.Get")
	n := len(p.items)
	if n == 0 {
		return nil, false
	}
	c := 0
	if vsched.InExec() {
		k := 1
		if PoolMode == 1 {
			k = 2
		} else if PoolMode == 2 {
			k = n + 1
		}
		if PoolDev {
			c = vsched.ChooseDev(k)
		} else {
			c = vsched.Choose(k)
		}
	}
	var i int
	switch {
	case c == 0:
		i = n - 1
	case c == 1:
		return nil, false
	default:
		i = n - c
	}
	it := p.items[i]
	p.items = without(p.items, i)
	vsched.Acquire(unsafe.Pointer(it.hb))
	return it.v, true
}

func (p *poolCore) put(v any) {
	if p.g.fresh() {
		p.items = nil
	}
	if v == nil {
		return
	}
	vsched.Point("Pool.Put")
	it := poolItem{v, new(byte)}
	vsched.Release(unsafe.Pointer(it.hb))
	p.items = append(p.items, it)
}

func (p *Pool) Get() any {
	if v, ok := p.c.get(); ok {
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) { p.c.put(v) }

// Map is sync.Map: every method is one atomic step.
type Map struct{ c mapCore }

// Entries live in slices: the runtime instruments built-in maps for the race
// detector even here.
type mapCore struct {
	keys []any
	vals []any
	hb   byte
}

func (m *mapCore) at(what string) {
	vsched.Point(what)
	vsched.Acquire(unsafe.Pointer(&m.hb))
}

func (m *mapCore) rel() { vsched.ReleaseMerge(unsafe.Pointer(&m.hb)) }

func (m *mapCore) find(k any) int {
	for i := range m.keys {
		if m.keys[i] == k {
			return i
		}
	}
	return -1
}

func (m *mapCore) get(k any) (any, bool) {
	if i := m.find(k); i >= 0 {
		return m.vals[i], true
	}
	return nil, false
}

func (m *mapCore) put(k, v any) {
	if i := m.find(k); i >= 0 {
		m.vals[i] = v
	} else {
		m.keys = append(m.keys, k)
		m.vals = append(m.vals, v)
	}
	m.rel()
}

func (m *mapCore) del(k any) {
	if i := m.find(k); i >= 0 {
		m.keys = without(m.keys, i)
		m.vals = without(m.vals, i)
	}
	m.rel()
}

func (m *Map) Load(k any) (any, bool) {
	m.c.at("Map.Load")
	v, ok := m.c.get(k)
	return v, ok
}
func (m *Map) Store(k, v any) { m.c.at("Map.Store"); m.c.put(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.c.at("Map.LoadOrStore")
	if w, ok := m.c.get(k); ok {
		return w, true
	}
	m.c.put(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.c.at("Map.LoadAndDelete")
	v, ok := m.c.get(k)
	m.c.del(k)
	return v, ok
}
func (m *Map) Delete(k any) { m.c.at("Map.Delete"); m.c.del(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.c.at("Map.Swap")
	w, ok := m.c.get(k)
	m.c.put(k, v)
	return w, ok
}
func (m *Map) CompareAndSwap(k, old, nw any) bool {
	m.c.at("Map.CompareAndSwap")
	if w, ok := m.c.get(k); ok && w == old {
		m.c.put(k, nw)
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, old any) bool {
	m.c.at("Map.CompareAndDelete")
	if w, ok := m.c.get(k); ok && w == old {
		m.c.del(k)
		return true
	}
	return false
}
func (m *Map) Clear() {
	m.c.at("Map.Clear")
	m.c.keys, m.c.vals = nil, nil
	m.c.rel()
}
func (m *Map) Range(f func(k, v any) bool) {
	m.c.at("Map.Range")
	for _, k := range without(m.c.keys, -1) {
		m.c.at("Map.Range step")
		v, ok := m.c.get(k)
		if ok && !f(k, v) {
			return
		}
	}
}

// without returns s less element i, element by element: the runtime reports
// append's and copy's bulk moves to the race detector even for this package.
func without[T any](s []T, i int) []T {
	r := make([]T, 0, len(s))
	for j, v := range s {
		if j != i {
			r = append(r, v)
		}
	}
	return r
}
