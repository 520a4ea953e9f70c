// Package sync replaces the standard one in the instrumented tracker.
package sync

import (
	"unsafe"

	"github.com/crimist/trakx/zzv/vs"
)

// Mutex is a mutual exclusion lock.
type Mutex struct {
	locked bool
	owner  string
	own    owning
}

// owning tells whose memory a lock's state belongs to: what a process that ended, or an earlier execution, left
// locked is not locked for its successor.
type owning struct {
	exec uint64
	proc int
}

func (o *owning) stale() bool {
	x, p := vs.ExecID(), vs.CurProc()
	if o.exec == x && (o.proc == p || x == 0) {
		return false
	}
	r := o.exec != x
	if !r {
		if _, ok := vs.Exited(o.proc); ok {
			r = true
		}
	}
	o.exec, o.proc = x, p
	return r
}

func (m *Mutex) Lock() {
	if vs.Dying() {
		return
	}
	vs.Point("Mutex.Lock")
	m.fresh()
	if m.locked {
		vs.Block("Mutex.Lock held by "+m.owner, func() bool { return !m.locked })
		if vs.Dying() {
			return
		}
	}
	m.locked = true
	m.owner = vs.CurTask()
	vs.RaceAcquire(unsafe.Pointer(m))
}

func (m *Mutex) TryLock() bool {
	vs.Point("Mutex.TryLock")
	m.fresh()
	if m.locked {
		return false
	}
	m.locked = true
	m.owner = vs.CurTask()
	vs.RaceAcquire(unsafe.Pointer(m))
	return true
}

func (m *Mutex) Unlock() {
	if vs.Dying() {
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	vs.RaceRelease(unsafe.Pointer(m))
	m.locked = false
	vs.ReleasePoint("Mutex.Unlock")
}

// RWMutex: a waiting writer keeps new readers out, as in the standard library.
type RWMutex struct {
	readers int
	writer  bool
	waiting int // writers waiting
	owner   string
	own     owning
	r, w    byte // race annotation addresses
}

func (m *Mutex) fresh() {
	if m.own.stale() {
		m.locked = false
	}
}

func (m *RWMutex) fresh() {
	if m.own.stale() {
		m.readers, m.waiting, m.writer = 0, 0, false
	}
}

func (m *RWMutex) Lock() {
	if vs.Dying() {
		return
	}
	vs.Point("RWMutex.Lock")
	m.fresh()
	if m.writer || m.readers > 0 {
		m.waiting++
		vs.Block("RWMutex.Lock held by "+m.owner, func() bool { return !m.writer && m.readers == 0 })
		m.waiting--
		if vs.Dying() {
			return
		}
	}
	m.writer = true
	m.owner = vs.CurTask()
	vs.RaceAcquire(unsafe.Pointer(&m.r))
	vs.RaceAcquire(unsafe.Pointer(&m.w))
}

func (m *RWMutex) TryLock() bool {
	vs.Point("RWMutex.TryLock")
	m.fresh()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	m.owner = vs.CurTask()
	vs.RaceAcquire(unsafe.Pointer(&m.r))
	vs.RaceAcquire(unsafe.Pointer(&m.w))
	return true
}

func (m *RWMutex) Unlock() {
	if vs.Dying() {
		return
	}
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	vs.RaceRelease(unsafe.Pointer(&m.w))
	m.writer = false
	vs.ReleasePoint("RWMutex.Unlock")
}

func (m *RWMutex) RLock() {
	if vs.Dying() {
		return
	}
	vs.Point("RWMutex.RLock")
	m.fresh()
	if m.writer || m.waiting > 0 {
		vs.Block("RWMutex.RLock held by "+m.owner, func() bool { return !m.writer && m.waiting == 0 })
		if vs.Dying() {
			return
		}
	}
	m.readers++
	m.owner = vs.CurTask()
	vs.RaceAcquire(unsafe.Pointer(&m.w))
}

func (m *RWMutex) TryRLock() bool {
	vs.Point("RWMutex.TryRLock")
	m.fresh()
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	vs.RaceAcquire(unsafe.Pointer(&m.w))
	return true
}

func (m *RWMutex) RUnlock() {
	if vs.Dying() {
		return
	}
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	vs.RaceReleaseMerge(unsafe.Pointer(&m.r))
	m.readers--
	vs.ReleasePoint("RWMutex.RUnlock")
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	if vs.Dying() {
		return
	}
	vs.Point("WaitGroup.Add")
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if d < 0 {
		vs.RaceReleaseMerge(unsafe.Pointer(w))
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	vs.Point("WaitGroup.Wait")
	vs.Block("WaitGroup.Wait", func() bool { return w.n == 0 })
	vs.RaceAcquire(unsafe.Pointer(w))
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vs.Go(func() {
		defer w.Done()
		f()
	})
}

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

//go:norace
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

//go:norace
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

// Cond is sync.Cond.
type Cond struct {
	L    Locker
	seq  int
	wake int // waiters with ticket < wake are woken
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	t := c.seq
	c.seq++
	c.L.Unlock()
	vs.Block("Cond.Wait", func() bool { return t < c.wake })
	vs.RaceAcquire(unsafe.Pointer(c))
	c.L.Lock()
}
func (c *Cond) Signal() {
	vs.RaceReleaseMerge(unsafe.Pointer(c))
	if c.wake < c.seq {
		c.wake++
	}
}
func (c *Cond) Broadcast() {
	vs.RaceReleaseMerge(unsafe.Pointer(c))
	c.wake = c.seq
}

// Pool is a deterministic last-in first-out pool: every Put object is handed out again, most recently put
// first, so that reuse of live or dirty objects shows.
type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	vs.Point("Pool.Get")
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items[n-1] = nil
		p.items = p.items[:n-1]
		vs.RaceAcquire(unsafe.Pointer(p))
		return x
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(x any) {
	if x == nil || vs.Dying() {
		return
	}
	vs.Point("Pool.Put")
	vs.RaceReleaseMerge(unsafe.Pointer(p))
	p.items = append(p.items, x)
	vs.PoolPoint()
}

// Map is sync.Map.
type Map struct {
	k []any
	v []any
}

func (m *Map) find(k any) int {
	for i := range m.k {
		if m.k[i] == k {
			return i
		}
	}
	return -1
}
func (m *Map) pt(s string) {
	vs.Point(s)
	vs.RaceAcquire(unsafe.Pointer(m))
	vs.RaceReleaseMerge(unsafe.Pointer(m))
}
func (m *Map) Load(k any) (any, bool) {
	m.pt("Map.Load")
	if i := m.find(k); i >= 0 {
		return m.v[i], true
	}
	return nil, false
}
func (m *Map) Store(k, v any) {
	m.pt("Map.Store")
	m.store(k, v)
}
func (m *Map) store(k, v any) {
	if i := m.find(k); i >= 0 {
		m.v[i] = v
		return
	}
	m.k = append(m.k, k)
	m.v = append(m.v, v)
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.pt("Map.LoadOrStore")
	if i := m.find(k); i >= 0 {
		return m.v[i], true
	}
	m.store(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.pt("Map.LoadAndDelete")
	if i := m.find(k); i >= 0 {
		v := m.v[i]
		m.del(i)
		return v, true
	}
	return nil, false
}
func (m *Map) del(i int) {
	m.k = append(m.k[:i:i], m.k[i+1:]...)
	m.v = append(m.v[:i:i], m.v[i+1:]...)
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.pt("Map.Swap")
	if i := m.find(k); i >= 0 {
		o := m.v[i]
		m.v[i] = v
		return o, true
	}
	m.store(k, v)
	return nil, false
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.pt("Map.CompareAndSwap")
	if i := m.find(k); i >= 0 && m.v[i] == o {
		m.v[i] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.pt("Map.CompareAndDelete")
	if i := m.find(k); i >= 0 && m.v[i] == o {
		m.del(i)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.pt("Map.Range")
	ks := append([]any(nil), m.k...)
	for _, k := range ks {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}
func (m *Map) Clear() { m.pt("Map.Clear"); m.k, m.v = nil, nil }
