// Package simsync stands in for sync in the instrumented copy.
//
// State that several simulated threads touch is kept in fixed arrays and
// copied element by element: in a race-detector build the runtime reports
// accesses made by append, copy and map operations even from here.
package simsync

import (
	"sync"
	"unsafe"

	zz "MODULE/zzsimrt"
)

type Locker = sync.Locker

// Mutex replaces sync.Mutex in the instrumented copy.
type Mutex struct {
	held bool
	s    [8]byte // address for the race detector
}

func (m *Mutex) addr() unsafe.Pointer { return unsafe.Pointer(&m.s) }

//go:noinline
func (m *Mutex) Lock() {
	zz.SyncPoint()
	for m.held {
		zz.Block(m)
	}
	m.held = true
	zz.RaceAcquire(m.addr())
}

//go:noinline
func (m *Mutex) TryLock() bool {
	zz.SyncPoint()
	if m.held {
		return false
	}
	m.held = true
	zz.RaceAcquire(m.addr())
	return true
}

//go:noinline
func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	zz.RaceRelease(m.addr())
	m.held = false
	zz.WakeOn(m)
	zz.SyncPoint()
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	w       bool
	r       int
	waiting int // writers waiting: new readers queue behind them
	s, s2   [8]byte
}

func (m *RWMutex) addr() unsafe.Pointer  { return unsafe.Pointer(&m.s) }
func (m *RWMutex) addr2() unsafe.Pointer { return unsafe.Pointer(&m.s2) }

//go:noinline
func (m *RWMutex) Lock() {
	zz.SyncPoint()
	for m.w || m.r > 0 {
		m.waiting++
		func() {
			defer func() { m.waiting-- }()
			zz.Block(m)
		}()
	}
	m.w = true
	zz.RaceAcquire(m.addr())
	zz.RaceAcquire(m.addr2())
}

//go:noinline
func (m *RWMutex) TryLock() bool {
	zz.SyncPoint()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	zz.RaceAcquire(m.addr())
	zz.RaceAcquire(m.addr2())
	return true
}

//go:noinline
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	zz.RaceRelease(m.addr())
	m.w = false
	zz.WakeOn(m)
	zz.SyncPoint()
}

//go:noinline
func (m *RWMutex) RLock() {
	zz.SyncPoint()
	for m.w || m.waiting > 0 {
		zz.Block(m)
	}
	m.r++
	zz.RaceAcquire(m.addr())
}

//go:noinline
func (m *RWMutex) TryRLock() bool {
	zz.SyncPoint()
	if m.w || m.waiting > 0 {
		return false
	}
	m.r++
	zz.RaceAcquire(m.addr())
	return true
}

//go:noinline
func (m *RWMutex) RUnlock() {
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	zz.RaceReleaseMerge(m.addr2())
	m.r--
	zz.WakeOn(m)
	zz.SyncPoint()
}

type rlocker struct{ m *RWMutex }

//go:noinline
func (l rlocker) Lock() { l.m.RLock() }

//go:noinline
func (l rlocker) Unlock() { l.m.RUnlock() }

//go:noinline
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// Once replaces sync.Once.
type Once struct {
	done bool
	m    Mutex
}

//go:noinline
func (o *Once) Do(f func()) {
	zz.SyncPoint()
	if o.done {
		zz.RaceAcquire(o.m.addr())
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

//go:noinline
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	n int
	s [8]byte
}

//go:noinline
func (w *WaitGroup) Add(d int) {
	zz.SyncPoint()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if d < 0 {
		zz.RaceReleaseMerge(unsafe.Pointer(&w.s))
	}
	if w.n == 0 {
		zz.WakeOn(w)
	}
}

//go:noinline
func (w *WaitGroup) Done() { w.Add(-1) }

//go:noinline
func (w *WaitGroup) Wait() {
	zz.SyncPoint()
	for w.n > 0 {
		zz.Block(w)
	}
	zz.RaceAcquire(unsafe.Pointer(&w.s))
}

//go:noinline
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	zz.Go(func() { defer w.Done(); f() })
}

// Cond replaces sync.Cond.
type Cond struct {
	L    Locker
	seq  int64
	wait []*condWaiter
}

type condWaiter struct{ ok bool }

//go:noinline
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:noinline
func (c *Cond) Wait() {
	w := &condWaiter{}
	c.wait = append(c.wait, w)
	c.L.Unlock()
	for !w.ok {
		zz.Block(w)
	}
	c.L.Lock()
}

//go:noinline
func (c *Cond) Signal() {
	zz.SyncPoint()
	if len(c.wait) > 0 {
		w := c.wait[0]
		c.wait = c.wait[1:]
		w.ok = true
		zz.WakeOn(w)
	}
}

//go:noinline
func (c *Cond) Broadcast() {
	zz.SyncPoint()
	for _, w := range c.wait {
		w.ok = true
		zz.WakeOn(w)
	}
	c.wait = nil
}

// Pool replaces sync.Pool: which pooled object a Get returns, or whether it
// makes a new one, is the environment's choice.
type Pool struct {
	New   func() interface{}
	stash [32]interface{}
	n     int
	epoch int
}

func (p *Pool) sync() {
	if p.epoch != zz.Epoch() {
		p.epoch = zz.Epoch()
		for i := 0; i < p.n; i++ {
			p.stash[i] = nil
		}
		p.n = 0
	}
}

//go:noinline
func (p *Pool) Get() interface{} {
	zz.SyncPoint()
	p.sync()
	if p.n > 0 {
		k := p.n - 1
		drop := false
		if zz.EnvPerm {
			k = int(zz.EnvUint64() % uint64(p.n))
			drop = zz.EnvUint64()%8 == 0
		}
		if !drop {
			x := p.stash[k]
			p.n--
			p.stash[k] = p.stash[p.n]
			p.stash[p.n] = nil
			zz.RaceAcquire(dataPtr(x))
			zz.CountPool()
			return x
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:noinline
func (p *Pool) Put(x interface{}) {
	zz.SyncPoint()
	if x == nil {
		return
	}
	p.sync()
	if zz.EnvPerm && zz.EnvUint64()%16 == 0 {
		return // collected
	}
	if p.n == len(p.stash) {
		return
	}
	zz.RaceReleaseMerge(dataPtr(x))
	p.stash[p.n] = x
	p.n++
}

var poolAddr [64][8]byte

func dataPtr(x interface{}) unsafe.Pointer {
	type eface struct{ t, d unsafe.Pointer }
	d := (*eface)(unsafe.Pointer(&x)).d
	return unsafe.Pointer(&poolAddr[(uintptr(d)>>4)%64])
}

// Map replaces sync.Map.
type Map struct {
	e []entry
	n int
	s [8]byte
}

type entry struct{ k, v interface{} }

func (m *Map) in()  { zz.SyncPoint(); zz.RaceAcquire(unsafe.Pointer(&m.s)) }
func (m *Map) out() { zz.RaceReleaseMerge(unsafe.Pointer(&m.s)) }

func (m *Map) find(k interface{}) int {
	for i := 0; i < m.n; i++ {
		if m.e[i].k == k {
			return i
		}
	}
	return -1
}

func (m *Map) put(k, v interface{}) {
	if i := m.find(k); i >= 0 {
		m.e[i].v = v
		return
	}
	if m.n == len(m.e) {
		e := make([]entry, 2*m.n+8)
		for i := 0; i < m.n; i++ {
			e[i].k = m.e[i].k
			e[i].v = m.e[i].v
		}
		m.e = e
	}
	m.e[m.n].k = k
	m.e[m.n].v = v
	m.n++
}

func (m *Map) del(i int) {
	for ; i+1 < m.n; i++ {
		m.e[i].k = m.e[i+1].k
		m.e[i].v = m.e[i+1].v
	}
	m.n--
	m.e[m.n].k = nil
	m.e[m.n].v = nil
}

//go:noinline
func (m *Map) Load(k interface{}) (v interface{}, ok bool) {
	m.in()
	defer m.out()
	if i := m.find(k); i >= 0 {
		return m.e[i].v, true
	}
	return nil, false
}

//go:noinline
func (m *Map) Store(k, v interface{}) {
	m.in()
	defer m.out()
	m.put(k, v)
}

//go:noinline
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.in()
	defer m.out()
	if i := m.find(k); i >= 0 {
		return m.e[i].v, true
	}
	m.put(k, v)
	return v, false
}

//go:noinline
func (m *Map) LoadAndDelete(k interface{}) (v interface{}, ok bool) {
	m.in()
	defer m.out()
	if i := m.find(k); i >= 0 {
		v = m.e[i].v
		m.del(i)
		return v, true
	}
	return nil, false
}

//go:noinline
func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }

//go:noinline
func (m *Map) Swap(k, v interface{}) (old interface{}, ok bool) {
	m.in()
	defer m.out()
	if i := m.find(k); i >= 0 {
		old, ok = m.e[i].v, true
	}
	m.put(k, v)
	return old, ok
}

//go:noinline
func (m *Map) CompareAndSwap(k, old, v interface{}) bool {
	m.in()
	defer m.out()
	if i := m.find(k); i >= 0 && m.e[i].v == old {
		m.e[i].v = v
		return true
	}
	return false
}

//go:noinline
func (m *Map) CompareAndDelete(k, old interface{}) bool {
	m.in()
	defer m.out()
	if i := m.find(k); i >= 0 && m.e[i].v == old {
		m.del(i)
		return true
	}
	return false
}

//go:noinline
func (m *Map) Range(f func(k, v interface{}) bool) {
	m.in()
	m.out()
	n := m.n
	e := make([]entry, n)
	for i := 0; i < n; i++ {
		e[i].k = m.e[i].k
		e[i].v = m.e[i].v
	}
	if zz.EnvPerm {
		for i := n - 1; i > 0; i-- {
			j := int(zz.EnvUint64() % uint64(i+1))
			k, v := e[i].k, e[i].v
			e[i].k, e[i].v = e[j].k, e[j].v
			e[j].k, e[j].v = k, v
		}
	}
	for i := 0; i < n; i++ {
		if v, ok := m.Load(e[i].k); ok {
			if !f(e[i].k, v) {
				return
			}
		}
	}
}

//go:noinline
func (m *Map) Clear() {
	m.in()
	defer m.out()
	m.e, m.n = nil, 0
}
