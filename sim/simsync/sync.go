// Package simsync replaces package sync for instrumented code.
package simsync

import (
	"sync"
	"unsafe"

	"verif/sim"
)

type Locker = sync.Locker

// Mutex behaves like sync.Mutex: an unlock wakes one waiter, which competes with
// newcomers until it has lost several times and is then handed the lock.
type Mutex struct {
	locked bool
	handed *sim.Task
	waitq  []*mwait
}

type mwait struct {
	t     *sim.Task
	tries int
}

func (m *Mutex) Lock() {
	sim.Step(20)
	if sim.Cur() == nil {
		m.locked = true
		return
	}
	m.lockSlow()
	sim.RaceAcquire(unsafe.Pointer(m))
}

func (m *Mutex) lockSlow() {
	var w *mwait
	for {
		if !m.locked {
			m.locked = true
			return
		}
		if w == nil {
			w = &mwait{t: sim.Cur()}
			m.waitq = append(m.waitq, w)
		} else {
			w.tries++
			m.waitq = sim.Insert(m.waitq, 0, w)
		}
		sim.Park("mutex lock")
		if m.handed == w.t {
			m.handed = nil
			return // still locked, now ours
		}
	}
}

func (m *Mutex) TryLock() bool {
	sim.Step(21)
	if m.locked {
		return false
	}
	m.locked = true
	sim.RaceAcquire(unsafe.Pointer(m))
	return true
}

func (m *Mutex) Unlock() {
	sim.Step(22)
	if sim.Cur() == nil {
		m.locked = false
		return
	}
	if !m.locked {
		if sim.Killing() {
			return
		}
		sim.Fail("crash", "fatal error: sync: unlock of unlocked mutex")
	}
	sim.RaceRelease(unsafe.Pointer(m))
	if len(m.waitq) > 0 {
		w := m.waitq[0]
		m.waitq = m.waitq[1:]
		if w.tries >= 4 {
			m.handed = w.t // stays locked for the new owner
		} else {
			m.locked = false
		}
		sim.Ready(w.t)
		return
	}
	m.locked = false
}

// RWMutex: a waiting writer keeps new readers out; when a writer leaves, the
// readers that were waiting get in before the next writer.
type RWMutex struct {
	readers int
	writer  bool
	pending bool // a writer announced itself and waits for readers to leave
	rwait   []*rwait
	wwait   []*sim.Task
	pendT   *sim.Task
	tokR    byte
	tokW    byte
}

type rwait struct {
	t       *sim.Task
	granted bool
}

func (m *RWMutex) RLock() {
	sim.Step(23)
	if sim.Cur() == nil {
		m.readers++
		return
	}
	if !m.writer && !m.pending {
		m.readers++
	} else {
		w := &rwait{t: sim.Cur()}
		m.rwait = append(m.rwait, w)
		for !w.granted {
			sim.Park("rwmutex rlock")
		}
	}
	sim.RaceAcquire(unsafe.Pointer(&m.tokR))
}

func (m *RWMutex) TryRLock() bool {
	sim.Step(24)
	if m.writer || m.pending {
		return false
	}
	m.readers++
	sim.RaceAcquire(unsafe.Pointer(&m.tokR))
	return true
}

func (m *RWMutex) RUnlock() {
	sim.Step(25)
	if m.readers == 0 {
		if sim.Killing() {
			return
		}
		sim.Fail("crash", "fatal error: sync: RUnlock of unlocked RWMutex")
	}
	sim.RaceReleaseMerge(unsafe.Pointer(&m.tokW))
	m.readers--
	if m.readers == 0 && m.pending && m.pendT != nil {
		t := m.pendT
		m.pendT = nil
		sim.Ready(t)
	}
}

func (m *RWMutex) Lock() {
	sim.Step(26)
	if sim.Cur() == nil {
		m.writer = true
		return
	}
	for m.writer || m.pending {
		m.wwait = append(m.wwait, sim.Cur())
		sim.Park("rwmutex lock")
	}
	m.pending = true
	for m.readers > 0 {
		m.pendT = sim.Cur()
		sim.Park("rwmutex lock (waiting for readers)")
	}
	m.pending = false
	m.writer = true
	sim.RaceAcquire(unsafe.Pointer(&m.tokR))
	sim.RaceAcquire(unsafe.Pointer(&m.tokW))
}

func (m *RWMutex) TryLock() bool {
	sim.Step(27)
	if m.writer || m.pending || m.readers > 0 {
		return false
	}
	m.writer = true
	sim.RaceAcquire(unsafe.Pointer(&m.tokR))
	sim.RaceAcquire(unsafe.Pointer(&m.tokW))
	return true
}

func (m *RWMutex) Unlock() {
	sim.Step(28)
	if !m.writer {
		if sim.Killing() {
			return
		}
		sim.Fail("crash", "fatal error: sync: Unlock of unlocked RWMutex")
	}
	sim.RaceRelease(unsafe.Pointer(&m.tokR))
	m.writer = false
	for _, w := range m.rwait {
		w.granted = true
		m.readers++
		if sim.Cur() != nil {
			sim.Ready(w.t)
		}
	}
	m.rwait = nil
	if len(m.wwait) > 0 {
		t := m.wwait[0]
		m.wwait = m.wwait[1:]
		sim.Ready(t)
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once.
type Once struct {
	done byte
	m    Mutex
}

func (o *Once) Do(f func()) {
	sim.Step(29)
	if o.done == 1 {
		sim.RaceAcquire(unsafe.Pointer(&o.done))
		return
	}
	o.slow(f)
}

func (o *Once) slow(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if o.done == 0 {
		defer func() {
			sim.Step(30)
			sim.RaceReleaseMerge(unsafe.Pointer(&o.done))
			o.done = 1
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var once Once
	valid := false
	var p any
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		f()
		f = nil
		valid = true
	}
	return func() {
		once.Do(g)
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var v T
	g := OnceFunc(func() { v = f() })
	return func() T { g(); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var a T1
	var b T2
	g := OnceFunc(func() { a, b = f() })
	return func() (T1, T2) { g(); return a, b }
}

// WaitGroup.
type WaitGroup struct {
	n    int
	wait []*sim.Task
	tok  byte
}

func (g *WaitGroup) Add(d int) {
	sim.Step(31)
	if d < 0 {
		sim.RaceReleaseMerge(unsafe.Pointer(&g.tok))
	}
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		for _, t := range g.wait {
			sim.Ready(t)
		}
		g.wait = nil
	}
}

func (g *WaitGroup) Done() { g.Add(-1) }

func (g *WaitGroup) Wait() {
	sim.Step(32)
	if g.n > 0 {
		t := sim.Cur()
		g.wait = append(g.wait, t)
		sim.Park("waitgroup wait")
	}
	sim.RaceAcquire(unsafe.Pointer(&g.tok))
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	sim.Go("WaitGroup.Go", func() {
		defer g.Done()
		f()
	})
}

// Cond.
type Cond struct {
	L    Locker
	wait []*cwait
}

type cwait struct {
	t    *sim.Task
	woke bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	w := &cwait{t: sim.Cur()}
	c.wait = append(c.wait, w)
	c.L.Unlock()
	for !w.woke {
		sim.Park("cond wait")
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	sim.Step(33)
	if len(c.wait) > 0 {
		w := c.wait[0]
		c.wait = c.wait[1:]
		w.woke = true
		sim.Ready(w.t)
	}
}

func (c *Cond) Broadcast() {
	sim.Step(34)
	for _, w := range c.wait {
		w.woke = true
		sim.Ready(w.t)
	}
	c.wait = nil
}

// Pool: what Get returns is decided by the simulator. A simulated garbage
// collection may empty it at any time.
type Pool struct {
	New   func() any
	items []*pitem
	w     *sim.World
}

type pitem struct {
	v   any
	tok byte
}

// Pool modes (sim.Config.PoolMode).
const (
	PoolLIFO  = iota // the usual case: most recently put object first
	PoolAny          // any pooled object, sometimes none
	PoolFIFO         // oldest object first
	PoolEmpty        // never an object
)

func (p *Pool) attach() *sim.World {
	w := sim.Active()
	if p.w != w {
		p.items = nil
		p.w = w
		if w != nil {
			w.OnGC = append(w.OnGC, func() {
				if len(p.items) > 0 {
					p.items = nil
				}
			})
		}
	}
	return w
}

func (p *Pool) Get() any {
	sim.Step(35)
	w := p.attach()
	if w != nil && len(p.items) > 0 {
		n := len(p.items)
		i := n - 1
		switch w.Cfg.PoolMode {
		case PoolAny:
			i = w.F.Int(n + 1) // 0: newest, ..., n: miss
			i = n - 1 - i
			if i != n-1 {
				w.Faults.Add("pool-reorder", 1)
			}
		case PoolFIFO:
			i = 0
		case PoolEmpty:
			i = -1
		}
		if i < 0 {
			w.Faults.Add("pool-miss", 1)
			if w.Cfg.PoolMode == PoolAny && w.F.Int(8) == 7 {
				w.Faults.Add("gc-purge", 1)
				p.items = nil
			}
		} else {
			it := p.items[i]
			p.items = sim.Remove(p.items, i)
			sim.RaceAcquire(unsafe.Pointer(&it.tok))
			sim.Probe("pool-recycled")
			return it.v
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	sim.Step(36)
	w := p.attach()
	if w == nil || w.Cfg.PoolMode == PoolEmpty {
		return
	}
	it := &pitem{v: x}
	sim.RaceRelease(unsafe.Pointer(&it.tok))
	p.items = append(p.items, it)
}

// Map is a linearizable map; Range visits in an order drawn by the simulator.
type Map struct {
	keys []any
	vals []any
	tok  byte
}

func (m *Map) acq() { sim.RaceAcquire(unsafe.Pointer(&m.tok)) }
func (m *Map) rel() { sim.RaceReleaseMerge(unsafe.Pointer(&m.tok)) }

func (m *Map) find(k any) int {
	for i := range m.keys {
		if m.keys[i] == k {
			return i
		}
	}
	return -1
}

func (m *Map) get(k any) (any, bool) {
	if i := m.find(k); i >= 0 {
		return m.vals[i], true
	}
	return nil, false
}

func (m *Map) set(k, v any) {
	if i := m.find(k); i >= 0 {
		m.vals[i] = v
		return
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
}

func (m *Map) del(k any) {
	if i := m.find(k); i >= 0 {
		m.keys = sim.Remove(m.keys, i)
		m.vals = sim.Remove(m.vals, i)
	}
}

func (m *Map) Load(k any) (any, bool) {
	sim.Step(37)
	m.acq()
	v, ok := m.get(k)
	return v, ok
}

func (m *Map) Store(k, v any) {
	sim.Step(38)
	m.acq()
	m.rel()
	m.set(k, v)
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	sim.Step(39)
	m.acq()
	if x, ok := m.get(k); ok {
		return x, true
	}
	m.rel()
	m.set(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	sim.Step(40)
	m.acq()
	x, ok := m.get(k)
	if ok {
		m.rel()
		m.del(k)
	}
	return x, ok
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) Swap(k, v any) (any, bool) {
	sim.Step(41)
	m.acq()
	m.rel()
	x, ok := m.get(k)
	m.set(k, v)
	return x, ok
}

func (m *Map) CompareAndSwap(k, old, new any) bool {
	sim.Step(42)
	m.acq()
	if x, ok := m.get(k); !ok || x != old {
		return false
	}
	m.rel()
	m.set(k, new)
	return true
}

func (m *Map) CompareAndDelete(k, old any) bool {
	sim.Step(43)
	m.acq()
	if x, ok := m.get(k); !ok || x != old {
		return false
	}
	m.rel()
	m.del(k)
	return true
}

func (m *Map) Clear() {
	sim.Step(44)
	m.acq()
	m.rel()
	m.vals, m.keys = nil, nil
}

func (m *Map) Range(f func(k, v any) bool) {
	sim.Step(45)
	keys := sim.Concat(m.keys, nil)
	if w := sim.Active(); w != nil {
		for i := len(keys) - 1; i > 0; i-- {
			j := w.Rand.Intn(i + 1)
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	for _, k := range keys {
		v, ok := m.Load(k)
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}
