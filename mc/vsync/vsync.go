package vsync

import (
	"sync"
	"unsafe"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// The functions below are the scheduler's view of a lock; the exported methods add the race annotations.

//go:norace
func lockW(l *lockState) {
	yield()
	l.fresh()
	if !l.writer && l.readers == 0 {
		l.writer = true
		return
	}
	l.pending++
	if !block(l, waitWrite) {
		panic("vsync: Lock of a locked mutex outside of an exploration")
	}
}

//go:norace
func tryW(l *lockState) bool {
	yield()
	l.fresh()
	if l.writer || l.readers != 0 || l.pending != 0 {
		return false
	}
	l.writer = true
	return true
}

//go:norace
func unlockW(l *lockState) {
	l.fresh()
	if !l.writer {
		panic("sync: unlock of unlocked mutex")
	}
	l.writer = false
	// readers that wait go before the next writer
	if e := active; e != nil {
		for i := 0; i < e.n; i++ {
			if t := &e.threads[i]; t.state == waitRead && t.lock == l {
				t.state = runnable
				l.readers++
			}
		}
	}
}

//go:norace
func lockR(l *lockState) {
	yield()
	l.fresh()
	if !l.writer && l.pending == 0 {
		l.readers++
		return
	}
	if !block(l, waitRead) {
		panic("vsync: RLock of a locked mutex outside of an exploration")
	}
}

//go:norace
func tryR(l *lockState) bool {
	yield()
	l.fresh()
	if l.writer || l.pending != 0 {
		return false
	}
	l.readers++
	return true
}

//go:norace
func unlockR(l *lockState) {
	l.fresh()
	if l.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	l.readers--
}

// Mutex is sync.Mutex.
type Mutex struct{ l lockState }

func (m *Mutex) Lock() { lockW(&m.l); raceAcquire(addr(&m.l)) }
func (m *Mutex) TryLock() bool {
	ok := tryW(&m.l)
	if ok {
		raceAcquire(addr(&m.l))
	}
	return ok
}

// No scheduling point follows a release: releases move left, and the race detector judges what comes after.
func (m *Mutex) Unlock() { raceRelease(addr(&m.l)); unlockW(&m.l) }

// RWMutex is sync.RWMutex.
type RWMutex struct {
	l   lockState
	rel byte // address for readers' releases
}

func (m *RWMutex) r() unsafe.Pointer { return unsafe.Pointer(&m.rel) }

func (m *RWMutex) Lock() {
	lockW(&m.l)
	raceAcquire(addr(&m.l))
	raceAcquire(m.r())
}
func (m *RWMutex) TryLock() bool {
	ok := tryW(&m.l)
	if ok {
		raceAcquire(addr(&m.l))
		raceAcquire(m.r())
	}
	return ok
}
func (m *RWMutex) Unlock() { raceRelease(addr(&m.l)); unlockW(&m.l) }
func (m *RWMutex) RLock()  { lockR(&m.l); raceAcquire(addr(&m.l)) }
func (m *RWMutex) TryRLock() bool {
	ok := tryR(&m.l)
	if ok {
		raceAcquire(addr(&m.l))
	}
	return ok
}
func (m *RWMutex) RUnlock() { raceReleaseMerge(m.r()); unlockR(&m.l) }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// RLocker is like the one of sync.RWMutex.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
}

//go:norace
func (o *Once) isDone() bool { return o.done }

//go:norace
func (o *Once) setDone() { o.done = true }

func (o *Once) Do(f func()) {
	yield()
	if o.isDone() {
		raceAcquire(addr(&o.m.l))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.setDone()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct{ l lockState }

//go:norace
func (g *WaitGroup) add(n int) {
	g.l.fresh()
	g.l.count += n
	if g.l.count < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

//go:norace
func (g *WaitGroup) wait() {
	yield()
	g.l.fresh()
	if g.l.count > 0 && !block(&g.l, waitGroup) {
		panic("vsync: WaitGroup.Wait outside of an exploration")
	}
}

func (g *WaitGroup) Add(n int) {
	if n < 0 {
		raceReleaseMerge(addr(&g.l))
	}
	g.add(n)
	yield()
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() { g.wait(); raceAcquire(addr(&g.l)) }

// Cond is sync.Cond.
type Cond struct {
	L Locker
	l lockState
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) wait() {
	if !block(&c.l, waitCond) {
		panic("vsync: Cond.Wait outside of an exploration")
	}
}

//go:norace
func (c *Cond) signal() {
	e := active
	if e == nil {
		return
	}
	var w [maxThreads]int
	n := 0
	for i := 0; i < e.n; i++ {
		if t := &e.threads[i]; t.state == waitCond && t.lock == &c.l {
			w[n] = i
			n++
		}
	}
	if n > 0 {
		e.threads[w[e.choose(n)]].state = runnable
	}
}

func (c *Cond) Wait() {
	c.L.Unlock()
	c.wait()
	c.L.Lock()
}
func (c *Cond) Signal()    { c.signal(); yield() }
func (c *Cond) Broadcast() { wake(waitCond, &c.l); yield() }

// poolEntry is an object held by a pool.
type poolEntry struct{ x interface{} }

const poolSize = 64

// Pool is sync.Pool: it may hand out any object it holds, or none.
type Pool struct {
	New func() interface{}

	epoch uint64
	n     int
	items [poolSize]*poolEntry
}

//go:norace
func (p *Pool) take() *poolEntry {
	yield()
	if p.epoch != epoch {
		p.epoch, p.n = epoch, 0
	}
	if p.n == 0 {
		return nil
	}
	k := 0
	if e := active; e != nil && e.odd != 0 {
		k = e.choose(p.n + 1)
		if e.aborting {
			e.exitAll()
		}
		if k > 0 && e.odd > 0 {
			e.odd--
		}
	}
	if k == p.n {
		return nil
	}
	// newest first
	i := p.n - 1 - k
	it := p.items[i]
	for ; i+1 < p.n; i++ {
		p.items[i] = p.items[i+1]
	}
	p.n--
	p.items[p.n] = nil
	return it
}

//go:norace
func (p *Pool) keep(it *poolEntry) {
	if p.epoch != epoch {
		p.epoch, p.n = epoch, 0
	}
	if p.n < poolSize {
		p.items[p.n] = it
		p.n++
	}
}

func (p *Pool) Get() interface{} {
	if it := p.take(); it != nil {
		raceAcquire(unsafe.Pointer(it))
		return it.x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	it := &poolEntry{x}
	raceReleaseMerge(unsafe.Pointer(it))
	p.keep(it)
	yield()
}

// Map is sync.Map: every operation is one step.
type Map struct {
	m Mutex
	v sync.Map
}

func (m *Map) step() { yield(); raceAcquire(addr(&m.m.l)) }
func (m *Map) end()  { raceReleaseMerge(addr(&m.m.l)) }

func (m *Map) Load(k any) (any, bool)           { m.step(); return m.v.Load(k) }
func (m *Map) Store(k, v any)                   { m.step(); m.end(); m.v.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { m.step(); m.end(); return m.v.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { m.step(); m.end(); return m.v.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { m.step(); m.end(); m.v.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { m.step(); m.end(); return m.v.Swap(k, v) }
func (m *Map) CompareAndSwap(k, a, b any) bool  { m.step(); m.end(); return m.v.CompareAndSwap(k, a, b) }
func (m *Map) CompareAndDelete(k, a any) bool   { m.step(); m.end(); return m.v.CompareAndDelete(k, a) }
func (m *Map) Clear()                           { m.step(); m.end(); m.v.Clear() }
func (m *Map) Range(f func(k, v any) bool)      { m.step(); m.v.Range(f) }
