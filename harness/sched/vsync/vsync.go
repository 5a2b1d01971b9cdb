// Package vsync is the package sync for code under the scheduler: a thread that waits lets others go on.
package vsync

import (
	"sync"
	"time"
	"unsafe"

	"tslverif/sched"
)

type (
	Map    = sync.Map
	Locker = sync.Locker
)

// WaitGroup is as in sync. What it waits for may be out of the control of the scheduler.
type WaitGroup struct{ w sync.WaitGroup }

func (w *WaitGroup) Add(n int)   { sched.Enter(); w.w.Add(n) }
func (w *WaitGroup) Done()       { sched.Enter(); w.w.Done() }
func (w *WaitGroup) Wait()       { sched.Enter(); sched.MayBlock(); w.w.Wait(); sched.Enter() }
func (w *WaitGroup) Go(f func()) { sched.Spawned(); w.w.Go(f) }

// Pool is as in sync. It gives what was put last, and forgets nothing.
type Pool struct {
	New  func() any
	m    sync.Mutex
	free []any
}

func (p *Pool) Put(x any) {
	sched.Enter()
	if x == nil {
		return
	}
	p.m.Lock()
	p.free = append(p.free, x)
	p.m.Unlock()
	sched.Enter()
}

func (p *Pool) Get() any {
	sched.Enter()
	var x any
	p.m.Lock()
	if k := len(p.free); k > 0 {
		x, p.free = p.free[k-1], p.free[:k-1]
	}
	p.m.Unlock()
	if x == nil && p.New != nil {
		x = p.New()
	}
	return x
}

// Cond is as in sync.
type Cond struct {
	L     Locker
	m     sync.Mutex
	queue []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	called := new(bool)
	c.m.Lock()
	c.queue = append(c.queue, called)
	c.m.Unlock()
	c.L.Unlock()
	for {
		c.m.Lock()
		ok := *called
		c.m.Unlock()
		if ok {
			break
		}
		if sched.Controlled() {
			sched.Block(unsafe.Pointer(c))
		} else {
			time.Sleep(100 * time.Microsecond)
		}
	}
	c.L.Lock()
}

func (c *Cond) call(all bool) {
	c.m.Lock()
	for len(c.queue) > 0 {
		*c.queue[0] = true
		c.queue = c.queue[1:]
		if !all {
			break
		}
	}
	c.m.Unlock()
	sched.Wake(unsafe.Pointer(c))
	sched.Enter()
}

func (c *Cond) Signal()    { c.call(false) }
func (c *Cond) Broadcast() { c.call(true) }

// Mutex is a mutex.
type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	if !sched.Controlled() {
		m.m.Lock()
		return
	}
	sched.Enter()
	for !m.m.TryLock() {
		sched.Block(unsafe.Pointer(m))
	}
}

func (m *Mutex) TryLock() bool { sched.Enter(); return m.m.TryLock() }

func (m *Mutex) Unlock() {
	m.m.Unlock()
	sched.Wake(unsafe.Pointer(m))
	sched.Enter()
}

// RWMutex is a mutex with readers.
type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	if !sched.Controlled() {
		m.m.Lock()
		return
	}
	sched.Enter()
	for !m.m.TryLock() {
		sched.Block(unsafe.Pointer(m))
	}
}

func (m *RWMutex) TryLock() bool { sched.Enter(); return m.m.TryLock() }

func (m *RWMutex) Unlock() {
	m.m.Unlock()
	sched.Wake(unsafe.Pointer(m))
	sched.Enter()
}

func (m *RWMutex) RLock() {
	if !sched.Controlled() {
		m.m.RLock()
		return
	}
	sched.Enter()
	for !m.m.TryRLock() {
		sched.Block(unsafe.Pointer(m))
	}
}

func (m *RWMutex) TryRLock() bool { sched.Enter(); return m.m.TryRLock() }

func (m *RWMutex) RUnlock() {
	m.m.RUnlock()
	sched.Wake(unsafe.Pointer(m))
	sched.Enter()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is as in sync.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is as in sync.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}
