// Package simsync stands in for package sync in instrumented code. Locks are decided by
// the simulator's scheduler; in race builds a real lock is taken as well once the
// simulated one has been granted, so that the race detector sees the same ordering.
package simsync

import (
	"sync"
	"sync/atomic"

	"inisim/simrt"
)

type (
	// Map is sync.Map.
	Map = sync.Map
	// Locker is sync.Locker.
	Locker = sync.Locker
)

// Misuse is the panic value for what the real package treats as a fatal error.
type Misuse string

type queue struct {
	n  int
	id [simrt.MaxTasks]int
}

//go:norace
func (q *queue) add(id int) {
	q.id[q.n] = id
	q.n++
}

//go:norace
func (q *queue) wakeAll() {
	for i := 0; i < q.n; i++ {
		simrt.Wake(q.id[i])
	}
	q.n = 0
}

// Stats of lock operations in this process.
var Contended int64

// Mutex is a simulated sync.Mutex.
type Mutex struct {
	held bool
	q    queue
	real sync.Mutex
}

//go:norace
func (m *Mutex) acquire() {
	for m.held {
		Contended++
		m.q.add(simrt.Cur())
		simrt.Block()
		if simrt.Aborting() {
			return
		}
	}
	m.held = true
}

//go:norace
func (m *Mutex) try() bool {
	if m.held {
		return false
	}
	m.held = true
	return true
}

//go:norace
func (m *Mutex) release() bool {
	if !m.held {
		return false
	}
	m.held = false
	m.q.wakeAll()
	return true
}

// Lock locks m.
func (m *Mutex) Lock() {
	if !simrt.Active() {
		if !m.try() {
			panic(Misuse("deadlock: lock is held"))
		}
		m.real.Lock()
		return
	}
	if simrt.Aborting() {
		return
	}
	simrt.Yield(1<<26 + 1)
	m.acquire()
	if simrt.RaceBuild && !simrt.Aborting() {
		m.real.Lock()
	}
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	simrt.Yield(1<<26 + 2)
	if simrt.Aborting() {
		return true
	}
	if !m.try() {
		return false
	}
	if simrt.RaceBuild || !simrt.Active() {
		m.real.Lock()
	}
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	if simrt.Active() && simrt.Aborting() {
		return
	}
	if !m.isHeld() {
		panic(Misuse("sync: unlock of unlocked mutex"))
	}
	if simrt.RaceBuild || !simrt.Active() {
		m.real.Unlock()
	}
	m.release()
	simrt.Yield(1<<26 + 3)
}

//go:norace
func (m *Mutex) isHeld() bool { return m.held }

// RWMutex is a simulated sync.RWMutex: as in Go, a waiting writer keeps new readers out.
type RWMutex struct {
	w       bool // a writer holds or awaits the lock
	held    bool // a writer holds the lock
	pending int  // task awaiting the readers
	readers int
	rq, wq  queue
	real    sync.RWMutex
}

//go:norace
func (m *RWMutex) lock() {
	for m.w {
		Contended++
		m.wq.add(simrt.Cur())
		simrt.Block()
		if simrt.Aborting() {
			return
		}
	}
	m.w = true
	if m.readers == 0 {
		m.held = true
		return
	}
	Contended++
	m.pending = simrt.Cur()
	for !m.held {
		simrt.Block()
		if simrt.Aborting() {
			return
		}
	}
}

//go:norace
func (m *RWMutex) tryLock() bool {
	if m.w || m.readers > 0 {
		return false
	}
	m.w, m.held = true, true
	return true
}

//go:norace
func (m *RWMutex) unlock() {
	m.held = false
	m.readers += m.rq.n
	m.rq.wakeAll()
	m.w = false
	m.wq.wakeAll()
}

//go:norace
func (m *RWMutex) rlock() {
	if !m.w {
		m.readers++
		return
	}
	Contended++
	m.rq.add(simrt.Cur())
	simrt.Block() // woken with the lock granted
}

//go:norace
func (m *RWMutex) tryRLock() bool {
	if m.w {
		return false
	}
	m.readers++
	return true
}

//go:norace
func (m *RWMutex) runlock() {
	m.readers--
	if m.w && !m.held && m.readers == 0 {
		m.held = true
		simrt.Wake(m.pending)
	}
}

//go:norace
func (m *RWMutex) isHeld() bool { return m.held }

//go:norace
func (m *RWMutex) isRHeld() bool { return m.readers > 0 }

// Lock locks m for writing.
func (m *RWMutex) Lock() {
	if !simrt.Active() {
		if !m.tryLock() {
			panic(Misuse("deadlock: lock is held"))
		}
		m.real.Lock()
		return
	}
	if simrt.Aborting() {
		return
	}
	simrt.Yield(1<<26 + 4)
	m.lock()
	if simrt.RaceBuild && !simrt.Aborting() {
		m.real.Lock()
	}
}

// TryLock tries to lock m for writing.
func (m *RWMutex) TryLock() bool {
	simrt.Yield(1<<26 + 5)
	if simrt.Aborting() {
		return true
	}
	if !m.tryLock() {
		return false
	}
	if simrt.RaceBuild || !simrt.Active() {
		m.real.Lock()
	}
	return true
}

// Unlock undoes Lock.
func (m *RWMutex) Unlock() {
	if simrt.Active() && simrt.Aborting() {
		return
	}
	if !m.isHeld() {
		panic(Misuse("sync: Unlock of unlocked RWMutex"))
	}
	if simrt.RaceBuild || !simrt.Active() {
		m.real.Unlock()
	}
	m.unlock()
	simrt.Yield(1<<26 + 6)
}

// RLock locks m for reading.
func (m *RWMutex) RLock() {
	if !simrt.Active() {
		if !m.tryRLock() {
			panic(Misuse("deadlock: lock is held"))
		}
		m.real.RLock()
		return
	}
	if simrt.Aborting() {
		return
	}
	simrt.Yield(1<<26 + 7)
	m.rlock()
	if simrt.RaceBuild && !simrt.Aborting() {
		m.real.RLock()
	}
}

// TryRLock tries to lock m for reading.
func (m *RWMutex) TryRLock() bool {
	simrt.Yield(1<<26 + 8)
	if simrt.Aborting() {
		return true
	}
	if !m.tryRLock() {
		return false
	}
	if simrt.RaceBuild || !simrt.Active() {
		m.real.RLock()
	}
	return true
}

// RUnlock undoes RLock.
func (m *RWMutex) RUnlock() {
	if simrt.Active() && simrt.Aborting() {
		return
	}
	if !m.isRHeld() {
		panic(Misuse("sync: RUnlock of unlocked RWMutex"))
	}
	if simrt.RaceBuild || !simrt.Active() {
		m.real.RUnlock()
	}
	m.runlock()
	simrt.Yield(1<<26 + 9)
}

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once is a simulated sync.Once.
type Once struct {
	done atomic.Bool
	m    Mutex
}

// Do calls f on the first call only.
func (o *Once) Do(f func()) {
	simrt.Yield(1<<26 + 10)
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// WaitGroup is a simulated sync.WaitGroup.
type WaitGroup struct {
	n atomic.Int64
	q queue
}

// Add adds to the counter.
func (w *WaitGroup) Add(d int) {
	n := w.n.Add(int64(d))
	if n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if n == 0 {
		w.q.wakeAll()
	}
	simrt.Yield(1<<26 + 11)
}

// Done decrements the counter.
func (w *WaitGroup) Done() { w.Add(-1) }

// Go runs f as a task.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

// Wait waits for the counter to be zero.
func (w *WaitGroup) Wait() {
	simrt.Yield(1<<26 + 12)
	for w.n.Load() > 0 {
		if simrt.Aborting() {
			return
		}
		w.q.add(simrt.Cur())
		simrt.Block()
	}
}

// Cond is a simulated sync.Cond.
type Cond struct {
	L    Locker
	g    atomic.Int64
	q    queue
	wait [simrt.MaxTasks]bool
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for a signal.
func (c *Cond) Wait() {
	c.enqueue()
	c.L.Unlock()
	c.block()
	c.g.Load()
	c.L.Lock()
}

//go:norace
func (c *Cond) enqueue() {
	c.q.add(simrt.Cur())
	c.wait[simrt.Cur()] = true
}

//go:norace
func (c *Cond) block() {
	for me := simrt.Cur(); c.wait[me] && !simrt.Aborting(); {
		simrt.Block()
	}
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	c.g.Add(1)
	c.wake(1)
	simrt.Yield(1<<26 + 13)
}

//go:norace
func (c *Cond) wake(n int) {
	for ; n > 0 && c.q.n > 0; n-- {
		id := c.q.id[0]
		for i := 1; i < c.q.n; i++ {
			c.q.id[i-1] = c.q.id[i]
		}
		c.q.n--
		c.wait[id] = false
		simrt.Wake(id)
	}
}

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() {
	c.g.Add(1)
	c.wake(1 << 30)
	simrt.Yield(1<<26 + 14)
}

// Pool is a sync.Pool that always hands out what was put last, and forgets
// everything between runs.
type Pool struct {
	New   func() any
	epoch int
	n     int
	slots [16]slot
}

type slot struct {
	mu sync.Mutex
	x  any
}

//go:norace
func (p *Pool) push() *slot {
	if e := simrt.Epoch(); p.epoch != e {
		p.epoch, p.n = e, 0
	}
	if p.n == len(p.slots) {
		return nil
	}
	p.n++
	return &p.slots[p.n-1]
}

//go:norace
func (p *Pool) pop() *slot {
	if e := simrt.Epoch(); p.epoch != e {
		p.epoch, p.n = e, 0
	}
	if p.n == 0 {
		return nil
	}
	p.n--
	return &p.slots[p.n]
}

// Put adds x to the pool.
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	simrt.Yield(1<<26 + 15)
	if s := p.push(); s != nil {
		s.mu.Lock()
		s.x = x
		s.mu.Unlock()
	}
}

// Get takes an object from the pool.
func (p *Pool) Get() any {
	simrt.Yield(1<<26 + 16)
	if s := p.pop(); s != nil {
		s.mu.Lock()
		x := s.x
		s.x = nil
		s.mu.Unlock()
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
