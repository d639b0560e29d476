// Package sync re-exports sync with locks that block on channels, so that
// testing/synctest sees a blocked goroutine as blocked and a deadlock as a
// deadlock, and with a scheduling point before every acquisition.
package sync

import (
	std "sync"

	"dripverif/shim/sched"
)

type waiter struct {
	ch    chan struct{}
	write bool
}

// RWMutex hands the lock over in arrival order; like the real one it makes new
// readers wait behind a waiting writer.
type RWMutex struct {
	mu      std.Mutex
	readers int
	writer  bool
	queue   []waiter
}

func (m *RWMutex) lock(write bool) {
	sched.Point()
	m.mu.Lock()
	if m.tryLocked(write) {
		m.mu.Unlock()
		return
	}
	w := waiter{make(chan struct{}), write}
	m.queue = append(m.queue, w)
	m.mu.Unlock()
	<-w.ch
}

func (m *RWMutex) tryLocked(write bool) bool {
	if m.writer || len(m.queue) > 0 {
		return false
	}
	if write {
		if m.readers > 0 {
			return false
		}
		m.writer = true
		return true
	}
	m.readers++
	return true
}

// pass grants the lock to those at the head of the queue.
func (m *RWMutex) pass() {
	for len(m.queue) > 0 {
		w := m.queue[0]
		if m.writer || w.write && m.readers > 0 {
			return
		}
		m.queue = m.queue[1:]
		if w.write {
			m.writer = true
		} else {
			m.readers++
		}
		close(w.ch)
	}
}

func (m *RWMutex) Lock() { m.lock(true) }
func (m *RWMutex) Unlock() {
	m.mu.Lock()
	if !m.writer {
		m.mu.Unlock()
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.pass()
	m.mu.Unlock()
	sched.Point()
}
func (m *RWMutex) RLock() { m.lock(false) }
func (m *RWMutex) RUnlock() {
	m.mu.Lock()
	if m.readers == 0 {
		m.mu.Unlock()
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.pass()
	m.mu.Unlock()
	sched.Point()
}
func (m *RWMutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.tryLocked(true)
}
func (m *RWMutex) TryRLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.tryLocked(false)
}
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Mutex struct{ rw RWMutex }

func (m *Mutex) Lock()         { m.rw.lock(true) }
func (m *Mutex) Unlock()       { m.rw.Unlock() }
func (m *Mutex) TryLock() bool { return m.rw.TryLock() }

type Once struct {
	mu   Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}
