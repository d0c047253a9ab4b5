// Package xsync replaces package sync in the instrumented sources, so that a
// thread that waits for another one gives way to it.
package xsync

import (
	"sync"

	"github.com/freerware/negotiator/verifmc/sched"
)

// Types that never wait for other threads, or wait only for goroutines that
// are not scheduled.
type (
	Map       = sync.Map
	Pool      = sync.Pool
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
)

// NewCond provides a condition.
func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// Mutex is a mutex.
type Mutex struct{ m sync.Mutex }

// Lock locks the mutex.
func (m *Mutex) Lock() {
	if sched.Managed() {
		for !m.m.TryLock() {
			sched.Blocked()
			if !sched.Managed() {
				m.m.Lock()
				return
			}
		}
		return
	}
	m.m.Lock()
}

// TryLock tries to lock the mutex.
func (m *Mutex) TryLock() bool { return m.m.TryLock() }

// Unlock unlocks the mutex.
func (m *Mutex) Unlock() { m.m.Unlock() }

// RWMutex is a reader/writer mutex.
type RWMutex struct{ m sync.RWMutex }

// Lock locks the mutex for writing.
func (m *RWMutex) Lock() {
	if sched.Managed() {
		for !m.m.TryLock() {
			sched.Blocked()
			if !sched.Managed() {
				m.m.Lock()
				return
			}
		}
		return
	}
	m.m.Lock()
}

// RLock locks the mutex for reading.
func (m *RWMutex) RLock() {
	if sched.Managed() {
		for !m.m.TryRLock() {
			sched.Blocked()
			if !sched.Managed() {
				m.m.RLock()
				return
			}
		}
		return
	}
	m.m.RLock()
}

// TryLock tries to lock the mutex for writing.
func (m *RWMutex) TryLock() bool { return m.m.TryLock() }

// TryRLock tries to lock the mutex for reading.
func (m *RWMutex) TryRLock() bool { return m.m.TryRLock() }

// Unlock unlocks the mutex for writing.
func (m *RWMutex) Unlock() { m.m.Unlock() }

// RUnlock unlocks the mutex for reading.
func (m *RWMutex) RUnlock() { m.m.RUnlock() }

// RLocker provides the locker for reading.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// Once runs a function once.
type Once struct {
	m    Mutex
	done bool
}

// Do runs the function, if it is the first one.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc provides a function that runs f once.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue provides a function that runs f once.
func OnceValue[T any](f func() T) func() T {
	var (
		o Once
		v T
	)
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues provides a function that runs f once.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var (
		o Once
		v T
		u U
	)
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}
