// Package zsync stands in for sync in the instrumented packages: locks block in
// the controlled scheduler, and the real ones, never contended then, tell the
// race detector.
package zsync

import (
	"sync"

	"gopkg.in/addrs.v1/zzverif/sched"
)

type (
	Map       = sync.Map
	Pool      = sync.Pool
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
	Locker    = sync.Locker
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

type Mutex struct {
	held bool
	m    sync.Mutex
}

//go:norace
func (m *Mutex) take() bool {
	if m.held {
		return false
	}
	m.held = true
	return true
}

//go:norace
func (m *Mutex) drop() { m.held = false }

func (m *Mutex) Lock() {
	sched.P()
	for sched.Active() && !m.take() {
		sched.Wait()
	}
	m.m.Lock()
}

func (m *Mutex) TryLock() bool {
	sched.P()
	if sched.Active() && !m.take() {
		return false
	}
	return m.m.TryLock()
}

func (m *Mutex) Unlock() {
	m.m.Unlock()
	m.drop()
	sched.Wake()
	sched.P()
}

type RWMutex struct {
	writer  bool
	readers int
	m       sync.RWMutex
}

//go:norace
func (m *RWMutex) take() bool {
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

//go:norace
func (m *RWMutex) rtake() bool {
	if m.writer {
		return false
	}
	m.readers++
	return true
}

//go:norace
func (m *RWMutex) drop() { m.writer = false }

//go:norace
func (m *RWMutex) rdrop() {
	if m.readers > 0 {
		m.readers--
	}
}

func (m *RWMutex) Lock() {
	sched.P()
	for sched.Active() && !m.take() {
		sched.Wait()
	}
	m.m.Lock()
}

func (m *RWMutex) TryLock() bool {
	sched.P()
	if sched.Active() && !m.take() {
		return false
	}
	return m.m.TryLock()
}

func (m *RWMutex) Unlock() {
	m.m.Unlock()
	m.drop()
	sched.Wake()
	sched.P()
}

func (m *RWMutex) RLock() {
	sched.P()
	for sched.Active() && !m.rtake() {
		sched.Wait()
	}
	m.m.RLock()
}

func (m *RWMutex) TryRLock() bool {
	sched.P()
	if sched.Active() && !m.rtake() {
		return false
	}
	return m.m.TryRLock()
}

func (m *RWMutex) RUnlock() {
	m.m.RUnlock()
	m.rdrop()
	sched.Wake()
	sched.P()
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var w U
	return func() (T, U) {
		o.Do(func() { v, w = f() })
		return v, w
	}
}
