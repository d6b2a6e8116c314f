// Package sync stands in for the standard package in instrumented code: every operation is a scheduling point
// of vsched, and blocking is known to it.
package sync

import (
	"sync"

	"verifharness/vsched"
)

type (
	Locker    = sync.Locker
	Map       = sync.Map
	Pool      = sync.Pool
	Cond      = sync.Cond
	WaitGroup = sync.WaitGroup
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

type noCopy struct{}

func (*noCopy) Lock()   {}
func (*noCopy) Unlock() {}

type Mutex struct {
	_      noCopy
	locked bool
}

func (m *Mutex) Lock() {
	vsched.Block(func() bool { return !m.locked })
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	vsched.Yield()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
}

type RWMutex struct {
	_       noCopy
	writer  bool
	waiting int // writers waiting: they keep new readers out
	readers int
}

func (m *RWMutex) Lock() {
	m.waiting++
	vsched.Block(func() bool { return !m.writer && m.readers == 0 })
	m.waiting--
	m.writer = true
}

func (m *RWMutex) TryLock() bool {
	vsched.Yield()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Unlock() {
	if !m.writer {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
}

func (m *RWMutex) RLock() {
	vsched.Yield()
	vsched.Block(func() bool { return !m.writer && m.waiting == 0 })
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	vsched.Yield()
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	vsched.Yield()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}
