// Package vsync stands in for package sync in instrumented code: the same types, with blocking made visible to
// vsched. Each type also performs the real operation, which never blocks, so that the race detector sees the
// happens-before edges of the code under test.
package vsync

import (
	"sync"

	"verif/mc/vsched"
)

// Locker, Pool, Cond and Map as in sync.
type (
	Locker = sync.Locker
	Pool   = sync.Pool
)

// NewCond is not supported under the scheduler.
var NewCond = sync.NewCond

// Cond as in sync.
type Cond = sync.Cond

// Mutex is a mutual exclusion lock.
type Mutex struct {
	st   lockState
	real sync.Mutex
}

type lockState struct {
	writer  bool
	readers int
}

//go:norace
func (l *lockState) canLock() bool { return !l.writer && l.readers == 0 }

//go:norace
func (l *lockState) canRLock() bool { return !l.writer }

//go:norace
func (l *lockState) lock() { l.writer = true }

//go:norace
func (l *lockState) unlock() { l.writer = false }

//go:norace
func (l *lockState) rlock() { l.readers++ }

//go:norace
func (l *lockState) runlock() { l.readers-- }

//go:norace
func (l *lockState) held() bool { return l.writer }

//go:norace
func (l *lockState) rheld() bool { return l.readers > 0 }

// Lock locks m.
func (m *Mutex) Lock() {
	if vsched.Aborting() {
		return
	}
	vsched.Block(m.st.canLock)
	if !vsched.Active() {
		m.real.Lock()
		m.st.lock()
		return
	}
	m.st.lock()
	m.real.Lock()
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	if vsched.Aborting() {
		return true
	}
	vsched.Point()
	if !m.st.canLock() {
		return false
	}
	m.st.lock()
	m.real.Lock()
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	if vsched.Aborting() {
		return
	}
	vsched.Point()
	if !m.st.held() {
		panic("sync: unlock of unlocked mutex")
	}
	m.st.unlock()
	m.real.Unlock()
}

// RWMutex is a reader/writer lock.
type RWMutex struct {
	st   lockState
	real sync.RWMutex
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	if vsched.Aborting() {
		return
	}
	vsched.Block(m.st.canLock)
	if !vsched.Active() {
		m.real.Lock()
		m.st.lock()
		return
	}
	m.st.lock()
	m.real.Lock()
}

// Unlock undoes Lock.
func (m *RWMutex) Unlock() {
	if vsched.Aborting() {
		return
	}
	vsched.Point()
	if !m.st.held() {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.st.unlock()
	m.real.Unlock()
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	if vsched.Aborting() {
		return
	}
	vsched.Block(m.st.canRLock)
	if !vsched.Active() {
		m.real.RLock()
		m.st.rlock()
		return
	}
	m.st.rlock()
	m.real.RLock()
}

// RUnlock undoes RLock.
func (m *RWMutex) RUnlock() {
	if vsched.Aborting() {
		return
	}
	vsched.Point()
	if !m.st.rheld() {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.st.runlock()
	m.real.RUnlock()
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	if vsched.Aborting() {
		return true
	}
	vsched.Point()
	if !m.st.canLock() {
		return false
	}
	m.st.lock()
	m.real.Lock()
	return true
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	if vsched.Aborting() {
		return true
	}
	vsched.Point()
	if !m.st.canRLock() {
		return false
	}
	m.st.rlock()
	m.real.RLock()
	return true
}

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once runs a function once.
type Once struct {
	m    Mutex
	done bool
}

// Do runs f if it has not run.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc as in sync.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// WaitGroup waits for goroutines.
type WaitGroup struct{ sync.WaitGroup }

// Map is a concurrent map with the operations of sync.Map.
type Map struct {
	m    Mutex
	real sync.Map
}

// Load as in sync.Map.
func (x *Map) Load(k interface{}) (interface{}, bool) { vsched.Point(); return x.real.Load(k) }

// Store as in sync.Map.
func (x *Map) Store(k, v interface{}) { vsched.Point(); x.real.Store(k, v) }

// LoadOrStore as in sync.Map.
func (x *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	vsched.Point()
	return x.real.LoadOrStore(k, v)
}

// LoadAndDelete as in sync.Map.
func (x *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	vsched.Point()
	return x.real.LoadAndDelete(k)
}

// Delete as in sync.Map.
func (x *Map) Delete(k interface{}) { vsched.Point(); x.real.Delete(k) }

// Swap as in sync.Map.
func (x *Map) Swap(k, v interface{}) (interface{}, bool) { vsched.Point(); return x.real.Swap(k, v) }

// Range as in sync.Map.
func (x *Map) Range(f func(k, v interface{}) bool) { vsched.Point(); x.real.Range(f) }
