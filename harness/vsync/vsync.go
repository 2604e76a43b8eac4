// Package vsync stands in for package sync in the instrumented copy of the
// library: its locks tell a scheduler about every operation on them.
package vsync

import "sync"

type (
	Locker    = sync.Locker
	Once      = sync.Once
	Pool      = sync.Pool
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
	Map       = sync.Map
)

func OnceFunc(f func()) func() { return sync.OnceFunc(f) }

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// Scheduler is told about every statement and lock operation while Sched is
// set; it is only set while exactly one goroutine runs at a time. The
// stand-ins are for one goroutine at a time in any case.
type Scheduler interface {
	// Stmt is called before a statement, Point before a lock operation.
	Stmt()
	Point()
	// Wait gives up the processor until free() holds.
	Wait(free func() bool)
	// Misuse reports what would be a fatal error.
	Misuse(what string)
}

var Sched Scheduler

// Hook, if set, is told about every acquisition and release.
var Hook func(lock interface{}, what string)

func tell(lock interface{}, what string) {
	if Hook != nil {
		Hook(lock, what)
	}
}

// P is called before every statement of the library.
func P() {
	if Sched != nil {
		Sched.Stmt()
	}
}

// Mutex stands in for sync.Mutex.
type Mutex struct {
	real sync.Mutex
	held bool // under a scheduler
}

func (m *Mutex) Lock() {
	if Sched != nil {
		Sched.Point()
		for m.held {
			Sched.Wait(func() bool { return !m.held })
		}
	}
	m.real.Lock()
	m.held = true
	tell(m, "lock")
}

func (m *Mutex) TryLock() bool {
	if Sched != nil {
		Sched.Point()
	}
	if !m.real.TryLock() {
		return false
	}
	m.held = true
	tell(m, "lock")
	return true
}

func (m *Mutex) Unlock() {
	if Sched != nil {
		Sched.Point()
		if !m.held {
			Sched.Misuse("unlock of unlocked mutex")
		}
	}
	tell(m, "unlock")
	m.held = false
	m.real.Unlock()
}

// RWMutex likewise.
type RWMutex struct {
	real    sync.RWMutex
	held    bool
	readers int
	pending int // writers waiting for the readers to leave: no new reader gets in
}

func (m *RWMutex) Lock() {
	if Sched != nil {
		Sched.Point()
		m.pending++
		for m.held || m.readers > 0 {
			Sched.Wait(func() bool { return !m.held && m.readers == 0 })
		}
		m.pending--
	}
	m.real.Lock()
	m.held = true
	tell(m, "lock")
}

func (m *RWMutex) TryLock() bool {
	if Sched != nil {
		Sched.Point()
	}
	if !m.real.TryLock() {
		return false
	}
	m.held = true
	tell(m, "lock")
	return true
}

func (m *RWMutex) Unlock() {
	if Sched != nil {
		Sched.Point()
		if !m.held {
			Sched.Misuse("unlock of unlocked rwmutex")
		}
	}
	tell(m, "unlock")
	m.held = false
	m.real.Unlock()
}

func (m *RWMutex) RLock() {
	if Sched != nil {
		Sched.Point()
		for m.held || m.pending > 0 {
			Sched.Wait(func() bool { return !m.held && m.pending == 0 })
		}
	}
	m.real.RLock()
	m.readers++
	tell(m, "lock")
}

func (m *RWMutex) TryRLock() bool {
	if Sched != nil {
		Sched.Point()
		if m.pending > 0 {
			return false
		}
	}
	if !m.real.TryRLock() {
		return false
	}
	m.readers++
	tell(m, "lock")
	return true
}

func (m *RWMutex) RUnlock() {
	if Sched != nil {
		Sched.Point()
		if m.readers == 0 {
			Sched.Misuse("runlock of unlocked rwmutex")
		}
	}
	tell(m, "unlock")
	m.readers--
	m.real.RUnlock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }
