// Package sync replaces the standard package in the code under test when the
// schedules are enumerated: every operation is a scheduling point of vsched,
// and is then done for real, so that the race detector sees the same order
// between goroutines as in a normal build.
package sync

import (
	real "sync"

	"vmc/vsched"
)

type Locker = real.Locker

// Mutex is sync.Mutex with a scheduling point.
type Mutex struct {
	s vsched.State
	m real.Mutex
}

//go:norace
func take(s *vsched.State) {
	if vsched.Foreign() {
		return
	}
	s.Writer = 1
}

//go:norace
func drop(s *vsched.State) {
	if vsched.Foreign() {
		return
	}
	s.Writer = 0
}

func (m *Mutex) Lock() {
	if vsched.Managed() {
		vsched.Point(vsched.LockFree, &m.s)
	}
	take(&m.s)
	m.m.Lock()
}
func (m *Mutex) Unlock() {
	drop(&m.s)
	m.m.Unlock()
}
func (m *Mutex) TryLock() bool {
	if vsched.Managed() {
		vsched.Point(vsched.Yield, nil)
	}
	if m.m.TryLock() {
		take(&m.s)
		return true
	}
	return false
}

// RWMutex is sync.RWMutex with scheduling points; a waiting writer keeps new
// readers out, as in the real one.
type RWMutex struct {
	s vsched.State
	m real.RWMutex
}

//go:norace
func pend(s *vsched.State) {
	if vsched.Foreign() {
		return
	}
	s.Pending = 1
}

//go:norace
func unpend(s *vsched.State) {
	if vsched.Foreign() {
		return
	}
	s.Pending = 0
}

//go:norace
func readers(s *vsched.State, d int32) {
	if vsched.Foreign() {
		return
	}
	s.Readers += d
}

func (m *RWMutex) Lock() {
	if vsched.Managed() {
		vsched.Point(vsched.WantPending, &m.s)
		pend(&m.s)
		vsched.Point(vsched.WantWrite, &m.s)
	}
	pend(&m.s)
	take(&m.s)
	m.m.Lock()
}
func (m *RWMutex) Unlock() {
	m.m.Unlock()
	drop(&m.s)
	unpend(&m.s)
}
func (m *RWMutex) RLock() {
	if vsched.Managed() {
		vsched.Point(vsched.WantRead, &m.s)
	}
	readers(&m.s, 1)
	m.m.RLock()
}
func (m *RWMutex) RUnlock() {
	m.m.RUnlock()
	readers(&m.s, -1)
}
func (m *RWMutex) TryLock() bool {
	if vsched.Managed() {
		vsched.Point(vsched.Yield, nil)
	}
	if m.m.TryLock() {
		pend(&m.s)
		take(&m.s)
		return true
	}
	return false
}

//go:norace
func hasPending(s *vsched.State) bool { return s.Pending != 0 }

func (m *RWMutex) TryRLock() bool {
	if vsched.Managed() {
		vsched.Point(vsched.Yield, nil)
	}
	if hasPending(&m.s) {
		return false
	}
	if m.m.TryRLock() {
		readers(&m.s, 1)
		return true
	}
	return false
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is sync.Once with scheduling points.
type Once struct {
	s vsched.State
	m real.Mutex // only orders
	o bool
}

//go:norace
func phase(s *vsched.State) int32 { return s.Phase }

//go:norace
func setPhase(s *vsched.State, p int32) { s.Phase = p }

func (o *Once) Do(f func()) {
	if vsched.Managed() {
		vsched.Point(vsched.WantDone, &o.s)
	}
	if phase(&o.s) == 2 {
		o.m.Lock()
		o.m.Unlock()
		return
	}
	setPhase(&o.s, 1)
	defer func() {
		o.m.Lock()
		o.m.Unlock()
		setPhase(&o.s, 2)
	}()
	f()
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

func yield() {
	if vsched.Managed() {
		vsched.Point(vsched.Yield, nil)
	}
}

// Map is sync.Map with scheduling points.
type Map struct{ m real.Map }

func (m *Map) Load(k any) (any, bool)           { yield(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { yield(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { yield(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { yield(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { yield(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { yield(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, a, b any) bool  { yield(); return m.m.CompareAndSwap(k, a, b) }
func (m *Map) CompareAndDelete(k, a any) bool   { yield(); return m.m.CompareAndDelete(k, a) }
func (m *Map) Range(f func(k, v any) bool)      { yield(); m.m.Range(f) }
func (m *Map) Clear()                           { yield(); m.m.Clear() }

// Pool hands out the last value that was put back (the real one may).
type Pool struct {
	m real.Mutex
	l []any

	New func() any
}

func (p *Pool) Get() any {
	yield()
	p.m.Lock()
	if n := len(p.l); n > 0 {
		v := p.l[n-1]
		p.l = p.l[:n-1]
		p.m.Unlock()
		return v
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(v any) {
	yield()
	p.m.Lock()
	p.l = append(p.l, v)
	p.m.Unlock()
}

// WaitGroup is sync.WaitGroup with scheduling points.
type WaitGroup struct {
	s vsched.State
	w real.WaitGroup
}

//go:norace
func count(s *vsched.State, d int32) { s.Count += d }

func (w *WaitGroup) Add(n int) { w.w.Add(n); count(&w.s, int32(n)) }
func (w *WaitGroup) Done()     { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if vsched.Managed() {
		vsched.Point(vsched.WantZero, &w.s)
	}
	w.w.Wait()
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	go func() {
		defer w.Done()
		f()
	}()
}

type Cond = real.Cond

func NewCond(l Locker) *Cond { return real.NewCond(l) }
