// Package sync is package sync under the controlled scheduler.
package sync

import (
	"sync"

	sched "verifsched"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
	Pool   = sync.Pool
)

type Mutex struct {
	m sync.Mutex
	l sched.Lock
}

func (m *Mutex) Lock() { sched.Locked(&m.l, false, m.m.Lock) }
func (m *Mutex) Unlock() {
	sched.Unlocked(&m.l, false)
	m.m.Unlock()
}

func (m *Mutex) TryLock() bool {
	sched.Point()
	return m.m.TryLock() && sched.Free(&m.l, false)
}

type RWMutex struct {
	m sync.RWMutex
	l sched.Lock
}

func (m *RWMutex) Lock() { sched.Locked(&m.l, false, m.m.Lock) }
func (m *RWMutex) Unlock() {
	sched.Unlocked(&m.l, false)
	m.m.Unlock()
}
func (m *RWMutex) RLock() { sched.Locked(&m.l, true, m.m.RLock) }
func (m *RWMutex) RUnlock() {
	sched.Unlocked(&m.l, true)
	m.m.RUnlock()
}

func (m *RWMutex) TryLock() bool {
	sched.Point()
	return m.m.TryLock() && sched.Free(&m.l, false)
}

func (m *RWMutex) TryRLock() bool {
	sched.Point()
	return m.m.TryRLock() && sched.Free(&m.l, true)
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type WaitGroup struct {
	w sync.WaitGroup
	c sched.Count
}

func (w *WaitGroup) Add(n int) {
	sched.Counted(&w.c, n)
	w.w.Add(n)
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() { sched.Waited(&w.c, w.w.Wait) }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sched.Go(func() {
		defer w.Done()
		f()
	})
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}
