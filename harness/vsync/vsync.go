// Package vsync is package sync with random delays around its operations.
package vsync

import (
	"math/rand/v2"
	"runtime"
	"sync"
	"time"
)

func jitter() {
	switch rand.IntN(4) {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(rand.IntN(300)) * time.Microsecond)
	case 2:
		time.Sleep(time.Duration(rand.IntN(3000)) * time.Microsecond)
	}
}

type (
	Map       = sync.Map
	Cond      = sync.Cond
	Locker    = sync.Locker
	Pool      = sync.Pool
	WaitGroup = sync.WaitGroup
)

func NewCond(l Locker) *Cond               { return sync.NewCond(l) }
func OnceFunc(f func()) func()             { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T { return sync.OnceValue(f) }
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	return sync.OnceValues(f)
}

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock()         { jitter(); m.m.Lock() }
func (m *Mutex) Unlock()       { m.m.Unlock(); jitter() }
func (m *Mutex) TryLock() bool { jitter(); return m.m.TryLock() }

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock()          { jitter(); m.m.Lock() }
func (m *RWMutex) Unlock()        { m.m.Unlock(); jitter() }
func (m *RWMutex) TryLock() bool  { jitter(); return m.m.TryLock() }
func (m *RWMutex) RLock()         { jitter(); m.m.RLock() }
func (m *RWMutex) RUnlock()       { m.m.RUnlock(); jitter() }
func (m *RWMutex) TryRLock() bool { jitter(); return m.m.TryRLock() }
func (m *RWMutex) RLocker() Locker {
	return m.m.RLocker()
}

type Once struct{ o sync.Once }

func (o *Once) Do(f func()) { jitter(); o.o.Do(f); jitter() }
