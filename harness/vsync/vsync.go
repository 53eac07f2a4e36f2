// Package vsync stands in for package sync in the code under test. Its locks give way
// to other goroutines at random (seeded) moments around acquiring and releasing, so that
// a run explores more schedules. With a seed of zero it behaves as sync.
package vsync

import (
	"math/rand"
	"sync"
	"time"
)

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
	Once      = sync.Once
	Pool      = sync.Pool
	Map       = sync.Map
	Cond      = sync.Cond
)

func NewCond(l Locker) *Cond                                   { return sync.NewCond(l) }
func OnceFunc(f func()) func()                                 { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T                     { return sync.OnceValue(f) }
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) { return sync.OnceValues(f) }

var (
	mu  sync.Mutex
	rng *rand.Rand
)

// Seed turns perturbation on (non-zero) or off (zero).
func Seed(s int64) {
	mu.Lock()
	defer mu.Unlock()
	if s == 0 {
		rng = nil
		return
	}
	rng = rand.New(rand.NewSource(s))
}

// Yield gives way for up to 40 microseconds of (virtual) time, sometimes.
func Yield() {
	mu.Lock()
	if rng == nil {
		mu.Unlock()
		return
	}
	d := time.Duration(0)
	if rng.Intn(2) == 0 {
		d = time.Duration(1+rng.Intn(40)) * time.Microsecond
	}
	mu.Unlock()
	if d > 0 {
		time.Sleep(d)
	}
}

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock()         { Yield(); m.m.Lock(); Yield() }
func (m *Mutex) Unlock()       { Yield(); m.m.Unlock(); Yield() }
func (m *Mutex) TryLock() bool { Yield(); return m.m.TryLock() }

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock()           { Yield(); m.m.Lock(); Yield() }
func (m *RWMutex) Unlock()         { Yield(); m.m.Unlock(); Yield() }
func (m *RWMutex) TryLock() bool   { Yield(); return m.m.TryLock() }
func (m *RWMutex) RLock()          { Yield(); m.m.RLock(); Yield() }
func (m *RWMutex) RUnlock()        { Yield(); m.m.RUnlock(); Yield() }
func (m *RWMutex) TryRLock() bool  { Yield(); return m.m.TryRLock() }
func (m *RWMutex) RLocker() Locker { return m.m.RLocker() }
