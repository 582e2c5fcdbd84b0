// Package vsync stands in for sync when a schedule-dependent counterexample is
// looked for in native runs: locking and unlocking take a random little while.
package vsync

import (
	"math/rand"
	"os"
	"strconv"
	"sync"
	"time"
)

type (
	Once      = sync.Once
	WaitGroup = sync.WaitGroup
	Pool      = sync.Pool
	Map       = sync.Map
	Cond      = sync.Cond
	Locker    = sync.Locker
)

func NewCond(l Locker) *Cond                          { return sync.NewCond(l) }
func OnceFunc(f func()) func()                        { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T            { return sync.OnceValue(f) }
func OnceValues[A, B any](f func() (A, B)) func() (A, B) { return sync.OnceValues(f) }

var (
	rmu sync.Mutex
	rnd *rand.Rand
)

func init() {
	if n, err := strconv.ParseInt(os.Getenv("VSYM_DELAY"), 10, 64); err == nil && n > 0 {
		rnd = rand.New(rand.NewSource(n))
	}
}

// Pause takes a random little while.
func Pause() {
	if rnd == nil {
		return
	}
	rmu.Lock()
	k := rnd.Intn(8)
	d := time.Duration(rnd.Intn(400)) * time.Microsecond
	rmu.Unlock()
	if k < 4 {
		return
	}
	time.Sleep(d)
}

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock()         { Pause(); m.m.Lock(); Pause() }
func (m *Mutex) Unlock()       { Pause(); m.m.Unlock(); Pause() }
func (m *Mutex) TryLock() bool { Pause(); return m.m.TryLock() }

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock()           { Pause(); m.m.Lock(); Pause() }
func (m *RWMutex) Unlock()         { Pause(); m.m.Unlock(); Pause() }
func (m *RWMutex) RLock()          { Pause(); m.m.RLock(); Pause() }
func (m *RWMutex) RUnlock()        { Pause(); m.m.RUnlock(); Pause() }
func (m *RWMutex) TryLock() bool   { Pause(); return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool  { Pause(); return m.m.TryRLock() }
func (m *RWMutex) RLocker() Locker { return m.m.RLocker() }
