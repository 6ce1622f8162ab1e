// Package vsync stands in for package sync inside the library under test: the
// same primitives with the same semantics, except that waiting for a lock is
// visible to testing/synctest, so that virtual time goes on while a goroutine
// waits for another one to release it. Acquiring also is a point where the
// schedule is perturbed: the goroutine yields, or it lags behind all others,
// see Lag.
package vsync

import (
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type (
	Map       = sync.Map
	Pool      = sync.Pool
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
	Locker    = sync.Locker
)

func NewCond(l Locker) *Cond                             { return sync.NewCond(l) }
func OnceFunc(f func()) func()                           { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T               { return sync.OnceValue(f) }
func OnceValues[T, U any](f func() (T, U)) func() (T, U) { return sync.OnceValues(f) }

var (
	state, prob, lagProb atomic.Uint64
	// Lags counts
	Lags atomic.Int64
)

// Perturb makes about one in n acquisitions yield and one in lag lag; 0 turns
// either off.
func Perturb(seed, n, lag uint64) { state.Store(seed); prob.Store(n); lagProb.Store(lag) }

// Lag makes the goroutine wait for d. In virtual time the shortest d there is
// lets all others go on until nobody can, whatever they have to do. It does
// nothing when called back from a dependency, which may hold locks of its own
// that virtual time doesn't know of.
func Lag(d time.Duration) {
	var pcs [64]uintptr
	frames := runtime.CallersFrames(pcs[:runtime.Callers(2, pcs[:])])
	for {
		f, more := frames.Next()
		if strings.Contains(f.Function, "jumboframes/") || strings.Contains(f.Function, "go-timer") || strings.Contains(f.Function, "yafsm") {
			return
		}
		if !more {
			break
		}
	}
	Lags.Add(1)
	time.Sleep(d)
}

//go:norace
func point() { pointAt(lagProb.Load()) }

//go:norace
func pointAt(l uint64) {
	n := prob.Load()
	if n == 0 && l == 0 {
		return
	}
	x := state.Add(0x9E3779B97F4A7C15)
	x ^= x >> 30
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 31
	if l != 0 && (x>>20)%l == 0 {
		Lag(1)
	} else if n != 0 && x%n == 0 {
		runtime.Gosched()
	}
}

//go:norace
func perturb() {
	hide()
	defer show()
	point()
}

// Point is where vatomic's operations perturb the schedule.
func Point() { perturb() }

// Yield is Point without lagging.
//
//go:norace
func Yield() {
	hide()
	defer show()
	pointAt(0)
}

// Mutex

type Mutex struct {
	mu     sync.Mutex // held only for an instant
	c      *sync.Cond
	locked bool
	race   byte
}

//go:norace
func (m *Mutex) lockx() {
	hide()
	defer show()
	point()
	m.waitx()
}

//go:norace
func (m *Mutex) waitx() {
	m.mu.Lock()
	for m.locked {
		if m.c == nil {
			m.c = &sync.Cond{L: &m.mu}
		}
		m.c.Wait()
	}
	m.locked = true
	m.mu.Unlock()
}

func (m *Mutex) Lock() {
	m.lockx()
	acq(&m.race)
}

//go:norace
func (m *Mutex) tryLockx() bool {
	hide()
	defer show()
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) TryLock() bool {
	if !m.tryLockx() {
		return false
	}
	acq(&m.race)
	return true
}

//go:norace
func (m *Mutex) unlockx() {
	hide()
	defer show()
	m.mu.Lock()
	if !m.locked {
		m.mu.Unlock()
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	if m.c != nil {
		m.c.Signal()
	}
	m.mu.Unlock()
}

func (m *Mutex) Unlock() {
	rel(&m.race)
	m.unlockx()
}

// Quiet is a Mutex which doesn't perturb, for the harness: its holder may call
// the library, which may lag.
type Quiet struct{ m Mutex }

//go:norace
func (q *Quiet) lockx() {
	hide()
	defer show()
	q.m.waitx()
}

func (q *Quiet) Lock() {
	q.lockx()
	acq(&q.m.race)
}

func (q *Quiet) Unlock() { q.m.Unlock() }

// RWMutex: a waiting writer keeps new readers out, as with package sync.
type RWMutex struct {
	mu      sync.Mutex
	c       *sync.Cond
	readers int
	writer  bool
	wwait   int
	rwait   int    // readers waiting for the current or next writer to end,
	gen     uint64 // which lets all of them in
	// what the race detector knows the lock by
	raceR, raceW byte
}

//go:norace
func (m *RWMutex) cond() *sync.Cond {
	if m.c == nil {
		m.c = &sync.Cond{L: &m.mu}
	}
	return m.c
}

//go:norace
func (m *RWMutex) rLockx() {
	hide()
	defer show()
	point()
	m.mu.Lock()
	if m.writer || m.wwait > 0 {
		m.rwait++
		for g := m.gen; g == m.gen; {
			m.cond().Wait()
		}
		m.mu.Unlock()
		return
	}
	m.readers++
	m.mu.Unlock()
}

func (m *RWMutex) RLock() {
	m.rLockx()
	acq(&m.raceR)
}

//go:norace
func (m *RWMutex) tryRLockx() bool {
	hide()
	defer show()
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || m.wwait > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) TryRLock() bool {
	if !m.tryRLockx() {
		return false
	}
	acq(&m.raceR)
	return true
}

//go:norace
func (m *RWMutex) rUnlockx() {
	hide()
	defer show()
	m.mu.Lock()
	if m.readers == 0 {
		m.mu.Unlock()
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if m.readers == 0 && m.c != nil {
		m.c.Broadcast()
	}
	m.mu.Unlock()
}

func (m *RWMutex) RUnlock() {
	relMerge(&m.raceW)
	m.rUnlockx()
}

//go:norace
func (m *RWMutex) lockx() {
	hide()
	defer show()
	point()
	m.mu.Lock()
	m.wwait++
	for m.writer || m.readers > 0 {
		m.cond().Wait()
	}
	m.wwait--
	m.writer = true
	m.mu.Unlock()
}

func (m *RWMutex) Lock() {
	m.lockx()
	acq(&m.raceR)
	acq(&m.raceW)
}

//go:norace
func (m *RWMutex) tryLockx() bool {
	hide()
	defer show()
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) TryLock() bool {
	if !m.tryLockx() {
		return false
	}
	acq(&m.raceR)
	acq(&m.raceW)
	return true
}

//go:norace
func (m *RWMutex) unlockx() {
	hide()
	defer show()
	m.mu.Lock()
	if !m.writer {
		m.mu.Unlock()
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.readers += m.rwait
	m.rwait = 0
	m.gen++
	if m.c != nil {
		m.c.Broadcast()
	}
	m.mu.Unlock()
}

func (m *RWMutex) Unlock() {
	rel(&m.raceR)
	m.unlockx()
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once

type Once struct {
	done atomic.Bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	perturb()
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}
