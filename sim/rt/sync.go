package rt

import (
	"sync"
	"sync/atomic"
	"unsafe"
)

// Mutex, RWMutex, Once and WaitGroup replace the sync package's types inside
// the library. Blocking is decided by the simulator; the wrapped primitive is
// then taken uncontended, so that the race detector sees exactly the
// happens-before edges the real primitive provides.

type Mutex struct {
	inner sync.Mutex
	held  bool
}

//go:norace
func (m *Mutex) acquire(try bool) bool {
	if active {
		Y(1)
		for m.held {
			if try {
				return false
			}
			block(unsafe.Pointer(m), "Mutex.Lock")
		}
	} else if try && m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Lock() {
	if Active() {
		m.acquire(false)
		m.inner.Lock()
		return
	}
	m.inner.Lock()
	m.set(true)
}

//go:norace
func (m *Mutex) set(b bool) { m.held = b }

func (m *Mutex) TryLock() bool {
	if !m.acquire(true) {
		return false
	}
	m.inner.Lock()
	return true
}

//go:norace
func (m *Mutex) release() {
	if !m.held {
		panic("sync: unlock of unlocked mutex (fatal error)")
	}
	m.held = false
}

func (m *Mutex) Unlock() {
	m.release()
	m.inner.Unlock()
	m.wake()
}

//go:norace
func (m *Mutex) wake() {
	if active {
		wakeAll(unsafe.Pointer(m))
		Y(1)
	}
}

type RWMutex struct {
	inner   sync.RWMutex
	w       bool
	readers int
	waiting int
}

//go:norace
func (m *RWMutex) lockW(try bool) bool {
	if active {
		Y(2)
		if try && (m.w || m.readers > 0) {
			return false
		}
		m.waiting++
		for m.w || m.readers > 0 {
			block(unsafe.Pointer(m), "RWMutex.Lock")
		}
		m.waiting--
	}
	m.w = true
	return true
}

//go:norace
func (m *RWMutex) lockR(try bool) bool {
	if active {
		Y(2)
		for m.w || m.waiting > 0 {
			if try {
				return false
			}
			block(unsafe.Pointer(m), "RWMutex.RLock")
		}
	}
	m.readers++
	return true
}

func (m *RWMutex) Lock() {
	m.lockW(false)
	m.inner.Lock()
}

func (m *RWMutex) TryLock() bool {
	if !m.lockW(true) {
		return false
	}
	m.inner.Lock()
	return true
}

func (m *RWMutex) RLock() {
	m.lockR(false)
	m.inner.RLock()
}

func (m *RWMutex) TryRLock() bool {
	if !m.lockR(true) {
		return false
	}
	m.inner.RLock()
	return true
}

//go:norace
func (m *RWMutex) unlockW() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex (fatal error)")
	}
	m.w = false
}

//go:norace
func (m *RWMutex) unlockR() {
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex (fatal error)")
	}
	m.readers--
}

//go:norace
func (m *RWMutex) wake() {
	if active {
		wakeAll(unsafe.Pointer(m))
		Y(2)
	}
}

func (m *RWMutex) Unlock() {
	m.unlockW()
	m.inner.Unlock()
	m.wake()
}

func (m *RWMutex) RUnlock() {
	m.unlockR()
	m.inner.RUnlock()
	m.wake()
}

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	done atomic.Uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done.Load() == 0 {
		o.m.Lock()
		defer o.m.Unlock()
		if o.done.Load() == 0 {
			defer o.done.Store(1)
			f()
		}
	}
}

type WaitGroup struct {
	inner sync.WaitGroup
	n     int
}

//go:norace
func (w *WaitGroup) add(d int) {
	w.n += d
	if w.n == 0 && active {
		wakeAll(unsafe.Pointer(w))
	}
}

//go:norace
func (w *WaitGroup) wait() {
	if active {
		Y(3)
		for w.n > 0 {
			block(unsafe.Pointer(w), "WaitGroup.Wait")
		}
	}
}

func (w *WaitGroup) Add(d int) { w.inner.Add(d); w.add(d) }
func (w *WaitGroup) Done()     { w.Add(-1) }
func (w *WaitGroup) Wait()     { w.wait(); w.inner.Wait() }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() { defer w.Done(); f() })
}
