package vrt

import "sync"

// Mutex replaces sync.Mutex.
type Mutex struct {
	locked bool
}

// Lock locks.
func (m *Mutex) Lock() {
	x, t := enter()
	x.point(t, KSched)
	x.block(t, "mutex", func() bool { return !m.locked })
	m.locked = true
}

// TryLock tries to lock.
func (m *Mutex) TryLock() bool {
	x, t := enter()
	x.point(t, KSched)
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

// Unlock unlocks.
func (m *Mutex) Unlock() {
	if over() {
		return
	}
	x, t := enter()
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
	x.point(t, KSched)
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	w       bool
	r       int
	waiting int
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	x, t := enter()
	x.point(t, KSched)
	m.waiting++
	x.block(t, "rwmutex", func() bool { return !m.w && m.r == 0 })
	m.waiting--
	m.w = true
}

// TryLock tries.
func (m *RWMutex) TryLock() bool {
	x, t := enter()
	x.point(t, KSched)
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

// Unlock unlocks.
func (m *RWMutex) Unlock() {
	if over() {
		return
	}
	x, t := enter()
	if !m.w {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	x.point(t, KSched)
}

// RLock locks for reading (blocked by waiting writers, as in Go).
func (m *RWMutex) RLock() {
	x, t := enter()
	x.point(t, KSched)
	x.block(t, "rwmutex-r", func() bool { return !m.w && m.waiting == 0 })
	m.r++
}

// TryRLock tries.
func (m *RWMutex) TryRLock() bool {
	x, t := enter()
	x.point(t, KSched)
	if m.w {
		return false
	}
	m.r++
	return true
}

// RUnlock unlocks.
func (m *RWMutex) RUnlock() {
	if over() {
		return
	}
	x, t := enter()
	if m.r <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	x.point(t, KSched)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	n int
}

// Add adds.
func (w *WaitGroup) Add(d int) {
	if over() {
		return
	}
	x, t := enter()
	x.point(t, KSched)
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits for zero.
func (w *WaitGroup) Wait() {
	x, t := enter()
	x.point(t, KSched)
	x.block(t, "waitgroup", func() bool { return w.n == 0 })
}

// Go runs f in a goroutine counted by w.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do runs f once.
func (o *Once) Do(f func()) {
	if over() {
		return
	}
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc replaces sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue replaces sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues replaces sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

// Cond replaces sync.Cond.
type Cond struct {
	L    sync.Locker
	wait []*bool
}

// NewCond makes a Cond.
func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

// Wait waits.
func (c *Cond) Wait() {
	x, t := enter()
	f := new(bool)
	c.wait = append(c.wait, f)
	c.L.Unlock()
	x.block(t, "cond", func() bool { return *f })
	c.L.Lock()
}

// Signal wakes one.
func (c *Cond) Signal() {
	if over() {
		return
	}
	x, t := enter()
	x.point(t, KSched)
	if len(c.wait) > 0 {
		*c.wait[0] = true
		c.wait = c.wait[1:]
	}
}

// Broadcast wakes all.
func (c *Cond) Broadcast() {
	if over() {
		return
	}
	x, t := enter()
	x.point(t, KSched)
	for _, f := range c.wait {
		*f = true
	}
	c.wait = nil
}
