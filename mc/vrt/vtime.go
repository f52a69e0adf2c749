package vrt

import "time"

// Now replaces time.Now.
func Now() time.Time {
	if X == nil {
		return epoch
	}
	return epoch.Add(time.Duration(X.now))
}

// Since replaces time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until replaces time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep replaces time.Sleep.
func Sleep(d time.Duration) {
	x, t := enter()
	x.point(t, KSched)
	if d <= 0 {
		return
	}
	fired := false
	x.addTimer(d, func() { fired = true })
	x.block(t, "sleep", func() bool { return fired })
}

// Timer replaces time.Timer.
type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	tm *timer
	f  func()
	on bool
}

func (t *Timer) start(d time.Duration) {
	x := X
	t.on = true
	t.tm = x.addTimer(d, func() {
		t.on = false
		if t.f != nil {
			x.spawn("afterfunc", t.f)
			return
		}
		trySend(x, t.c, Now())
	})
}

// NewTimer replaces time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	enter()
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

// AfterFunc replaces time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	enter()
	t := &Timer{f: f}
	t.start(d)
	return t
}

// After replaces time.After.
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Stop stops the timer.
func (t *Timer) Stop() bool {
	if over() {
		return false
	}
	was := t.on
	t.on = false
	if t.tm != nil {
		t.tm.stopped = true
	}
	return was
}

// Reset restarts the timer.
func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	if !over() {
		t.start(d)
	}
	return was
}

// Ticker replaces time.Ticker.
type Ticker struct {
	C  <-chan time.Time
	c  chan time.Time
	d  time.Duration
	tm *timer
}

// NewTicker replaces time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	enter()
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}

func (t *Ticker) arm() {
	x := X
	t.tm = x.addTimer(t.d, func() {
		t.arm()
		trySend(x, t.c, Now())
	})
}

// Stop stops the ticker.
func (t *Ticker) Stop() {
	if over() {
		return
	}
	t.tm.stopped = true
}

// Reset changes the period.
func (t *Ticker) Reset(d time.Duration) {
	if over() {
		return
	}
	t.tm.stopped = true
	t.d = d
	t.arm()
}

// Tick replaces time.Tick.
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
