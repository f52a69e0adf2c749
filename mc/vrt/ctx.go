package vrt

import (
	"context"
	"time"
)

type vctxKey struct{}

type vctx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	cause    error
	children []*vctx
	funcs    []func()
	deadline time.Time
	hasDL    bool
	tm       *timer
}

func (c *vctx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *vctx) Done() <-chan struct{} { return c.done }
func (c *vctx) Err() error            { return c.err }
func (c *vctx) Value(k any) any {
	if _, ok := k.(vctxKey); ok {
		return c
	}
	return c.parent.Value(k)
}

func (c *vctx) cancel(err, cause error) {
	if c.err != nil || over() {
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	if c.tm != nil {
		c.tm.stopped = true
	}
	closeQuiet(X, c.done)
	for _, ch := range c.children {
		ch.cancel(err, cause)
	}
	for _, f := range c.funcs {
		X.spawn("ctx-afterfunc", f)
	}
	c.funcs = nil
}

func newCtx(parent context.Context) *vctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &vctx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(vctxKey{}).(*vctx); ok {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.children = append(p.children, c)
		}
	}
	return c
}

// WithCancel replaces context.WithCancel.
func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	enter()
	c := newCtx(parent)
	return c, func() {
		if over() {
			return
		}
		x, t := enter()
		x.point(t, KSched)
		c.cancel(context.Canceled, nil)
	}
}

// WithCancelCause replaces context.WithCancelCause.
func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	enter()
	c := newCtx(parent)
	return c, func(cause error) {
		if over() {
			return
		}
		x, t := enter()
		x.point(t, KSched)
		c.cancel(context.Canceled, cause)
	}
}

// Cause replaces context.Cause.
func Cause(c context.Context) error {
	if v, ok := c.Value(vctxKey{}).(*vctx); ok {
		return v.cause
	}
	return c.Err()
}

// WithDeadline replaces context.WithDeadline.
func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	enter()
	c := newCtx(parent)
	c.deadline, c.hasDL = d, true
	if pd, ok := parent.Deadline(); ok && pd.Before(d) {
		c.deadline = pd
	}
	if c.err == nil {
		c.tm = X.addTimer(Until(c.deadline), func() { c.cancel(context.DeadlineExceeded, nil) })
	}
	return c, func() {
		if over() {
			return
		}
		x, t := enter()
		x.point(t, KSched)
		c.cancel(context.Canceled, nil)
	}
}

// WithTimeout replaces context.WithTimeout.
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, Now().Add(d))
}

// WithDeadlineCause replaces context.WithDeadlineCause; the cause is not kept.
func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, d)
}

// WithTimeoutCause replaces context.WithTimeoutCause; the cause is not kept.
func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithTimeout(parent, d)
}

// ContextAfterFunc replaces context.AfterFunc.
func ContextAfterFunc(ctx context.Context, f func()) (stop func() bool) {
	enter()
	p, ok := ctx.Value(vctxKey{}).(*vctx)
	if !ok {
		return func() bool { return true }
	}
	if p.err != nil {
		X.spawn("ctx-afterfunc", f)
		return func() bool { return false }
	}
	called := false
	stopped := false
	p.funcs = append(p.funcs, func() {
		if stopped {
			return
		}
		called = true
		f()
	})
	return func() bool {
		if called || stopped {
			return false
		}
		stopped = true
		return true
	}
}
