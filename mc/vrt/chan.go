package vrt

import (
	"fmt"
	"reflect"
	"unsafe"
)

type vchan struct {
	keep   any
	cap    int
	buf    []any
	closed bool
	wait   []*Thread // threads blocked with a case on this channel (FIFO)
}

type selCase struct {
	ch   *vchan // nil channel: never ready
	send bool
	val  any
}

func chptr[C any](ch C) uintptr { return *(*uintptr)(unsafe.Pointer(&ch)) }

func (x *Exec) vc(p uintptr, keep any, capacity int) *vchan {
	if p == 0 {
		return nil
	}
	c := x.chans[p]
	if c == nil {
		c = &vchan{keep: keep, cap: capacity}
		x.chans[p] = c
	}
	return c
}

func (c *vchan) partner(self *Thread, send bool) (*Thread, int) {
	for _, t := range c.wait {
		if t == self || t.isFire || t.dead {
			continue
		}
		for i, sc := range t.cases {
			if sc.ch == c && sc.send == send {
				return t, i
			}
		}
	}
	return nil, 0
}

func (x *Exec) caseReady(t *Thread, sc *selCase) bool {
	c := sc.ch
	if c == nil {
		return false
	}
	if sc.send {
		if c.closed || len(c.buf) < c.cap {
			return true
		}
		if c.cap == 0 {
			p, _ := c.partner(t, false)
			return p != nil
		}
		return false
	}
	if len(c.buf) > 0 || c.closed {
		return true
	}
	if c.cap == 0 {
		p, _ := c.partner(t, true)
		return p != nil
	}
	return false
}

func (x *Exec) perform(t *Thread, sc *selCase) (val any, ok bool) {
	c := sc.ch
	if sc.send {
		if c.closed {
			panic("send on closed channel")
		}
		if c.cap == 0 {
			p, i := c.partner(t, false)
			p.fire(i, sc.val, true)
			return nil, true
		}
		c.buf = append(c.buf, sc.val)
		return nil, true
	}
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append(c.buf[:0:0], c.buf[1:]...)
		return v, true
	}
	if c.cap == 0 && !c.closed {
		p, i := c.partner(t, true)
		v := p.cases[i].val
		p.fire(i, nil, true)
		return v, true
	}
	return nil, false
}

func (t *Thread) fire(i int, v any, ok bool) {
	t.fired, t.fval, t.fok, t.isFire = i, v, ok, true
}

// Sel is the outcome of a select.
type Sel struct {
	I  int
	v  any
	ok bool
}

func (x *Exec) sel(t *Thread, hasDefault bool, cases []*selCase) Sel {
	var ready []int
	for i, c := range cases {
		if x.caseReady(t, c) {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := ready[x.choose(KSelect, len(ready))]
		v, ok := x.perform(t, cases[k])
		return Sel{k, v, ok}
	}
	if hasDefault {
		return Sel{I: len(cases)}
	}
	t.cases = cases
	t.isFire = false
	for _, c := range cases {
		if c.ch != nil {
			c.ch.wait = append(c.ch.wait, t)
		}
	}
	x.block(t, "channel", func() bool {
		if t.isFire {
			return true
		}
		for _, c := range cases {
			if x.caseReady(t, c) {
				return true
			}
		}
		return false
	})
	for _, c := range cases {
		if c.ch != nil {
			c.ch.remove(t)
		}
	}
	t.cases = nil
	if t.isFire {
		t.isFire = false
		v := t.fval
		t.fval = nil
		return Sel{t.fired, v, t.fok}
	}
	ready = ready[:0]
	for i, c := range cases {
		if x.caseReady(t, c) {
			ready = append(ready, i)
		}
	}
	if len(ready) == 0 {
		panic("vrt: scheduled a blocked select")
	}
	k := ready[x.choose(KSelect, len(ready))]
	v, ok := x.perform(t, cases[k])
	return Sel{k, v, ok}
}

func (c *vchan) remove(t *Thread) {
	for i, w := range c.wait {
		if w == t {
			c.wait = append(c.wait[:i:i], c.wait[i+1:]...)
			return
		}
	}
}

// Case is one select case.
type Case = *selCase

// CR makes a receive case.
func CR[T any](ch <-chan T) Case {
	x, _ := enter()
	return &selCase{ch: x.vc(chptr(ch), ch, cap(ch))}
}

// CS makes a send case.
func CS[T any](ch chan<- T) func(T) Case {
	x, _ := enter()
	c := x.vc(chptr(ch), ch, cap(ch))
	return func(v T) Case { return &selCase{ch: c, send: true, val: v} }
}

// Select runs a select statement; index len(cases) means default.
func Select(hasDefault bool, cases ...Case) Sel {
	x, t := enter()
	x.point(t, KSched)
	return x.sel(t, hasDefault, cases)
}

func cast[T any](v any) (r T) {
	if v == nil {
		return
	}
	return v.(T)
}

// SelRecv extracts the received value of a select.
func SelRecv[T any](_ <-chan T, s Sel) T { return cast[T](s.v) }

// SelRecv2 extracts the received value and ok flag.
func SelRecv2[T any](_ <-chan T, s Sel) (T, bool) { return cast[T](s.v), s.ok }

// SendC is ch <- v as SendC(ch)(v).
func SendC[T any](ch chan<- T) func(T) {
	return func(v T) {
		x, t := enter()
		x.point(t, KSched)
		x.sel(t, false, []*selCase{{ch: x.vc(chptr(ch), ch, cap(ch)), send: true, val: v}})
	}
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	x, t := enter()
	x.point(t, KSched)
	s := x.sel(t, false, []*selCase{{ch: x.vc(chptr(ch), ch, cap(ch))}})
	return cast[T](s.v), s.ok
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	if over() {
		return
	}
	x, t := enter()
	x.point(t, KSched)
	c := x.vc(chptr(ch), ch, cap(ch))
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
}

// Len is len(ch).
func Len[T any](ch <-chan T) int {
	x, _ := enter()
	c := x.vc(chptr(ch), ch, cap(ch))
	if c == nil {
		return 0
	}
	return len(c.buf)
}

// BlockForever is select{}.
func BlockForever() {
	x, t := enter()
	x.block(t, "select{}", func() bool { return false })
}

// trySend is a non-blocking send from scheduler context (tickers, timers).
func trySend[T any](x *Exec, ch chan T, v T) {
	c := x.vc(chptr(ch), ch, cap(ch))
	if c.closed {
		return
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
	}
}

func closeQuiet[T any](x *Exec, ch chan T) {
	c := x.vc(chptr(ch), ch, cap(ch))
	c.closed = true
}

// ---- maps ----

type mapAccess struct {
	t *Thread
	w bool
}

func (x *Exec) flushAcc() { x.mapAcc = nil }

// MapAcc brackets an access of a map held in a shared object: if another
// goroutine makes a conflicting access while this one is in progress, the Go
// runtime would abort the process ("concurrent map ...").
func MapAcc(m any, write bool) {
	if X == nil || X.ended || !X.Fine || X.noExp > 0 {
		return
	}
	x := X
	v := reflect.ValueOf(m)
	if v.Kind() != reflect.Map || v.IsNil() {
		return
	}
	p := v.Pointer()
	t := x.cur
	for _, a := range x.mapAcc[p] {
		if a.t != t && (a.w || write) {
			x.CrashMsg = fmt.Sprintf("fatal error: concurrent map access by goroutines %q and %q", a.t.name, t.name)
			x.finish(Crash)
		}
	}
	if x.mapAcc == nil {
		x.mapAcc = map[uintptr][]mapAccess{}
	}
	x.mapAcc[p] = append(x.mapAcc[p], mapAccess{t, write})
	x.point(t, KFine)
	l := x.mapAcc[p]
	for i := range l {
		if l[i].t == t {
			x.mapAcc[p] = append(l[:i:i], l[i+1:]...)
			break
		}
	}
}
