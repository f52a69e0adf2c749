// Package vrt is the controlled runtime the instrumented code runs on: one
// cooperative scheduler, virtual time, virtual channels/locks/network.  Every
// nondeterministic decision is a numbered choice point of the current Exec.
package vrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Kinds of choice points.
const (
	KSched  = 'S' // which enabled goroutine runs next (coarse points: sync, channel, network, time)
	KFine   = 'F' // same, at statement-level points on shared objects
	KSelect = 'C' // which ready case of a select
	KTime   = 'T' // (folded into S: a timer fires before enabled goroutines run)
	KEnv    = 'E' // environment answer / fault / map order / random number
	KInput  = 'X' // zero-cost exhaustive input choice
)

// Dev is one deviation from the default choice: at choice point I take Alt.
type Dev struct {
	I   int    `json:"i"`
	Alt int    `json:"a"`
	K   byte   `json:"k"`
	H   uint64 `json:"h"` // prefix hash expected at point I
}

// Point is one recorded choice point.
type Point struct {
	N int
	K byte
	H uint64
}

// Status says how an execution ended.
type Status int

// End states.
const (
	Done     Status = iota // main returned
	Deadlock               // no goroutine enabled, no timer pending
	Horizon                // virtual time horizon passed
	Steps                  // step limit hit (livelock)
	Crash                  // a goroutine panicked
	Diverged               // replay prefix did not match (nondeterminism not captured)
)

func (s Status) String() string {
	return [...]string{"done", "deadlock", "horizon", "steps", "crash", "diverged"}[s]
}

// Thread is one goroutine of the program under test.
type Thread struct {
	id      int
	name    string
	wake    chan struct{}
	exited  chan struct{}
	started bool
	dead    bool
	dying   bool
	kill    bool
	ready   func() bool // nil when runnable
	what    string      // what it is blocked on
	stalled bool        // held back by a stall deviation
	stallAt int64
	fn      func()
	// channel state while blocked in a select
	cases  []*selCase
	fired  int
	fval   any
	fok    bool
	isFire bool
}

type timer struct {
	at      int64
	seq     int
	fn      func()
	stopped bool
}

// Exec is one execution.
type Exec struct {
	threads []*Thread
	cur     *Thread
	now     int64
	timers  []*timer
	tseq    int
	devs    []Dev
	di      int
	np      int
	hash    uint64
	Points  []Point
	steps   int

	// configuration
	MaxSteps int
	HorizonT time.Duration
	Fine     bool // statement-level points are choice points
	TimeDev  bool // a timer may fire before enabled goroutines ran
	// Stall > 0: a goroutine may be held back at a preemption point until
	// everything else is blocked and no timer of that span is left.
	Stall   time.Duration
	stalled int
	noExp   int // >0: choice points are not recorded

	Status   Status
	CrashMsg string
	Fails    []string
	Events   []string
	Trace    bool
	KeepEv   bool
	Outcome  string

	ended   bool
	endCh   chan struct{}
	chans   map[uintptr]*vchan
	mapAcc  map[uintptr][]mapAccess
	Net     Network
	ctxSeq  int
	connSeq int
	User    any
	mainT   *Thread
	ender   *Thread
}

// X is the current execution (one per process at a time).
var X *Exec

var epoch = time.Unix(1700000000, 0)

// NewExec prepares an execution replaying devs.
func NewExec(devs []Dev) *Exec {
	return &Exec{
		devs: devs, MaxSteps: 20000, HorizonT: time.Hour,
		endCh: make(chan struct{}), chans: map[uintptr]*vchan{}, hash: 1469598103934665603,
	}
}

// Run executes main to its end and returns when every goroutine is gone.
func (x *Exec) Run(main func()) {
	X = x
	t := x.spawn("main", main)
	x.mainT = t
	x.cur = t
	t.started = true
	go x.threadBody(t)
	<-x.endCh
	<-x.ender.exited
	// kill what is left, one at a time
	for i := 0; i < len(x.threads); i++ {
		th := x.threads[i]
		if th.dead || !th.started {
			continue
		}
		th.kill = true
		x.cur = th
		select {
		case th.wake <- struct{}{}:
		case <-th.exited:
		}
		<-th.exited
	}
	x.flushAcc()
	X = nil
}

func (x *Exec) spawn(name string, fn func()) *Thread {
	t := &Thread{id: len(x.threads), name: name, wake: make(chan struct{}), exited: make(chan struct{}), fn: fn}
	x.threads = append(x.threads, t)
	return t
}

func (x *Exec) threadBody(t *Thread) {
	normal := false
	defer func() {
		if !normal && !t.dying {
			if r := recover(); r != nil {
				if !x.ended {
					x.CrashMsg = fmt.Sprintf("panic in goroutine %q: %v\n%s", t.name, r, trimStack(debug.Stack()))
					x.end(Crash)
				}
			}
		} else if t.dying {
			recover()
		}
		t.dead = true
		if !x.ended {
			if t == x.mainT {
				x.end(Done)
			} else {
				x.next(t)
			}
		}
		close(t.exited)
	}()
	t.fn()
	normal = true
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.Contains(l, "childe/healer") && !strings.Contains(l, "/vrt.") {
			out = append(out, l, lines[i+1])
			i++
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// end marks the execution as over; must be called by the running thread.
func (x *Exec) end(s Status) {
	if x.ended {
		return
	}
	x.ended = true
	x.Status = s
	x.ender = x.cur
	close(x.endCh)
}

// finish ends the execution from inside a thread and does not return.
func (x *Exec) finish(s Status) {
	t := x.cur
	x.end(s)
	t.die()
}

func (t *Thread) die() {
	t.dying = true
	runtime.Goexit()
}

// enter returns the running thread and unwinds it if the execution is over.
func enter() (*Exec, *Thread) {
	x := X
	if x == nil {
		panic("vrt: operation outside an execution")
	}
	t := x.cur
	if x.ended {
		t.die() // the ending thread, or one being killed, unwinding
	}
	return x, t
}

// over reports that the execution has ended (deferred cleanups become no-ops).
func over() bool { return X == nil || X.ended }

// Active reports whether an execution is running.
func Active() bool { return X != nil && !X.ended }

func (x *Exec) mix(v uint64) {
	x.hash ^= v
	x.hash *= 1099511628211
}

func (x *Exec) mixs(s string) {
	for i := 0; i < len(s); i++ {
		x.mix(uint64(s[i]))
	}
}

// choose is the single decision function. Option 0 is the default.
func (x *Exec) choose(k byte, n int) int {
	if n <= 1 {
		return 0
	}
	if x.noExp > 0 && k != KInput {
		return 0
	}
	i := x.np
	x.np++
	x.mix(uint64(k))
	x.mix(uint64(n))
	x.mix(uint64(x.cur.id) + 77)
	h := x.hash
	c := 0
	if x.di < len(x.devs) {
		d := x.devs[x.di]
		if d.I == i {
			if d.K != k || d.Alt >= n || (d.H != 0 && d.H != h) {
				x.CrashMsg = fmt.Sprintf("replay diverged at point %d: want kind %c hash %x, have kind %c n=%d hash %x", i, d.K, d.H, k, n, h)
				x.finish(Diverged)
			}
			c = d.Alt
			x.di++
		}
	}
	if x.di >= len(x.devs) {
		last := -1
		if len(x.devs) > 0 {
			last = x.devs[len(x.devs)-1].I
		}
		if i > last {
			x.Points = append(x.Points, Point{n, k, h})
		}
	}
	x.mix(uint64(c) + 1000)
	return c
}

// FirstPoint is the index of Points[0].
func (x *Exec) FirstPoint() int {
	if len(x.devs) == 0 {
		return 0
	}
	return x.devs[len(x.devs)-1].I + 1
}

// Replayed reports whether all deviations were consumed.
func (x *Exec) Replayed() bool { return x.di == len(x.devs) }

// NPoints is the number of choice points met.
func (x *Exec) NPoints() int { return x.np }

// NSteps is the number of scheduling steps executed.
func (x *Exec) NSteps() int { return x.steps }

// Choose is an environment choice (cost 1 when not 0).
func Choose(n int) int {
	x, _ := enter()
	return x.choose(KEnv, n)
}

// Input is a zero-cost exhaustive choice.
func Input(n int) int {
	x, _ := enter()
	return x.choose(KInput, n)
}

// Quiet turns recording of choice points off (true) or on again (false).
func Quiet(q bool) {
	if X == nil {
		return
	}
	if q {
		X.noExp++
	} else {
		X.noExp--
	}
}

// Fail records a property violation.
func (x *Exec) Fail(format string, a ...any) {
	x.Fails = append(x.Fails, fmt.Sprintf(format, a...))
}

// Event records an observation.
func (x *Exec) Event(format string, a ...any) {
	if x.KeepEv || x.Trace {
		tn := "-"
		if x.cur != nil {
			tn = fmt.Sprintf("g%d", x.cur.id)
		}
		x.Events = append(x.Events, fmt.Sprintf("%8.3fs %-4s ", time.Duration(x.now).Seconds(), tn)+fmt.Sprintf(format, a...))
	}
}

// Stopf ends the execution immediately.
func (x *Exec) Stopf(s Status) { x.finish(s) }

func (x *Exec) isEnabled(t *Thread) bool {
	if t.dead {
		return false
	}
	return t.ready == nil || t.ready()
}

// enabledAfter lists enabled threads other than t in cyclic id order.
func (x *Exec) enabledAfter(t *Thread) []*Thread {
	n := len(x.threads)
	var out []*Thread
	start := 0
	if t != nil {
		start = t.id + 1
	}
	for k := 0; k < n; k++ {
		th := x.threads[(start+k)%n]
		if th == t {
			continue
		}
		if x.isEnabled(th) {
			out = append(out, th)
		}
	}
	return out
}

func (x *Exec) tick() {
	x.steps++
	if x.steps > x.MaxSteps {
		x.finish(Steps)
	}
}

// timerSoon: a timer of the next second may fire before enabled goroutines ran
// (longer ones, such as request timeouts, only when nothing else can happen).
func (x *Exec) timerSoon() bool {
	tm := x.nextTimer()
	return tm != nil && tm.at-x.now <= int64(time.Second)
}

// point is a possible preemption of the running thread.
func (x *Exec) point(t *Thread, k byte) {
	x.tick()
	if x.noExp > 0 {
		return
	}
	others := x.enabledAfter(t)
	n := 1 + len(others)
	timeOpt := x.TimeDev && k == KSched && x.timerSoon()
	if timeOpt {
		n++
	}
	stallOpt := x.Stall > 0 && t != x.mainT
	if stallOpt {
		n++
	}
	c := x.choose(k, n)
	if c == 0 {
		return
	}
	if stallOpt {
		if c == n-1 {
			x.stall(t)
			return
		}
		n--
	}
	if timeOpt && c == n-1 {
		x.fireNext()
		// the thread the timer woke runs first if any new one became enabled
		after := x.enabledAfter(t)
		for _, th := range after {
			was := false
			for _, o := range others {
				if o == th {
					was = true
				}
			}
			if !was {
				x.switchTo(t, th)
				return
			}
		}
		return
	}
	x.switchTo(t, others[c-1])
}

// stall holds t back until nothing else can happen within the span.
func (x *Exec) stall(t *Thread) {
	t.stalled, t.stallAt = true, x.now
	x.stalled++
	what := t.what
	t.what = "stalled"
	t.ready = func() bool { return !t.stalled }
	x.next(t)
	t.what = what
}

// unstall lets the goroutine that was held back first go on, if it is time.
func (x *Exec) unstall() bool {
	if x.stalled == 0 {
		return false
	}
	var first *Thread
	for _, th := range x.threads {
		if th.stalled && !th.dead && (first == nil || th.stallAt < first.stallAt) {
			first = th
		}
	}
	if first == nil {
		return false
	}
	if tm := x.nextTimer(); tm != nil && tm.at <= first.stallAt+int64(x.Stall) {
		return false
	}
	first.stalled = false
	x.stalled--
	return true
}

// switchTo hands the processor from t (which stays runnable or blocked) to th.
func (x *Exec) switchTo(t, th *Thread) {
	if t == th {
		return
	}
	x.run(th)
	<-t.wake
	if t.kill {
		t.die()
	}
	x.cur = t
}

func (x *Exec) run(th *Thread) {
	x.cur = th
	th.ready = nil
	if !th.started {
		th.started = true
		go x.threadBody(th)
		return
	}
	th.wake <- struct{}{}
}

// next gives the processor away from a dead or blocked thread.
// For a blocked thread it returns once the thread is scheduled again.
func (x *Exec) next(t *Thread) {
	for {
		x.tickNoDie(t)
		if x.ended {
			if t.dead {
				return
			}
			t.die()
		}
		en := x.enabledAfter(t)
		self := !t.dead && x.isEnabled(t)
		if self { // the blocked thread became ready itself (a timer fired)
			en = append(en, t)
		}
		if len(en) == 0 {
			if x.unstall() {
				continue
			}
			if !x.advance() {
				if t.dead {
					return
				}
				t.die()
			}
			continue
		}
		c := 0
		if len(en) > 1 && x.noExp == 0 {
			if t.dead {
				c = x.chooseDead(len(en))
				if x.ended {
					return
				}
			} else {
				c = x.choose(KSched, len(en))
			}
		}
		th := en[c]
		if th == t {
			t.ready = nil
			x.cur = t
			return
		}
		x.run(th)
		if t.dead {
			return
		}
		<-t.wake
		if t.kill {
			t.die()
		}
		x.cur = t
		return
	}
}

// chooseDead is choose for an exiting thread (must not Goexit on divergence).
func (x *Exec) chooseDead(n int) (c int) {
	if x.di < len(x.devs) && x.devs[x.di].I == x.np {
		d := x.devs[x.di]
		if d.K != KSched || d.Alt >= n {
			x.CrashMsg = "replay diverged at thread exit"
			x.end(Diverged)
			return 0
		}
		// hash check is repeated in choose; compute it here first
		h := x.hash
		for _, v := range []uint64{uint64(KSched), uint64(n), uint64(x.cur.id) + 77} {
			h ^= v
			h *= 1099511628211
		}
		if d.H != 0 && d.H != h {
			x.CrashMsg = "replay diverged at thread exit"
			x.end(Diverged)
			return 0
		}
	}
	return x.choose(KSched, n)
}

func (x *Exec) tickNoDie(t *Thread) {
	x.steps++
	if x.steps > x.MaxSteps && !x.ended {
		x.end(Steps)
	}
}

func (x *Exec) nextTimer() *timer {
	for len(x.timers) > 0 && x.timers[0].stopped {
		x.timers = x.timers[1:]
	}
	if len(x.timers) == 0 {
		return nil
	}
	return x.timers[0]
}

func (x *Exec) addTimer(d time.Duration, fn func()) *timer {
	if d < 0 {
		d = 0
	}
	x.tseq++
	at := x.now + int64(d)
	if at < x.now { // overflow
		at = int64(^uint64(0) >> 1)
	}
	tm := &timer{at: at, seq: x.tseq, fn: fn}
	i := sort.Search(len(x.timers), func(i int) bool {
		o := x.timers[i]
		return o.at > tm.at || (o.at == tm.at && o.seq > tm.seq)
	})
	x.timers = append(x.timers, nil)
	copy(x.timers[i+1:], x.timers[i:])
	x.timers[i] = tm
	return tm
}

func (x *Exec) fireNext() {
	tm := x.nextTimer()
	if tm == nil {
		return
	}
	x.timers = x.timers[1:]
	if tm.at > x.now {
		x.now = tm.at
	}
	tm.fn()
}

// advance moves virtual time to the next timer; false ends the execution.
func (x *Exec) advance() bool {
	tm := x.nextTimer()
	if tm == nil {
		x.end(Deadlock)
		return false
	}
	if time.Duration(tm.at) > x.HorizonT {
		x.end(Horizon)
		return false
	}
	x.fireNext()
	return true
}

// block suspends the running thread until ready() holds.
func (x *Exec) block(t *Thread, what string, ready func() bool) {
	if ready() {
		return
	}
	t.ready = ready
	t.what = what
	x.next(t)
}

// P is a statement-level scheduling point inserted by the instrumenter.
func P() {
	if X == nil || X.ended || !X.Fine || X.noExp > 0 {
		return
	}
	x := X
	x.point(x.cur, KFine)
}

// Yield is a coarse scheduling point.
func Yield() {
	x, t := enter()
	x.point(t, KSched)
}

// Go starts a goroutine.
func Go(fn func()) { GoNamed("", fn) }

// GoNamed starts a named goroutine.
func GoNamed(name string, fn func()) {
	x, t := enter()
	if name == "" {
		_, file, line, ok := runtime.Caller(2)
		if ok {
			if i := strings.LastIndex(file, "/"); i >= 0 {
				file = file[i+1:]
			}
			name = fmt.Sprintf("%s:%d", file, line)
		}
	}
	x.spawn(name, fn)
	x.point(t, KSched)
}

// Blocked describes the blocked goroutines (for reports).
func (x *Exec) Blocked() string {
	var sb strings.Builder
	for _, t := range x.threads {
		if !t.dead {
			fmt.Fprintf(&sb, "[g%d %s: %s] ", t.id, t.name, t.what)
		}
	}
	return sb.String()
}

// WaitUntil blocks the calling thread until cond holds (harness use); it
// returns false if timeout of virtual time passed first.
func WaitUntil(what string, timeout time.Duration, cond func() bool) bool {
	x, t := enter()
	expired := false
	var tm *timer
	if timeout > 0 {
		tm = x.addTimer(timeout, func() { expired = true })
	}
	x.block(t, what, func() bool { return expired || cond() })
	if tm != nil {
		tm.stopped = true
	}
	return cond()
}

// Settle lets all other goroutines run until nothing more is enabled at the
// current instant (no time passes).
func Settle() {
	x, t := enter()
	x.block(t, "settle", func() bool {
		for _, th := range x.threads {
			if th != t && !th.dead && th.what != "settle" && (th.ready == nil || th.ready()) {
				return false
			}
		}
		return true
	})
}

// AfterFn schedules a harness callback at now+d (runs in scheduler context,
// must not block).
func AfterFn(d time.Duration, fn func()) func() {
	tm := X.addTimer(d, fn)
	return func() { tm.stopped = true }
}

// NowD is the virtual time since start.
func NowD() time.Duration { return time.Duration(X.now) }

// CurID is the id of the running goroutine.
func CurID() int { return X.cur.id }
