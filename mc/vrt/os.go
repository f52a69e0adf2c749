package vrt

import (
	"context"
	"os"
)

// ExitCode is the panic value of OsExit.
type ExitCode int

// OnExit, if it is set, is told of the end of the program by os.Exit; nothing
// else of the goroutine is run, not even what it has deferred.
var OnExit func(code int)

// OsExit replaces os.Exit.
func OsExit(code int) {
	if OnExit != nil {
		OnExit(code)
		Recv((<-chan int)(make(chan int)))
	}
	panic(ExitCode(code))
}

type sigTarget struct {
	ch   chan<- os.Signal
	sigs []os.Signal
}

var sigTargets []sigTarget

// SignalNotify replaces signal.Notify.
func SignalNotify(ch chan<- os.Signal, sigs ...os.Signal) {
	sigTargets = append(sigTargets, sigTarget{ch, sigs})
}

// SignalStop replaces signal.Stop.
func SignalStop(ch chan<- os.Signal) {
	var l []sigTarget
	for _, s := range sigTargets {
		if s.ch != ch {
			l = append(l, s)
		}
	}
	sigTargets = l
}

// SignalNotifyContext replaces signal.NotifyContext.
func SignalNotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := WithCancel(parent)
	ch := make(chan os.Signal, 1)
	SignalNotify(ch, sigs...)
	GoNamed("signal", func() {
		sel := Select(false, CR((<-chan os.Signal)(ch)), CR(ctx.Done()))
		_ = sel
		cancel()
	})
	return ctx, func() { SignalStop(ch); cancel() }
}

// Signal sends the process a signal; like the real one it is dropped where it
// does not fit.  It tells whether anybody listens.
func Signal(s os.Signal) bool {
	heard := false
	for _, t := range sigTargets {
		ok := len(t.sigs) == 0
		for _, x := range t.sigs {
			ok = ok || x == s
		}
		if ok {
			heard = true
			sel := Select(true, CS(t.ch)(s))
			_ = sel
		}
	}
	return heard
}

// Listening tells whether the program waits for signals.
func Listening() bool { return len(sigTargets) > 0 }
