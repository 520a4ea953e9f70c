// Package signal replaces os/signal in the instrumented tracker.
package signal

import (
	"context"
	"os"
	"syscall"

	shim "github.com/crimist/trakx/zzv/s/context"
	"github.com/crimist/trakx/zzv/vproc"
	"github.com/crimist/trakx/zzv/vs"
)

func conv(s []os.Signal) (r []syscall.Signal) {
	for _, x := range s {
		if y, ok := x.(syscall.Signal); ok {
			r = append(r, y)
		}
	}
	return
}

func Notify(c chan<- os.Signal, s ...os.Signal) {
	if !vs.Active() {
		return
	}
	vs.CheckDead()
	vs.Point("signal.Notify")
	vproc.Notify(c, func(g syscall.Signal) { vs.TrySend(c, os.Signal(g)) }, conv(s))
}
func Stop(c chan<- os.Signal)  { vproc.StopNotify(c) }
func Ignore(s ...os.Signal)    { vproc.Ignore(conv(s)) }
func Reset(s ...os.Signal)     {}
func Ignored(s os.Signal) bool { return false }

// NotifyContext is done once one of the signals arrives, the parent is done or stop is called.
func NotifyContext(parent context.Context, s ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := shim.WithCancel(parent)
	c := make(chan os.Signal, 1)
	Notify(c, s...)
	if ctx.Err() == nil {
		vs.Go(func() {
			if vs.Select(false, vs.RecvCase((<-chan os.Signal)(c)), vs.RecvCase(ctx.Done())) == 0 {
				cancel()
			}
		})
	}
	return ctx, func() { cancel(); Stop(c) }
}
