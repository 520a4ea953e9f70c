// Package context replaces the standard one in the instrumented tracker: deadlines use the virtual clock.
package context

import (
	real "context"
	"errors"
	"time"

	"github.com/crimist/trakx/zzv/vs"
)

type cctx struct {
	real.Context
	done  chan struct{}
	err   error
	dl    time.Time
	hasDL bool
}

func (c *cctx) Done() <-chan struct{} { return c.done }
func (c *cctx) Err() error            { return c.err }
func (c *cctx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.dl, true
	}
	return c.Context.Deadline()
}
func (c *cctx) cancel(err error) {
	if c.err == nil {
		c.err = err
		vs.Quiet(func() { vs.Close(c.done) })
	}
}

func WithCancel(parent real.Context) (real.Context, real.CancelFunc) {
	c := &cctx{Context: parent, done: make(chan struct{})}
	watch(parent, c)
	return c, func() { c.cancel(real.Canceled) }
}

func watch(parent real.Context, c *cctx) {
	if err := parent.Err(); err != nil {
		c.cancel(err)
		return
	}
	if done := parent.Done(); done != nil {
		vs.Go(func() {
			vs.Recv(done)
			c.cancel(parent.Err())
		})
	}
}

func WithDeadline(parent real.Context, d time.Time) (real.Context, real.CancelFunc) {
	c := &cctx{Context: parent, done: make(chan struct{}), dl: d, hasDL: true}
	watch(parent, c)
	t := vs.AddTimer(d.UnixNano(), func() { c.cancel(real.DeadlineExceeded) })
	return c, func() { t.Stop(); c.cancel(real.Canceled) }
}

func WithTimeout(parent real.Context, d time.Duration) (real.Context, real.CancelFunc) {
	return WithDeadline(parent, time.Unix(0, vs.Now()).Add(d))
}

var errUnused = errors.New("")
