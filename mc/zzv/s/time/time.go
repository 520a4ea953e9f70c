// Package time replaces the standard one in the instrumented tracker: the clock is virtual.
package time

import (
	real "time"

	"github.com/crimist/trakx/zzv/vs"
)

// Now is the virtual time.
func Now() real.Time { return real.Unix(0, vs.Now()).UTC() }

func Since(t real.Time) real.Duration { return Now().Sub(t) }
func Until(t real.Time) real.Duration { return t.Sub(Now()) }
func Sleep(d real.Duration)           { vs.Sleep(int64(d)) }

// Timer is time.Timer on the virtual clock.
type Timer struct {
	C  <-chan real.Time
	ch chan real.Time
	f  func()
	t  *vs.Timer
}

func (t *Timer) arm(d real.Duration) {
	if d < 0 {
		d = 0
	}
	t.t = vs.AddTimer(vs.Now()+int64(d), func() {
		t.t = nil
		if t.f != nil {
			vs.Go(t.f)
			return
		}
		vs.TrySendNB(t.ch, Now())
	})
}

func NewTimer(d real.Duration) *Timer {
	c := make(chan real.Time, 1)
	t := &Timer{C: c, ch: c}
	t.arm(d)
	return t
}

func AfterFunc(d real.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}

func After(d real.Duration) <-chan real.Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	if t.t == nil {
		return false
	}
	r := t.t.Stop()
	t.t = nil
	if t.ch != nil {
		select {
		case <-t.ch:
		default:
		}
	}
	return r
}

func (t *Timer) Reset(d real.Duration) bool {
	r := t.Stop()
	t.arm(d)
	return r
}

// Ticker is time.Ticker on the virtual clock.
type Ticker struct {
	C  <-chan real.Time
	ch chan real.Time
	d  real.Duration
	t  *vs.Timer
	on bool
}

func NewTicker(d real.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan real.Time, 1)
	t := &Ticker{C: c, ch: c, d: d, on: true}
	t.arm(vs.Now() + int64(d))
	return t
}

func (t *Ticker) arm(at int64) {
	t.t = vs.AddTimer(at, func() {
		vs.TrySendNB(t.ch, Now())
		if t.on {
			t.arm(at + int64(t.d))
		}
	})
}

func (t *Ticker) Stop() {
	t.on = false
	if t.t != nil {
		t.t.Stop()
	}
}

func (t *Ticker) Reset(d real.Duration) {
	t.Stop()
	t.d = d
	t.on = true
	t.arm(vs.Now() + int64(d))
}

func Tick(d real.Duration) <-chan real.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
