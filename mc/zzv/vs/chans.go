package vs

import (
	"runtime"
	"unsafe"
)

// Buffered channels keep their real buffer: operations on it are made only when they cannot block.
// Unbuffered ones rendezvous through a side table.

type waiter struct {
	val   any
	taken bool
	sel   *Sel
}

type chanState struct {
	p      unsafe.Pointer
	closed bool
	sendq  []*waiter
	recvw  int // tasks currently waiting to receive
	hb     int
}

type chanTab struct{ list []*chanState }

var chtab chanTab

func init() { OnReset(func() { chtab.list = nil }) }

func stOf(p unsafe.Pointer) *chanState {
	for _, s := range chtab.list {
		if s.p == p {
			return s
		}
	}
	s := &chanState{p: p}
	Push(&chtab.list, s)
	return s
}

//go:norace
func chp[T any](ch chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

//go:norace
func bidiR[T any](ch <-chan T) chan T { return *(*chan T)(unsafe.Pointer(&ch)) }

//go:norace
func bidiS[T any](ch chan<- T) chan T { return *(*chan T)(unsafe.Pointer(&ch)) }

// Sel is one case of a select.
type Sel interface {
	ready() bool
	commit()
	enqueue(blocking bool)
	dequeue()
}

// ---- send ----

type SendC[T any] struct {
	ch chan T
	v  T
	w  *waiter
}

//go:norace
func (s *SendC[T]) ready() bool {
	if s.ch == nil {
		return false
	}
	if E == nil {
		return len(s.ch) < cap(s.ch)
	}
	st := stOf(chp(s.ch))
	if st.closed {
		return true
	}
	if cap(s.ch) > 0 {
		return len(s.ch) < cap(s.ch)
	}
	if s.w != nil && s.w.taken {
		return true
	}
	return st.recvw > len(st.pending())
}

func (st *chanState) pending() []*waiter {
	n := st.sendq[:0]
	for _, w := range st.sendq {
		if !w.taken {
			Push(&n, w)
		}
	}
	st.sendq = n
	return n
}

//go:norace
func (s *SendC[T]) enqueue(bool) {}

//go:norace
func (s *SendC[T]) dequeue() {}

//go:norace
func (s *SendC[T]) commit() {
	st := stOf(chp(s.ch))
	if st.closed {
		panic("send on closed channel")
	}
	if cap(s.ch) > 0 {
		select {
		case s.ch <- s.v:
		default:
			if !Dying() {
				panic("vs: buffered send not possible")
			}
		}
		return
	}
	// a receiver waits: hand over
	w := &waiter{val: s.v}
	Push(&st.sendq, w)
	RaceReleaseMerge(st.p)
}

// ---- receive ----

type RecvC[T any] struct {
	ch chan T
	V  T
	Ok bool
	in bool
}

//go:norace
func (r *RecvC[T]) ready() bool {
	if r.ch == nil {
		return false
	}
	if len(r.ch) > 0 {
		return true
	}
	if E == nil {
		return false
	}
	st := stOf(chp(r.ch))
	if len(st.pending()) > 0 {
		return true
	}
	return st.closed
}

//go:norace
func (r *RecvC[T]) enqueue(bool) {
	if r.ch != nil && !r.in && cap(r.ch) == 0 {
		r.in = true
		stOf(chp(r.ch)).recvw++
	}
}

//go:norace
func (r *RecvC[T]) dequeue() {
	if r.in {
		r.in = false
		stOf(chp(r.ch)).recvw--
	}
}

//go:norace
func (r *RecvC[T]) commit() {
	st := stOf(chp(r.ch))
	if len(r.ch) > 0 || (cap(r.ch) > 0 && st.closed) {
		select {
		case r.V, r.Ok = <-r.ch:
		default:
		}
		return
	}
	if q := st.pending(); len(q) > 0 {
		q[0].taken = true
		r.V, r.Ok = q[0].val.(T)
		if !r.Ok { // nil interface value
			r.Ok = true
		}
		RaceAcquire(st.p)
		RaceReleaseMerge(st.p)
		return
	}
	RaceAcquire(st.p)
	var z T
	r.V, r.Ok = z, false
}

//go:norace
func RecvCase[T any](ch <-chan T) *RecvC[T] { return &RecvC[T]{ch: bidiR(ch)} }

//go:norace
func SendCase[T any](ch chan<- T) func(T) *SendC[T] {
	return func(v T) *SendC[T] { return &SendC[T]{ch: bidiS(ch), v: v} }
}

// Select returns the index of the chosen case, -1 for default.
func Select(def bool, cases ...Sel) int {
	Point("select")
	for {
		var rd [16]int
		k := 0
		for i, c := range cases {
			if c.ready() && k < len(rd) {
				rd[k] = i
				k++
			}
		}
		if k > 0 {
			i := 0
			if k > 1 && E != nil {
				i = E.choose(k, KSched, true)
			}
			cases[rd[i]].commit()
			return rd[i]
		}
		if def {
			return -1
		}
		if Dying() {
			runtime.Goexit()
		}
		for _, c := range cases {
			c.enqueue(true)
		}
		ok := false
		func() {
			defer func() {
				for _, c := range cases {
					c.dequeue()
				}
			}()
			Block("select", func() bool {
				for _, c := range cases {
					if c.ready() {
						return true
					}
				}
				return false
			})
			ok = true
			// commit while still registered so that a handed-over value stays ours
			for i, c := range cases {
				if c.ready() {
					c.commit()
					rd[0] = i
					return
				}
			}
			ok = false
		}()
		if ok {
			return rd[0]
		}
		if Dying() {
			runtime.Goexit()
		}
	}
}

// SendTo is ch <- v as SendTo(ch)(v).
//
//go:norace
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		c := &SendC[T]{ch: bidiS(ch), v: v}
		Point("chan send")
		if c.ch == nil {
			BlockForever()
		}
		if E == nil {
			c.ch <- v
			return
		}
		Block("chan send", c.ready)
		if Dying() {
			runtime.Goexit()
		}
		c.commit()
		if cap(c.ch) == 0 {
			// rendezvous: return once the value was taken
			st := stOf(chp(c.ch))
			w := st.sendq[len(st.sendq)-1]
			Block("chan send", func() bool { return w.taken })
			RaceAcquire(st.p)
		}
	}
}

//go:norace
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

//go:norace
func Recv2[T any](ch <-chan T) (T, bool) {
	c := &RecvC[T]{ch: bidiR(ch)}
	Point("chan recv")
	if c.ch == nil {
		BlockForever()
	}
	if E == nil {
		v, ok := <-ch
		return v, ok
	}
	if !c.ready() {
		c.enqueue(true)
		defer c.dequeue()
		Block("chan recv", c.ready)
	}
	if Dying() {
		runtime.Goexit()
	}
	c.commit()
	return c.V, c.Ok
}

//go:norace
func Close[T any](ch chan<- T) {
	c := bidiS(ch)
	Point("chan close")
	if E != nil {
		if Dying() {
			return
		}
		st := stOf(chp(c))
		if st.closed {
			panic("close of closed channel")
		}
		st.closed = true
		RaceReleaseMerge(st.p)
	}
	close(c)
}

// TrySendNB delivers without blocking (signals, timers); reports success.
//
//go:norace
func TrySendNB[T any](ch chan T, v T) bool {
	c := &SendC[T]{ch: ch, v: v}
	if c.ready() {
		c.commit()
		return true
	}
	return false
}

// TrySend is TrySendNB for a send-only channel.
//
//go:norace
func TrySend[T any](ch chan<- T, v T) bool { return TrySendNB(bidiS(ch), v) }

// ChanIterT walks a channel until it is closed.
type ChanIterT[T any] struct{ ch <-chan T }

//go:norace
func ChanIter[T any](ch <-chan T) (v T, it *ChanIterT[T]) { return v, &ChanIterT[T]{ch} }

//go:norace
func ChanIter2[T any](ch <-chan T) *ChanIterT[T] { return &ChanIterT[T]{ch} }

//go:norace
func (it *ChanIterT[T]) Next(p *T) bool {
	v, ok := Recv2(it.ch)
	if ok && p != nil {
		*p = v
	}
	return ok
}

// CapHint keeps map preallocation small: executions are many and short.
//
//go:norace
func CapHint[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n T) int {
	if n > 64 {
		return 64
	}
	return int(n)
}
