// Package vs is the controlled scheduler every shim of the instrumented tracker runs on.
//
// One task runs at a time. A task gives control back only inside vs: at a scheduling point
// (before acquiring a lock, an atomic, a channel operation, an I/O call, optionally after a release),
// when it blocks, or when it ends. Every decision - which task goes next, which environment answer
// is given, in which order a map is walked - is a recorded choice; the explorer (explore.go)
// re-executes the scenario for every combination of choices within the bounds.
package vs

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
)

// Kinds of choices.
const (
	KSched = iota // which task runs next
	KEnv          // environment deviation (fault, short read, ...)
	KFree         // scenario choice: no cost
)

// Budget bounds one exploration.
// OnPoint is called before scheduling points of an execution, until it returns true. It may block.
var OnPoint func(task, desc string) bool

func init() { OnReset(func() { OnPoint = nil }) }

type Budget struct {
	Preempt  int  // preemptive context switches per execution
	Env      int  // environment deviations per execution
	Release  bool // scheduling points after releases too
	MapOrder bool // explore forward and reverse map iteration order
	MaxSteps int  // horizon: scheduling points per execution
	FreeSw   int  // >0: bound on non-default choices at blocking switches too (0 = unbounded)
	NoAtomic bool // no scheduling points at atomics
	Pools    bool // scheduling points after objects were put into pools too
}

type Task struct {
	ID      int
	Name    string
	Proc    int
	wake    chan struct{}
	pred    func() bool // nil: runnable
	idle    bool        // only runnable when nothing else is
	desc    string
	kill    bool
	dead    bool
	daemon  bool
	started bool
	fn      func()
}

type timer struct {
	at   int64
	seq  int
	fire func()
	dead bool
}

type rec struct {
	n, i   int32
	kind   uint8
	paid   bool // alternatives other than 0 cost budget
	pre    int16
	env    int16
	freesw int16
}

// Exec is one execution of a scenario.
type Exec struct {
	b        Budget
	graves   []*Task // ended and forgotten
	tasks    []*Task
	cur      *Task
	recs     []rec
	prefix   []int32
	steps    int
	preempts int
	envs     int
	freesw   int
	now      int64
	timers   []*timer
	tseq     int
	nextID   int
	nextProc int
	finished bool // main returned
	killing  bool
	killAck  chan struct{}
	done     chan struct{}
	quiet    int // >0: scheduling points suppressed

	exits []Exit

	Failure  string // first violation
	failKind string
	Nondet   bool
	Trace    []string
	tracing  bool
	Stack    string

	onKill []func()
	states []uint64
	Ext    []any // per-execution state of shims
}

type Exit struct{ Proc, Code int }

var (
	E        *Exec // current execution, nil outside of one
	Progress atomic.Int64
	raceOn   bool
)

// Epoch is the virtual time at which every execution starts: not on a minute boundary.
const Epoch int64 = 1_600_000_000_500_000_000

var passNow = Epoch

// Active reports whether a scheduled execution is running and the caller is one of its tasks.
func Active() bool { return E != nil && E.cur != nil }

func (e *Exec) fail(kind, msg string) {
	if e.Failure == "" {
		e.Failure = msg
		e.failKind = kind
	}
}

// Fail records a property violation; the execution goes on.
func Fail(format string, a ...any) {
	if E != nil {
		E.fail("violation", fmt.Sprintf(format, a...))
	}
}

// Failed reports whether this execution already failed.
func Failed() bool { return E != nil && E.Failure != "" }

// Stop ends the execution immediately (after Fail).
func Stop() {
	if E == nil {
		return
	}
	E.finishNow()
}

func (e *Exec) finishNow() {
	// only meaningful from a task: end the main scenario
	e.finished = true
	me := e.cur
	e.killAll(func(t *Task) bool { return t != me })
	me.kill = true
	runtime.Goexit()
}

// ---- choices ----

func (e *Exec) choose(n int, kind uint8, paid bool) int {
	if n <= 1 {
		return 0
	}
	pos := len(e.recs)
	i := int32(0)
	if pos < len(e.prefix) {
		i = e.prefix[pos]
		if int(i) >= n {
			e.Nondet = true
			i = 0
		}
	}
	Push(&e.recs, rec{n: int32(n), i: i, kind: kind, paid: paid, pre: int16(e.preempts), env: int16(e.envs), freesw: int16(e.freesw)})
	if i > 0 && paid {
		switch kind {
		case KSched:
			e.preempts++
		case KEnv:
			e.envs++
		}
	}
	if i > 0 && !paid && kind == KSched {
		e.freesw++
	}
	return int(i)
}

// Choose is a scenario choice among n, explored completely.
func Choose(n int) int {
	if E == nil {
		return 0
	}
	return E.choose(n, KFree, false)
}

// Env asks the environment for an answer: 0 is the default, every other answer costs one deviation.
func Env(n int) int {
	if E == nil || E.envs >= E.b.Env {
		return 0
	}
	return E.choose(n, KEnv, true)
}

// ---- points and blocking ----

func (t *Task) runnable() bool {
	if t.dead {
		return false
	}
	if t.kill {
		return true
	}
	if t.pred == nil {
		return true
	}
	return t.pred()
}

// Trace adds a line to the trace of a replayed execution.
func Tracef(format string, a ...any) {
	if E != nil && E.tracing {
		name := "?"
		if E.cur != nil {
			name = E.cur.Name
		}
		E.Trace = append(E.Trace, fmt.Sprintf("[%s] ", name)+fmt.Sprintf(format, a...))
	}
}

func Tracing() bool { return E != nil && E.tracing }

// CheckDead ends the calling task if its process was killed.
func CheckDead() {
	if E != nil && E.cur != nil && E.cur.kill {
		runtime.Goexit()
	}
}

// Dying reports whether the calling task is being unwound.
func Dying() bool { return E != nil && E.cur != nil && E.cur.kill }

// Quiet runs f without scheduling points.
func Quiet(f func()) {
	if E == nil {
		f()
		return
	}
	e := E
	e.quiet++
	defer func() { e.quiet-- }()
	f()
}

// Point is a scheduling point.
func Point(desc string) {
	e := E
	if e == nil || e.cur == nil {
		return
	}
	t := e.cur
	if t.kill {
		return
	}
	if f := OnPoint; f != nil && e.quiet == 0 {
		OnPoint = nil
		if !f(t.Name, desc) {
			OnPoint = f
		}
	}
	if e.quiet == 0 {
		e.steps++
	}
	if e.b.MaxSteps > 0 && e.steps > e.b.MaxSteps {
		e.fail("horizon", fmt.Sprintf("no progress within %d steps (livelock?), last at %s in task %s", e.b.MaxSteps, desc, t.Name))
		e.finishNow()
	}
	if e.tracing && e.quiet == 0 {
		e.Trace = append(e.Trace, fmt.Sprintf("[%s] %s", t.Name, desc))
	}
	if e.quiet > 0 || e.preempts >= e.b.Preempt {
		return
	}
	var en [64]*Task
	k := 0
	for _, o := range e.tasks {
		if o != t && !o.idle && !o.dead && o.runnable() && k < len(en) {
			en[k] = o
			k++
		}
	}
	if k == 0 {
		return
	}
	alt := e.choose(1+k, KSched, true)
	if alt == 0 {
		return
	}
	e.switchTo(en[alt-1])
}

// ReleasePoint is a scheduling point after a release.
func ReleasePoint(desc string) {
	if E != nil && E.b.Release {
		Point(desc)
	}
}

// Block waits until pred holds. pred must be pure.
func Block(desc string, pred func() bool) {
	e := E
	if e == nil || e.cur == nil {
		if !pred() {
			panic("vs: would block forever outside of an execution: " + desc)
		}
		return
	}
	t := e.cur
	if t.kill {
		return
	}
	for !pred() {
		t.pred = pred
		t.desc = desc
		e.dispatch()
		t.pred = nil
		if t.kill {
			runtime.Goexit()
		}
	}
}

// WaitIdle waits until every other task is blocked (timers do not count as runnable).
func WaitIdle() {
	e := E
	if e == nil || e.cur == nil {
		return
	}
	t := e.cur
	t.idle = true
	t.desc = "wait idle"
	e.dispatch()
	t.idle = false
	if t.kill {
		runtime.Goexit()
	}
}

// dispatch gives control to some runnable task; returns when the caller runs again.
func (e *Exec) dispatch() {
	me := e.cur
	for {
		var en [64]*Task
		k := 0
		for _, o := range e.tasks {
			if !o.idle && o.runnable() && k < len(en) {
				en[k] = o
				k++
			}
		}
		if k == 0 {
			// idle waiters next
			for _, o := range e.tasks {
				if o.idle && !o.dead && k < len(en) {
					en[k] = o
					k++
					break
				}
			}
		}
		if k == 0 {
			if e.fireNext() {
				continue
			}
			e.deadlock()
			// main is woken to finish
			if me == e.tasks[0] {
				e.finishNow()
			}
			en[0] = e.tasks[0]
			e.tasks[0].kill = true
			e.finished = true
			k = 1
		}
		alt := 0
		if k > 1 && (e.b.FreeSw == 0 || e.freesw < e.b.FreeSw) {
			alt = e.choose(k, KSched, false)
		}
		if en[alt] == me {
			return
		}
		e.switchTo(en[alt])
		return
	}
}

func (e *Exec) deadlock() {
	var s []string
	for _, t := range e.tasks {
		if !t.dead {
			Push(&s, t.Name+" at "+t.desc)
		}
	}
	e.fail("deadlock", "deadlock: every task is blocked: "+strings.Join(s, "; "))
}

// Blocked lists the tasks of proc that have not ended, with what they wait for.
func Blocked(proc int) []string {
	var s []string
	for _, t := range E.tasks {
		if !t.dead && t.Proc == proc && t != E.cur {
			Push(&s, t.Name+" at "+t.desc)
		}
	}
	return s
}

// AliveTasks counts tasks of proc that have not ended.
func AliveTasks(proc int) int {
	n := 0
	for _, t := range E.tasks {
		if !t.dead && t.Proc == proc {
			n++
		}
	}
	return n
}

func (e *Exec) switchTo(o *Task) {
	me := e.cur
	e.cur = o
	raceDisable()
	o.resume()
	<-me.wake
	raceEnable()
	// whoever woke us set e.cur
}

func (t *Task) resume() {
	if !t.started {
		t.started = true
		go t.run()
	}
	t.wake <- struct{}{}
}

func (t *Task) run() {
	raceDisable()
	<-t.wake
	raceEnable()
	e := E
	normal := false
	defer func() {
		if !normal && !t.kill {
			if r := recover(); r != nil {
				e.Stack = string(debug.Stack())
				e.fail("panic", fmt.Sprintf("panic in task %s: %v", t.Name, r))
				if e.OnPanic() {
					// a panic stops the whole process
					e.killProcOf(t, 2)
				}
			}
		}
		t.end()
	}()
	if t.kill {
		normal = true
		return
	}
	raceAcquire(&t.wake)
	t.fn()
	normal = true
}

// OnPanic: a panic in any goroutine ends the process it belongs to.
func (e *Exec) OnPanic() bool { return true }

func (e *Exec) killProcOf(t *Task, code int) {
	Push(&e.exits, Exit{t.Proc, code})
	for _, f := range e.onKill {
		f()
	}
	if t.Proc == 0 && t != e.tasks[0] {
		// the process of the scenario itself: the execution is over
		e.finished = true
		e.killAll(func(o *Task) bool { return o != t })
	} else {
		e.killAll(func(o *Task) bool { return o != t && o.Proc == t.Proc })
	}
	t.kill = true
}

// end is the last thing a task does.
func (t *Task) end() {
	e := E
	t.dead = true
	t.pred = nil
	raceRelease(&t.dead)
	if e.killing {
		raceDisable()
		e.killAck <- struct{}{}
		raceEnable()
		return
	}
	if t == e.tasks[0] {
		if !e.finished {
			e.finished = true
		}
		e.cur = t
		e.killAll(func(o *Task) bool { return o != t })
		e.cur = nil
		raceDisable()
		close(e.done)
		raceEnable()
		return
	}
	if e.finished {
		// finishNow was called from a task other than main: main was killed already
		e.cur = nil
		raceDisable()
		close(e.done)
		raceEnable()
		return
	}
	// pick a successor
	e.dispatchFromDead(t)
}

func (e *Exec) dispatchFromDead(me *Task) {
	for {
		var en [64]*Task
		k := 0
		for _, o := range e.tasks {
			if !o.idle && o.runnable() && k < len(en) {
				en[k] = o
				k++
			}
		}
		if k == 0 {
			for _, o := range e.tasks {
				if o.idle && !o.dead {
					en[k] = o
					k++
					break
				}
			}
		}
		if k == 0 {
			if e.fireNext() {
				continue
			}
			e.deadlock()
			en[0] = e.tasks[0]
			e.tasks[0].kill = true
			k = 1
		}
		alt := 0
		if k > 1 && (e.b.FreeSw == 0 || e.freesw < e.b.FreeSw) {
			alt = e.choose(k, KSched, false)
		}
		e.cur = en[alt]
		raceDisable()
		en[alt].resume()
		raceEnable()
		return
	}
}

// killAll unwinds every selected task that has not ended.
func (e *Exec) killAll(sel func(*Task) bool) {
	saved := e.cur
	was := e.killing
	e.killing = true
	for i := 0; i < len(e.tasks); i++ {
		t := e.tasks[i]
		if t.dead || !sel(t) {
			continue
		}
		t.kill = true
		if !t.started {
			t.dead = true
			continue
		}
		e.cur = t
		raceDisable()
		t.resume()
		<-e.killAck
		raceEnable()
	}
	e.killing = was
	e.cur = saved
}

// Go starts a task in the process of the caller.
func Go(fn func()) { spawn("", -1, fn) }

// GoNamed starts a named task.
func GoNamed(name string, fn func()) *Task { return spawn(name, -1, fn) }

// GoProc starts a task as the first one of a new process and returns the process number.
func GoProc(name string, fn func()) int {
	E.nextProc++
	p := E.nextProc
	spawn(name, p, fn)
	return p
}

func spawn(name string, proc int, fn func()) *Task {
	e := E
	if e == nil || e.cur == nil {
		// outside of an execution: background work is not run
		return nil
	}
	if e.cur.kill {
		return nil
	}
	t := &Task{ID: e.nextID, Proc: proc, wake: make(chan struct{}, 1), fn: fn, Name: name}
	e.nextID++
	if proc < 0 {
		t.Proc = e.cur.Proc
	}
	if t.Name == "" {
		t.Name = fmt.Sprintf("g%d", t.ID)
		if e.cur.Name != "" {
			t.Name = e.cur.Name + "/" + t.Name
		}
	}
	t.desc = "start"
	if len(e.tasks) >= 60 {
		e.bury()
	}
	if len(e.tasks) >= 60 {
		e.fail("internal", "too many tasks")
		e.finishNow()
	}
	Push(&e.tasks, t)
	raceRelease(&t.wake)
	Point("go")
	return t
}

// bury forgets the tasks that have ended (all but the first).
func (e *Exec) bury() {
	live := e.tasks[:1]
	for _, t := range e.tasks[1:] {
		if t.dead {
			Push(&e.graves, t)
		} else {
			Push(&live, t)
		}
	}
	e.tasks = live
}

// Done reports whether the task ended, and orders its actions before the caller's.
func (t *Task) Done() bool { return t.dead }

// Join waits for tasks.
func Join(ts ...*Task) {
	Block("join", func() bool {
		for _, t := range ts {
			if !t.dead {
				return false
			}
		}
		return true
	})
	for _, t := range ts {
		raceAcquire(&t.dead)
	}
}

// CurProc is the process of the running task.
func CurProc() int {
	if E == nil || E.cur == nil {
		return 0
	}
	return E.cur.Proc
}

func CurTask() string {
	if E == nil || E.cur == nil {
		return ""
	}
	return E.cur.Name
}

// ExitProc is os.Exit.
func ExitProc(code int) {
	e := E
	if e == nil || e.cur == nil {
		panic(fmt.Sprintf("vs: exit(%d) outside of an execution", code))
	}
	me := e.cur
	if me.kill {
		runtime.Goexit()
	}
	Tracef("exit(%d)", code)
	if me.Proc == 0 {
		e.fail("exit", fmt.Sprintf("process exit with code %d", code))
		Push(&e.exits, Exit{0, code})
		e.finishNow()
	}
	e.killProcOf(me, code)
	runtime.Goexit()
}

// KillProc ends every task of a process from outside.
func KillProc(proc, code int) {
	e := E
	Push(&e.exits, Exit{proc, code})
	for _, f := range e.onKill {
		f()
	}
	e.killAll(func(o *Task) bool { return o.Proc == proc && o != e.cur })
	if e.cur.Proc == proc {
		e.cur.kill = true
		runtime.Goexit()
	}
}

// Exited returns the exit code of a process.
func Exited(proc int) (int, bool) {
	for _, x := range E.exits {
		if x.Proc == proc {
			return x.Code, true
		}
	}
	return 0, false
}

// WaitExit blocks until the process exited; false if everything went idle first.
func WaitExitOrIdle(proc int) bool {
	e := E
	for {
		if _, ok := Exited(proc); ok {
			return true
		}
		WaitIdle()
		if _, ok := Exited(proc); ok {
			return true
		}
		if !e.fireNext() {
			return false
		}
	}
}

// ---- virtual time ----

func Now() int64 {
	if E == nil {
		return passNow
	}
	return E.now
}

func (e *Exec) fireNext() bool {
	best := -1
	for i, t := range e.timers {
		if t.dead {
			continue
		}
		if best < 0 || t.at < e.timers[best].at || (t.at == e.timers[best].at && t.seq < e.timers[best].seq) {
			best = i
		}
	}
	if best < 0 {
		return false
	}
	t := e.timers[best]
	for i := best; i+1 < len(e.timers); i++ {
		e.timers[i] = e.timers[i+1]
	}
	e.timers = e.timers[:len(e.timers)-1]
	if t.at > e.now {
		e.now = t.at
	}
	e.quiet++
	t.fire()
	e.quiet--
	return true
}

// Push appends without letting the race detector see it.
//
//go:norace
func Push[T any](s *[]T, v T) {
	x := *s
	if len(x) == cap(x) {
		n := make([]T, len(x), 2*len(x)+8)
		for i := range x {
			n[i] = x[i]
		}
		x = n
	}
	x = x[:len(x)+1]
	x[len(x)-1] = v
	*s = x
}

// Timer is a pending virtual timer.
type Timer struct{ t *timer }

func AddTimer(at int64, fire func()) *Timer {
	e := E
	if e == nil {
		return &Timer{&timer{dead: true}}
	}
	// compact
	if len(e.timers) > 32 {
		j := 0
		for _, t := range e.timers {
			if !t.dead {
				e.timers[j] = t
				j++
			}
		}
		e.timers = e.timers[:j]
	}
	e.tseq++
	t := &timer{at: at, seq: e.tseq, fire: fire}
	Push(&e.timers, t)
	return &Timer{t}
}

// Stop cancels; reports whether it was pending.
func (t *Timer) Stop() bool {
	if t == nil || t.t.dead {
		return false
	}
	for _, x := range E.timers {
		if x == t.t {
			t.t.dead = true
			return true
		}
	}
	return false
}

// Timers counts the pending timers.
func Timers() int {
	n := 0
	for _, t := range E.timers {
		if !t.dead {
			n++
		}
	}
	return n
}

// Sleep blocks the caller for d of virtual time.
func Sleep(d int64) {
	e := E
	if e == nil || e.cur == nil {
		if d > 0 {
			passNow += d
		}
		return
	}
	if e.cur.kill {
		runtime.Goexit()
	}
	Point("sleep")
	if d <= 0 {
		return
	}
	fired := false
	AddTimer(e.now+d, func() { fired = true })
	Block("sleep", func() bool { return fired })
}

// AdvanceTo lets virtual time pass (only meaningful when everything else is idle): fires due timers one by
// one, letting woken tasks run to idleness between them, until the clock shows at.
func AdvanceTo(at int64) {
	e := E
	if e == nil {
		if at > passNow {
			passNow = at
		}
		return
	}
	for {
		WaitIdle()
		next := int64(-1)
		for _, t := range e.timers {
			if !t.dead && (next < 0 || t.at < next) {
				next = t.at
			}
		}
		if next < 0 || next > at {
			break
		}
		e.fireNext()
	}
	if at > e.now {
		e.now = at
	}
}

// Fire lets the clock jump to at and wakes everything due by then, without letting it run first: what is woken
// interleaves with whatever is still running.
func Fire(at int64) {
	e := E
	if e == nil {
		if at > passNow {
			passNow = at
		}
		return
	}
	Point("clock")
	for {
		due := false
		for _, t := range e.timers {
			if !t.dead && t.at <= at {
				due = true
			}
		}
		if !due {
			break
		}
		e.fireNext()
	}
	if at > e.now {
		e.now = at
	}
}

// Advance moves the clock by d.
func Advance(d int64) { AdvanceTo(Now() + d) }

// SetNow sets the clock without firing anything (sequential harnesses).
func SetNow(at int64) {
	if E == nil {
		passNow = at
	} else {
		E.now = at
	}
}

// JumpClock moves only the clock; timers that are due fire when tasks go idle.
func JumpClock(d int64) {
	if E != nil {
		E.now += d
	} else {
		passNow += d
	}
}

// StepClock sets the wall clock forward or back by d; what sleeps wakes when it would have.
func StepClock(d int64) {
	JumpClock(d)
	if E != nil {
		for _, t := range E.timers {
			t.at += d
		}
	}
}

// Steps is the number of scheduling points so far in this execution.
func Steps() int {
	if E == nil {
		return 0
	}
	return E.steps
}

// Preempts is the number of preemptions taken so far in this execution.
func Preempts() int { return E.preempts }

// OnKill registers a callback run when any process is killed or exits.
func OnKill(f func()) { Push(&E.onKill, f) }

// BlockForever is select{}.
func BlockForever() {
	Block("select{}", func() bool { return false })
	if Dying() {
		runtime.Goexit()
	}
	select {}
}

// AtomicPoint is a scheduling point at an atomic operation.
func AtomicPoint(desc string) {
	if E != nil && !E.b.NoAtomic {
		Point(desc)
	}
}

// PoolPoint is a scheduling point once an object is back in its pool.
func PoolPoint() {
	if E != nil && E.b.Pools {
		Point("Pool.Put done")
	}
}

// Goexit ends the calling task.
func Goexit() { runtime.Goexit() }
