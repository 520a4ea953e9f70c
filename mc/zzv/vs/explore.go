package vs

import (
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"time"
)

// Result of one execution.
type Result struct {
	Failure  string
	Kind     string
	Stack    string
	Choices  []int32
	Trace    []string
	Steps    int
	Nondet   bool
	Races    int
	Points   int
	preempts int
}

var (
	gcIn   int
	execID uint64
)

// ExecID numbers the executions; 0 outside of one.
func ExecID() uint64 {
	if E == nil {
		return 0
	}
	return execID
}

// RunOnce executes scenario with the given choice prefix.
func RunOnce(b Budget, prefix []int32, tracing bool, scenario func()) (*Exec, Result) {
	e := &Exec{b: b, prefix: prefix, now: Epoch, tracing: tracing, killAck: make(chan struct{}), done: make(chan struct{})}
	// The horizon only tells a livelock from progress: far above what any implementation takes.
	if e.b.MaxSteps *= 20; e.b.MaxSteps < 4_000_000 {
		e.b.MaxSteps = 4_000_000
	}
	if RaceEnabled {
		// Memory reused within an execution can confuse the race detector: collect only between executions.
		if gcIn--; gcIn < 0 {
			gcIn = 100
			debug.SetGCPercent(-1)
			runtime.GC()
		}
	}
	races := raceErrors()
	execID++
	E = e
	RestoreGlobals()
	resetHooks()
	main := &Task{ID: 0, Name: "main", wake: make(chan struct{}, 1), fn: scenario}
	e.nextID = 1
	Push(&e.tasks, main)
	e.cur = main
	raceRelease(&main.wake)
	raceDisable()
	main.resume()
	<-e.done
	raceEnable()
	for _, t := range append(e.graves, e.tasks...) {
		raceAcquire(&t.dead)
	}
	E = nil
	Progress.Add(1)
	r := Result{Failure: e.Failure, Kind: e.failKind, Stack: e.Stack, Steps: e.steps, Nondet: e.Nondet, Trace: e.Trace, preempts: e.preempts}
	r.Races = raceErrors() - races
	if r.Races > 0 && r.Failure == "" {
		r.Failure = "data race: two tasks access the same memory without synchronisation"
		r.Kind = "race"
	}
	for _, c := range e.recs {
		Push(&r.Choices, c.i)
	}
	if len(e.recs) < len(prefix) {
		e.Nondet = true
		r.Nondet = true
	}
	return e, r
}

var hooks []func()

// OnReset registers a function run before every execution (shims reset their state).
func OnReset(f func()) { Push(&hooks, f) }

func resetHooks() {
	for _, f := range hooks {
		f()
	}
}

// Stats of an exploration.
type Stats struct {
	Executions int64
	Steps      int64
	Choices    int64
	Nondet     int64
	MaxSteps   int
	PreemptMax int
}

// Explorer walks the choice tree below a prefix.
type Explorer struct {
	B        Budget
	Scenario func()
	Stats    Stats
	States   map[uint64]struct{}
	Outcomes map[uint64]struct{}
	Fails    []Result
	MaxFails int
	// Known tells failures that are listed findings: they do not end the exploration.
	Known     func(msg string) bool
	KnownSeen map[string][]int32
	// Before, when set, sees the choice prefix of every execution before it runs.
	Before func([]int32)
}

var curStates map[uint64]struct{}

// Observe adds a state (any digestible description of what was seen) to the set of distinct ones.
func Observe(s string) {
	if curStates != nil {
		h := fnv.New64a()
		h.Write([]byte(s))
		curStates[h.Sum64()] = struct{}{}
	}
}

// ObserveHash is Observe for a digest.
func ObserveHash(h uint64) {
	if curStates != nil {
		curStates[h] = struct{}{}
	}
}

type frame struct{ choices []int32 }

// Run explores everything below the given prefixes until done, or until the deadline or failure limit; it returns the
// prefixes left unexplored.
func (x *Explorer) Run(init [][]int32, deadline time.Time) (left [][]int32) {
	if x.States == nil {
		x.States = map[uint64]struct{}{}
	}
	curStates = x.States
	stack := append([][]int32(nil), init...)
	first := true
	for len(stack) > 0 {
		if !first && time.Now().After(deadline) {
			return stack
		}
		first = false
		p := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if x.Before != nil {
			x.Before(p)
		}
		e, r := RunOnce(x.B, p, false, x.Scenario)
		x.Stats.Executions++
		x.Stats.Steps += int64(r.Steps)
		x.Stats.Choices += int64(len(e.recs) - len(p))
		if r.Steps > x.Stats.MaxSteps {
			x.Stats.MaxSteps = r.Steps
		}
		if e.preempts > x.Stats.PreemptMax {
			x.Stats.PreemptMax = e.preempts
		}
		if r.Nondet {
			x.Stats.Nondet++
			continue
		}
		if r.Failure != "" && x.Known != nil && x.Known(r.Failure) {
			if x.KnownSeen == nil {
				x.KnownSeen = map[string][]int32{}
			}
			if len(x.KnownSeen) < 20 {
				x.KnownSeen[r.Failure] = r.Choices
			}
		} else if r.Failure != "" {
			Push(&x.Fails, r)
			if len(x.Fails) >= x.MaxFails {
				return stack
			}
		}
		// alternatives at every choice made after the prefix; deepest last so that it is explored next
		for i := len(p); i < len(e.recs); i++ {
			c := e.recs[i]
			if c.paid {
				if c.kind == KSched && int(c.pre) >= x.B.Preempt {
					continue
				}
				if c.kind == KEnv && int(c.env) >= x.B.Env {
					continue
				}
			}
			for a := c.n - 1; a >= 1; a-- {
				np := make([]int32, i+1)
				for k := 0; k < i; k++ {
					np[k] = e.recs[k].i
				}
				np[i] = a
				Push(&stack, np)
			}
		}
	}
	return nil
}

// Minimal environment access that must not be virtual.
func RealGetenv(k string) string { return os.Getenv(k) }
func RealNow() time.Time         { return time.Now() }
