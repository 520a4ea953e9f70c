//go:build go1.22

// Command h explores the scenarios of one property on the instrumented tracker.
//
//	h check ID     parent: distributes the choice trees over worker processes, writes evidence
//	h worker ID    explores subtrees given on stdin
//	h replay FILE  re-runs one recorded violation, printing its trace
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/crimist/trakx/zzv/vs"
)

// Config is one exploration: a scenario under a budget.
type Config struct {
	Name string
	B    vs.Budget
	Run  func()
	// Assumes lists what bounds the exploration (for the evidence).
	Bound string
	// Alt runs the configuration in the binary built with the other build tag.
	Alt bool
}

// binary returns the executable that runs c.
func (c Config) binary() string {
	if b := os.Getenv("VERIF_ALT_BIN"); c.Alt && b != "" {
		return b
	}
	return os.Args[0]
}

// Check decides one property.
type Check struct {
	ID      string
	Configs func(deep bool) []Config
	Assume  []string
	Secs    [2]int // exploration seconds: quick, thorough
	Workers int
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

func deep() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func (c *Check) configs() []Config { return c.Configs(deep()) }

type job struct {
	Cfg     int       `json:"cfg"`
	Stack   [][]int32 `json:"stack"`
	SliceMs int       `json:"slice"`
	Careful bool      `json:"careful,omitempty"`
}

type fail struct {
	Msg     string
	Kind    string
	Stack   string  `json:",omitempty"`
	Choices []int32 `json:",omitempty"`
}

type report struct {
	Left    [][]int32
	Execs   int64
	Steps   int64
	Choices int64
	Nondet  int64
	MaxStep int
	Pre     int
	States  []uint64
	Fails   []fail
	Samples []string
	At      []int32 // careful mode: execution about to run
}

var samples []string

// Note keeps a description of a case for the evidence.
func Note(format string, a ...any) {
	if len(samples) < 2 {
		samples = append(samples, fmt.Sprintf(format, a...))
	}
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: h check|worker|replay ARG")
		os.Exit(2)
	}
	debug.SetGCPercent(200)
	switch os.Args[1] {
	case "check":
		os.Exit(parent(os.Args[2]))
	case "worker":
		worker(os.Args[2])
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "child":
		child(os.Args[2:])
	}
}

// ---- worker ----

func worker(id string) {
	c := checks[id]
	cfgs := c.configs()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.NewFile(3, "report"), 1<<20)
	dec := json.NewDecoder(in)
	enc := json.NewEncoder(out)
	seen := make([]map[uint64]struct{}, len(cfgs))
	knownKeys := loadKnown(id)
	for {
		var j job
		if err := dec.Decode(&j); err != nil {
			return
		}
		cf := cfgs[j.Cfg]
		samples = nil
		x := &vs.Explorer{B: cf.B, Scenario: cf.Run, MaxFails: 1, States: map[uint64]struct{}{}}
		x.Known = func(msg string) bool { _, ok := knownKeys[label(msg)]; return ok }
		if j.Careful {
			x.Before = func(p []int32) {
				enc.Encode(report{At: append([]int32{}, p...)})
				out.Flush()
			}
		}
		left := x.Run(j.Stack, time.Now().Add(time.Duration(j.SliceMs)*time.Millisecond))
		r := report{Left: left, Execs: x.Stats.Executions, Steps: x.Stats.Steps, Choices: x.Stats.Choices, Nondet: x.Stats.Nondet, MaxStep: x.Stats.MaxSteps, Pre: x.Stats.PreemptMax, Samples: samples}
		if seen[j.Cfg] == nil {
			seen[j.Cfg] = map[uint64]struct{}{}
		}
		for h := range x.States {
			if _, ok := seen[j.Cfg][h]; !ok {
				seen[j.Cfg][h] = struct{}{}
				r.States = append(r.States, h)
			}
		}
		for _, f := range x.Fails {
			r.Fails = append(r.Fails, fail{f.Failure, f.Kind, f.Stack, f.Choices})
		}
		for m, ch := range x.KnownSeen {
			r.Fails = append(r.Fails, fail{Msg: m, Kind: "known", Choices: ch})
		}
		enc.Encode(r)
		out.Flush()
	}
}

// label is the identifying prefix "[...]" of a message.
func label(msg string) string {
	if strings.HasPrefix(msg, "[") {
		if i := strings.Index(msg, "]"); i > 0 {
			return msg[1:i]
		}
	}
	return ""
}

// loadKnown reads the labels of the findings listed for a property.
func loadKnown(id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property="+id+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+id+" ")
		if strings.HasPrefix(rest, "[") {
			m[label(rest)] = strings.TrimSpace(rest[strings.Index(rest, "]")+1:])
		}
	}
	return m
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// ---- parent ----

type proc struct {
	cmd  *exec.Cmd
	in   *json.Encoder
	inw  *os.File
	out  *json.Decoder
	outr *os.File
	errf string
}

func start(bin, id string, n int) (*proc, error) {
	ir, iw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	or, ow, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	ef := filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprintf("w%d-%d.err", n, time.Now().UnixNano()))
	f, err := os.Create(ef)
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(bin, "worker", id)
	cmd.Stdin = ir
	cmd.ExtraFiles = []*os.File{ow}
	cmd.Stderr = f
	cmd.Stdout = nil // the controller prints a lot
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GORACE=halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=2 atexit_sleep_ms=0 exitcode=0")
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	ir.Close()
	ow.Close()
	f.Close()
	return &proc{cmd: cmd, in: json.NewEncoder(iw), inw: iw, out: json.NewDecoder(bufio.NewReaderSize(or, 1<<20)), outr: or, errf: ef}, nil
}

func (p *proc) stop() {
	p.inw.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
	p.outr.Close()
	if d := os.Getenv("VERIF_KEEP_ERR"); d != "" {
		b, _ := os.ReadFile(p.errf)
		os.WriteFile(filepath.Join(d, filepath.Base(p.errf)), b, 0o644)
	}
	os.Remove(p.errf)
}

const hangLimit = 90 * time.Second

// do runs one job; on a crash or hang it returns the error text.
func (p *proc) do(j job, at *[]int32) (report, string) {
	if err := p.in.Encode(j); err != nil {
		return report{}, p.dead()
	}
	for {
		hung := false
		tm := time.AfterFunc(hangLimit+time.Duration(j.SliceMs)*time.Millisecond, func() { hung = true; p.cmd.Process.Kill() })
		var r report
		err := p.out.Decode(&r)
		tm.Stop()
		if err != nil {
			if hung {
				return report{}, "hang: an execution did not finish within " + hangLimit.String()
			}
			return report{}, p.dead()
		}
		if r.At != nil {
			*at = r.At
			continue
		}
		return r, ""
	}
}

func (p *proc) dead() string {
	p.cmd.Wait()
	b, _ := os.ReadFile(p.errf)
	s := string(b)
	if i := strings.Index(s, "fatal error:"); i >= 0 {
		s = s[i:]
	} else if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:]
	}
	if len(s) > 4000 {
		s = s[:4000]
	}
	return "process died: " + p.cmd.ProcessState.String() + "\n" + s
}

type cfgState struct {
	stack   [][]int32
	busy    int
	spent   time.Duration
	execs   int64
	steps   int64
	choices int64
	nondet  int64
	maxstep int
	pre     int
	states  map[uint64]struct{}
	samples []string
	secs    float64
}

type violation struct {
	Property string
	Config   string
	CfgIdx   int
	Tier     string
	Kind     string
	Msg      string
	Choices  []int32
	Stack    string   `json:",omitempty"`
	Trace    []string `json:",omitempty"`
	Build    string   `json:",omitempty"`
	Detail   string   `json:",omitempty"`
}

func parent(id string) int {
	t0 := time.Now()
	if s := os.Getenv("VERIF_T0"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			t0 = time.Unix(n, 0)
		}
	}
	c := checks[id]
	if c == nil {
		fmt.Fprintln(os.Stderr, "no check", id)
		return 2
	}
	cfgs := c.configs()
	tier := "quick"
	secs := c.Secs[0]
	if secs == 0 {
		secs = 60
	}
	if deep() {
		tier = "thorough"
		secs = c.Secs[1]
		if secs == 0 {
			secs = 600
		}
	}
	if s := os.Getenv("VERIF_SECS"); s != "" {
		secs, _ = strconv.Atoi(s)
	}
	deadline := time.Now().Add(time.Duration(secs) * time.Second)
	known := loadKnown(id)
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	cs := make([]*cfgState, len(cfgs))
	for i := range cs {
		cs[i] = &cfgState{stack: [][]int32{{}}, states: map[uint64]struct{}{}}
		if o := os.Getenv("VERIF_ONLY"); o != "" && o != cfgs[i].Name { // for development
			cs[i].stack = nil
		}
	}
	var viol *violation
	knownSeen := map[string]string{}
	var unrepro []string
	internal := ""
	stop := false
	pick := func() (int, [][]int32, bool) {
		for {
			if stop || viol != nil || internal != "" || time.Now().After(deadline) {
				return 0, nil, false
			}
			best, anyBusy := -1, false
			for i, s := range cs {
				if s.busy > 0 {
					anyBusy = true
				}
				if len(s.stack) > 0 && (best < 0 || s.spent+time.Duration(s.busy)*300*time.Millisecond < cs[best].spent+time.Duration(cs[best].busy)*300*time.Millisecond) {
					best = i
				}
			}
			if best >= 0 {
				s := cs[best]
				k := len(s.stack)/12 + 1
				if k > 256 {
					k = 256
				}
				st := append([][]int32{}, s.stack[len(s.stack)-k:]...)
				s.stack = s.stack[:len(s.stack)-k]
				s.busy++
				return best, st, true
			}
			if !anyBusy {
				return 0, nil, false
			}
			cond.Wait()
		}
	}
	nw := c.Workers
	if nw == 0 {
		nw = 8
	}
	if s := os.Getenv("VERIF_WORKERS"); s != "" {
		nw, _ = strconv.Atoi(s)
	}
	go func() {
		time.Sleep(time.Until(deadline))
		cond.Broadcast()
	}()
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			procs := map[string]*proc{}
			defer func() {
				for _, p := range procs {
					p.stop()
				}
			}()
			for {
				mu.Lock()
				ci, st, ok := pick()
				var slice int
				if ok {
					slice = 300
					if cs[ci].execs < 2000 {
						slice = 40
					}
				}
				mu.Unlock()
				if !ok {
					cond.Broadcast()
					return
				}
				bin := cfgs[ci].binary()
				p := procs[bin]
				if p == nil {
					var err error
					if p, err = start(bin, id, w); err != nil {
						mu.Lock()
						internal = err.Error()
						cs[ci].busy--
						mu.Unlock()
						cond.Broadcast()
						return
					}
					procs[bin] = p
				}
				b := time.Now()
				r, crash := p.do(job{Cfg: ci, Stack: st, SliceMs: slice}, nil)
				if crash != "" {
					p.stop()
					delete(procs, bin)
					// find the execution that did it
					var at []int32
					q, err := start(bin, id, w)
					if err == nil {
						_, crash2 := q.do(job{Cfg: ci, Stack: st, SliceMs: 120000, Careful: true}, &at)
						q.stop()
						mu.Lock()
						if crash2 == "" {
							unrepro = append(unrepro, cfgs[ci].Name+": worker crashed once and not again: "+firstLines(crash, 4))
						} else if viol == nil {
							viol = &violation{Property: id, Config: cfgs[ci].Name, CfgIdx: ci, Tier: tier, Kind: "crash", Msg: firstLines(crash2, 6), Choices: at, Detail: crash2}
						}
						mu.Unlock()
					}
				}
				mu.Lock()
				s := cs[ci]
				s.busy--
				s.spent += time.Since(b)
				s.secs += time.Since(b).Seconds()
				s.execs += r.Execs
				s.steps += r.Steps
				s.choices += r.Choices
				s.nondet += r.Nondet
				if r.MaxStep > s.maxstep {
					s.maxstep = r.MaxStep
				}
				if r.Pre > s.pre {
					s.pre = r.Pre
				}
				for _, h := range r.States {
					s.states[h] = struct{}{}
				}
				if len(s.samples) < 2 {
					s.samples = append(s.samples, r.Samples...)
				}
				s.stack = append(s.stack, r.Left...)
				for _, f := range r.Fails {
					if f.Kind == "known" {
						knownSeen[label(f.Msg)] = f.Msg
						continue
					}
					if viol == nil {
						v := &violation{Property: id, Config: cfgs[ci].Name, CfgIdx: ci, Tier: tier, Kind: f.Kind, Msg: f.Msg, Choices: f.Choices, Stack: f.Stack}
						mu.Unlock()
						ok, detail := confirm(bin, v)
						mu.Lock()
						if ok {
							v.Detail = detail
							if viol == nil {
								viol = v
							}
						} else {
							unrepro = append(unrepro, cfgs[ci].Name+": "+firstLines(f.Msg, 3)+fmt.Sprint(f.Choices)+firstLines(detail, 20))
							if len(unrepro) > 20 {
								stop = true
							}
						}
					}
				}
				mu.Unlock()
				cond.Broadcast()
			}
		}(w)
	}
	wg.Wait()
	if internal != "" {
		fmt.Fprintln(os.Stderr, "internal error:", internal)
		return 2
	}
	for _, u := range unrepro {
		fmt.Fprintln(os.Stderr, "NOTE not reproduced in a fresh process (ignored):", u)
	}
	// evidence
	var states, execs, steps, choices, nondet int64
	exh := len(unrepro) == 0 && viol == nil
	var per []map[string]any
	var smp []string
	for i, s := range cs {
		states += int64(len(s.states))
		execs += s.execs
		steps += s.steps
		choices += s.choices
		nondet += s.nondet
		done := len(s.stack) == 0 && s.nondet == 0
		if !done {
			exh = false
		}
		per = append(per, map[string]any{"scenario": cfgs[i].Name, "bound": bound(cfgs[i]), "executions": s.execs, "scheduling_points": s.steps, "choice_points": s.choices,
			"states": len(s.states), "max_steps": s.maxstep, "complete": done, "worker_seconds": float64(int(s.secs*100)) / 100})
		if len(s.samples) > 0 && len(smp) < 12 {
			smp = append(smp, cfgs[i].Name+": "+s.samples[0])
		} else if len(smp) < 12 {
			smp = append(smp, cfgs[i].Name)
		}
	}
	nviol := 0
	if viol != nil {
		nviol = 1
	}
	if states == 0 {
		states = execs
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": steps + choices, "traces_validated_against_impl": execs,
			"samples": smp, "exhaustive": exh, "scenarios": per, "nondeterministic_executions_discarded": nondet,
			"explanation": "stateless exploration of the real code under a controlled scheduler and environment: every execution runs the instrumented implementation and is compared with the oracle; states = distinct observed states, transitions = scheduling points plus choice points executed, traces = executions checked",
		},
		"assumptions": append([]string{"bounds as listed per scenario", "shims of sync/atomic/time/net/os/... behave as the Go standard library (DESIGN.md)", "sequentially consistent memory between scheduling points"}, c.Assume...),
		"wall_s":      time.Since(t0).Seconds(), "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	evd := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(evd, 0755)
	if err := os.WriteFile(filepath.Join(evd, id+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var kk []string
	for k := range knownSeen {
		kk = append(kk, k)
	}
	sort.Strings(kk)
	for _, k := range kk {
		fmt.Printf("KNOWN-FINDING: property=%s [%s] %s\n", id, k, known[k])
	}
	fmt.Printf("%s %s: %d executions, %d scheduling points, %d choices, %d states, exhaustive=%v, %.1fs\n", id, tier, execs, steps, choices, states, exh, time.Since(t0).Seconds())
	if os.Getenv("VERIF_VERBOSE") != "" {
		for i, s := range cs {
			fmt.Printf("  %-40s execs=%d steps=%d maxstep=%d states=%d left=%d nondet=%d %.1fs\n", cfgs[i].Name, s.execs, s.steps, s.maxstep, len(s.states), len(s.stack), s.nondet, s.secs)
		}
	}
	if nondet > 0 {
		fmt.Fprintf(os.Stderr, "NOTE %d executions diverged from their recorded prefix and were discarded\n", nondet)
	}
	if viol != nil {
		viol.Build = os.Getenv("VERIF_BUILD")
		rd := filepath.Join(verifDir(), "replays")
		os.MkdirAll(rd, 0755)
		rp := filepath.Join(rd, id+".json")
		b, _ := json.MarshalIndent(viol, "", " ")
		os.WriteFile(rp, append(b, '\n'), 0644)
		fmt.Printf("scenario %s (%s)\n%s\n", viol.Config, viol.Kind, viol.Msg)
		if viol.Detail != "" {
			fmt.Println(firstLines(viol.Detail, 60))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	return 0
}

func bound(c Config) string {
	s := fmt.Sprintf("preemptions<=%d deviations<=%d", c.B.Preempt, c.B.Env)
	if c.B.FreeSw > 0 {
		s += fmt.Sprintf(" non-default switches at blocking points<=%d", c.B.FreeSw)
	}
	if c.Bound != "" {
		s = c.Bound + "; " + s
	}
	return s
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// confirm replays a violation in fresh processes.
func confirm(bin string, v *violation) (bool, string) {
	f := filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprintf("confirm-%d.json", time.Now().UnixNano()))
	b, _ := json.Marshal(v)
	os.WriteFile(f, b, 0644)
	defer os.Remove(f)
	detail := ""
	for i := 0; i < 5; i++ {
		cmd := exec.Command(bin, "replay", f)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GORACE=halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=4 atexit_sleep_ms=0 exitcode=0")
		var buf bytes.Buffer
		cmd.Stdout, cmd.Stderr = &buf, &buf
		tm := time.AfterFunc(hangLimit, func() { cmd.Process.Kill() })
		err := cmd.Run()
		tm.Stop()
		detail = buf.String()
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 1 {
			return true, detail
		}
	}
	return false, detail
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c := checks[v.Property]
	cfgs := c.Configs(v.Tier == "thorough")
	cf := cfgs[v.CfgIdx]
	if cf.Name != v.Config {
		for _, x := range cfgs {
			if x.Name == v.Config {
				cf = x
			}
		}
	}
	if b := cf.binary(); b != os.Args[0] {
		fmt.Fprintln(os.Stderr, syscall.Exec(b, []string{b, "replay", file}, os.Environ()))
		return 2
	}
	_, r := vs.RunOnce(cf.B, v.Choices, true, cf.Run)
	if n := len(r.Trace); n > 400 {
		r.Trace = r.Trace[n-400:]
	}
	for _, l := range r.Trace {
		fmt.Println("  " + l)
	}
	if r.Failure == "" {
		fmt.Println("no failure")
		return 0
	}
	fmt.Printf("FAILURE (%s): %s\n%s\n", r.Kind, r.Failure, trimStack(r.Stack))
	return 1
}

func trimStack(s string) string {
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}
