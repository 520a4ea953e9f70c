//go:build go1.22

package main

import (
	"bytes"
	"errors"
	"fmt"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/controller"
	"github.com/crimist/trakx/tracker"
	"github.com/crimist/trakx/zzcli"
	"github.com/crimist/trakx/zzv/s/os"
	"github.com/crimist/trakx/zzv/vfs"
	"github.com/crimist/trakx/zzv/vnet"
	"github.com/crimist/trakx/zzv/vproc"
	"github.com/crimist/trakx/zzv/vs"
)

// ---- C26 ----

const (
	pidPath = "/run/trakx/trakx.pid"
	logPath = "/run/trakx/trakx.log"
)

// manner is how a tracker behaves.
type manner struct {
	name  string
	udp   bool          // answers heartbeats
	http  bool          //
	mute  bool          // listens and never answers
	after time.Duration // time from the signal to its end, -1: never
}

var manners = []manner{
	{"normal", true, true, false, 0},
	{"slow to stop", true, true, false, 3*time.Second + 7*time.Millisecond},
	{"stopping after 9.9 s", true, true, false, 9900 * time.Millisecond},
	{"stopping after 10.05 s", true, true, false, 10050 * time.Millisecond},
	{"stopping after a minute", true, true, false, time.Minute},
	{"refusing to stop", true, true, false, -1},
	{"deaf", false, false, false, 0},
	{"mute", false, false, true, time.Second},
	{"deaf and refusing to stop", false, false, false, -1},
	{"mute, refusing to stop", false, false, true, -1},
}

// foreign is some other program on the ports.
var foreign = manner{"another service", false, false, false, 0}

type world struct {
	next     int
	manners  []manner
	launched []*vproc.P
	how      map[int]manner
	forkErr  bool
	cli      *lineResult // the commands are given on the command line
}

// lineResult is the outcome of one command line.
type lineResult struct {
	code     int
	out, err string
}

// run runs a command and requires that errors and exit status go together.
func (w *world) run(limit time.Duration, args ...string) bool {
	if !w.exec(limit, args...) {
		return false
	}
	if (w.cli.code != 0) != (w.cli.err != "") {
		vs.Fail("trakx %s: exit status %d, error output %q", strings.Join(args, " "), w.cli.code, w.cli.err)
		return false
	}
	return true
}

// exec runs the program and tells its outcome.
func (w *world) exec(limit time.Duration, args ...string) bool {
	*w.cli = lineResult{}
	what := strings.Join(args, " ")
	ended := false
	me := vs.GoProc("trakx "+what, func() {
		os.Args = append([]string{"trakx"}, args...)
		zzcli.Main()
		ended = true
	})
	vproc.Output = func(stderr bool, b []byte) {
		switch {
		case vs.CurProc() != me:
		case stderr:
			w.cli.err += string(b)
		default:
			w.cli.out += string(b)
		}
	}
	t0 := vs.Now()
	for {
		vs.WaitIdle()
		if code, dead := vs.Exited(me); dead {
			w.cli.code = code
			break
		}
		if ended {
			break
		}
		if time.Duration(vs.Now()-t0) > limit {
			vs.Fail("trakx %s did not return within %v", what, limit)
			return false
		}
		vs.Advance(int64(50 * time.Millisecond))
	}
	vs.Tracef("trakx %s: %d %q %q", what, w.cli.code, w.cli.out, w.cli.err)
	return true
}

// outcome is the error a command reported.
func (w *world) outcome() error {
	if w.cli.code != 0 {
		return errors.New(strings.TrimSpace(w.cli.err))
	}
	return nil
}

func (w *world) status(c *controller.Controller) (file, proc, beat, ok bool) {
	if w.cli == nil {
		ok = bounded("status", statusLimit, func() { file, proc, beat = c.Status() })
		return
	}
	if !w.run(statusLimit, "status") {
		return
	}
	n := 0
	for _, l := range strings.Split(w.cli.out, "\n") {
		yes := strings.Contains(l, "✅")
		if yes == strings.Contains(l, "❌") {
			continue
		}
		switch {
		case strings.Contains(l, "process id file"):
			file = yes
		case strings.Contains(l, "process is"):
			proc = yes
		case strings.Contains(l, "heartbeat"):
			beat = yes
		default:
			continue
		}
		n++
	}
	if n != 3 || w.cli.code != 0 {
		vs.Fail("trakx status: exit status %d, output %q", w.cli.code, w.cli.out)
		return
	}
	return file, proc, beat, true
}

func (w *world) command(what string, limit time.Duration, f func() error) (err error, ok bool) {
	if w.cli == nil {
		ok = bounded(what, limit, func() { err = f() })
		return
	}
	if !w.run(limit, what) {
		return
	}
	return w.outcome(), true
}

// spawn brings a process into the world.
func (w *world) spawn(m manner) *vproc.P {
	w.next++
	p := &vproc.P{Pid: w.next, Alive: true}
	p.Group = vs.GoProc(fmt.Sprintf("tracker%d", p.Pid), func() {
		if config.Config.UDP.Enabled && (m.udp || m.mute || m == foreign) {
			if s, err := vnet.ListenUDP("udp", fmt.Sprintf(":%d", udpPort)); err == nil {
				vs.Go(func() {
					b := make([]byte, 2048)
					for {
						n, from, _, err := s.Read(b)
						if err != nil {
							return
						}
						if m == foreign {
							s.Write([]byte{1}, from)
							continue
						}
						if !m.mute && n == 16 && bytes.Equal(b[8:12], []byte{0, 0, 0, 4}) {
							s.Write([]byte{0xff}, from)
						}
					}
				})
			}
		}
		if config.Config.HTTP.Mode == "enabled" && (m.http || m.mute || m == foreign) {
			if l, err := vnet.Listen("tcp", fmt.Sprintf(":%d", httpPort)); err == nil {
				vs.Go(func() {
					b := make([]byte, 2048)
					for {
						c, err := l.Accept()
						if err != nil {
							return
						}
						if m.mute {
							continue
						}
						n, _ := c.Read(b)
						if strings.HasPrefix(string(b[:n]), "GET /heartbeat") && m != foreign {
							c.Write([]byte("HTTP/1.1 200\r\n\r\n"))
						} else {
							c.Write([]byte("HTTP/1.1 404\r\n\r\n"))
						}
						c.Close()
					}
				})
			}
		}
		vs.BlockForever()
	})
	w.how[p.Pid] = m
	p.OnSignal = func(p *vproc.P, sig syscall.Signal) {
		switch {
		case sig != syscall.SIGINT && sig != syscall.SIGTERM:
		case m.after < 0:
		case m.after == 0:
			w.die(p)
		default:
			vs.AddTimer(vs.Now()+int64(m.after), func() { w.die(p) })
		}
	}
	vproc.Table = append(vproc.Table, p)
	return p
}

func (w *world) die(p *vproc.P) {
	if p.Alive {
		p.Alive = false
		vs.KillProc(p.Group, 0)
	}
}

func newWorld(mod func(*config.Configuration)) *world {
	setup(func(c *config.Configuration) {
		c.Path.Pid, c.Path.Log = pidPath, logPath
		if mod != nil {
			mod(c)
		}
	})
	w := &world{next: 100, how: map[int]manner{}}
	vproc.OnStart = func(name string, argv []string) (int, error) {
		if w.forkErr && vs.Env(2) == 1 {
			return 0, syscall.EAGAIN
		}
		if len(argv) != 2 || argv[1] != "execute" {
			vs.Fail("the started process is %q %q", name, argv)
		}
		m := manners[0]
		if len(w.manners) > 0 {
			m = w.manners[vs.Choose(len(w.manners))]
		}
		vs.Tracef("a tracker starts: %s", m.name)
		p := w.spawn(m)
		w.launched = append(w.launched, p)
		return p.Pid, nil
	}
	return w
}

func record() (int, bool) {
	b, ok := vfs.Get(pidPath)
	if !ok {
		return 0, false
	}
	n, err := strconv.Atoi(string(b))
	return n, err == nil && n > 0
}

// answers tells whether some running tracker answers heartbeats on the configured protocols.
func (w *world) answers() bool {
	for _, p := range vproc.Table {
		if !p.Alive {
			continue
		}
		m := w.how[p.Pid]
		for _, s := range vnet.USocks {
			if config.Config.UDP.Enabled && m.udp && s.Proc == p.Group && !s.Closed {
				return true
			}
		}
		for _, l := range vnet.Lists {
			if config.Config.HTTP.Mode == "enabled" && m.http && l.Proc == p.Group && !l.Closed {
				return true
			}
		}
	}
	return false
}

// bounded runs one command in a process of its own and fails if it takes longer than limit.
func bounded(what string, limit time.Duration, f func()) bool {
	done := false
	p := vs.GoProc(what, func() { f(); done = true })
	t0 := vs.Now()
	for {
		vs.WaitIdle()
		if done {
			return true
		}
		if _, dead := vs.Exited(p); dead {
			vs.Fail("%s: the controller ended", what)
			return false
		}
		if time.Duration(vs.Now()-t0) > limit {
			vs.Fail("%s did not return within %v", what, limit)
			return false
		}
		vs.Advance(int64(50 * time.Millisecond))
	}
}

const (
	statusLimit = 30 * time.Second
	stopLimit   = 20 * time.Second
)

// check runs one command and compares with what must happen; faults loosens what may be reported.
func (w *world) check(cmd string, faults bool, hist func() string) bool {
	c := controller.NewController()
	rec, recorded := record()
	before, _ := vfs.Get(pidPath)
	before = append([]byte(nil), before...)
	kills := len(vproc.Kills)
	launched := len(w.launched)
	answered := w.answers()
	alive := func(pid int) bool { p := vproc.Find(pid); return p != nil && p.Alive }
	wasAlive := recorded && alive(rec)
	same := func() bool { b, _ := vfs.Get(pidPath); return bytes.Equal(b, before) }
	ok := true
	fail := func(format string, a ...any) {
		ok = false
		vs.Fail("%s: %s", hist(), fmt.Sprintf(format, a...))
	}
	// only the recorded process may get a signal
	sigs := func(allowed bool) {
		n := 0
		for _, k := range vproc.Kills[kills:] {
			if k.Sig == 0 {
				continue
			}
			p := vproc.Find(k.Pid)
			mine := false
			for _, l := range w.launched[launched:] {
				mine = mine || l == p
			}
			if mine {
				continue // a start that failed takes its own process back
			}
			if !allowed || !recorded || k.Pid != rec {
				fail("%s sends signal %d to %d", cmd, k.Sig, k.Pid)
				return
			}
			if k.Sig != tracker.SigStop && k.Sig != syscall.SIGTERM && k.Sig != syscall.SIGINT {
				fail("%s sends signal %d", cmd, k.Sig)
				return
			}
			if k.Err == nil {
				n++
			}
		}
		if n > 1 {
			fail("%s signals the process %d times", cmd, n)
		}
	}
	var err error
	switch cmd {
	case "status":
		var file, proc, beat bool
		if file, proc, beat, ok = w.status(c); !ok {
			return false
		}
		sigs(false)
		if !same() {
			fail("status changes the record")
		}
		if len(w.launched) != launched {
			fail("status starts a tracker")
		}
		if faults {
			return ok
		}
		if file != recorded || proc != wasAlive || beat != answered {
			fail("status reports record %v, alive %v, heartbeat %v; it is %v, %v, %v", file, proc, beat, recorded, wasAlive, answered)
		}
	case "start":
		if err, ok = w.command("start", statusLimit, c.Start); !ok {
			return false
		}
		sigs(false)
		n := len(w.launched) - launched
		if n > 1 {
			fail("start launches %d trackers", n)
			return false
		}
		if n == 1 && (recorded || answered) && !faults {
			fail("start launches a tracker although one is recorded (%v) or answers (%v)", recorded, answered)
			return false
		}
		now, has := record()
		if err == nil {
			if n != 1 {
				fail("start succeeds without launching a tracker")
			} else if !has || now != w.launched[launched].Pid {
				b, _ := vfs.Get(pidPath)
				fail("start launches %d and records %q", w.launched[launched].Pid, b)
			}
			return ok
		}
		if n == 1 && w.launched[launched].Alive {
			if !has || now != w.launched[launched].Pid {
				fail("start fails (%v) and leaves a tracker running that is not recorded", err)
			}
		}
		if n == 0 && !same() {
			fail("start fails (%v) and changes the record", err)
		}
		if !faults && !recorded && !answered {
			fail("start fails with %v although nothing runs", err)
		}
	case "stop":
		t0 := vs.Now()
		if err, ok = w.command("stop", stopLimit, c.Stop); !ok {
			return false
		}
		took := time.Duration(vs.Now() - t0)
		sigs(true)
		if len(w.launched) != launched {
			fail("stop starts a tracker")
		}
		if !recorded {
			if err == nil {
				fail("stop succeeds without a recorded process")
			} else if !same() {
				fail("stop fails and changes the record")
			}
			return ok
		}
		m := w.how[rec]
		if err == nil {
			if alive(rec) {
				fail("stop succeeds and process %d (%s) still runs", rec, m.name)
			} else if _, has := record(); has {
				fail("stop succeeds and leaves the record")
			}
			return ok
		}
		if !faults {
			if !same() {
				fail("stop fails with %v and changes the record", err)
			}
			if wasAlive && m.after >= 0 && m.after < 9500*time.Millisecond {
				fail("stop fails with %v although the process was gone after %v (took %v)", err, m.after, took)
			}
		}
		if wasAlive && !alive(rec) && !faults && m.after < 9500*time.Millisecond {
			fail("stop reports %v although it stopped the process", err)
		}
	case "reset":
		if err, ok = w.command("reset", time.Second, c.Clear); !ok {
			return false
		}
		sigs(false)
		if _, has := record(); has && err == nil {
			fail("reset leaves the record")
		}
		if b, exists := vfs.Get(pidPath); !faults && exists && (err != nil || len(b) != 0) {
			fail("reset gives %v and leaves %q", err, b)
		}
	case "", "help", "Start", "execute2":
		// neither of these is a command
		args := []string{cmd, "start"}
		if cmd == "" {
			args = nil
		}
		if !w.exec(time.Second, args...) {
			return false
		}
		sigs(false)
		if !same() {
			fail("trakx %s changes the record", cmd)
		}
		if len(w.launched) != launched {
			fail("trakx %s starts a tracker", cmd)
		}
	case "restart", "reboot":
		if w.cli != nil {
			if !w.run(statusLimit+stopLimit, cmd) {
				return false
			}
			sigs(true)
			n := len(w.launched) - launched
			now, has := record()
			switch {
			case n > 1:
				fail("%s launches %d trackers", cmd, n)
			case n == 1 && recorded && alive(rec):
				fail("%s launches a tracker while process %d still runs", cmd, rec)
			case n == 1 && !recorded:
				fail("%s launches a tracker although there was none to stop", cmd)
			case n == 1 && (!has || now != w.launched[launched].Pid) && (w.cli.code == 0 || w.launched[launched].Alive):
				fail("%s launches a tracker and does not record it", cmd)
			case n == 0 && w.cli.code == 0:
				fail("%s succeeds without launching a tracker", cmd)
			case n == 1 && w.cli.code != 0 && !faults:
				fail("%s launches a tracker and fails with %q", cmd, w.cli.err)
			case n == 0 && recorded && alive(rec) && !same():
				fail("%s leaves the tracker running and changes the record", cmd)
			case n == 0 && wasAlive && !alive(rec) && !faults && !w.answers():
				fail("%s stops the tracker and starts none: %q", cmd, w.cli.err)
			}
			return ok
		}
		if !w.check("stop", faults, func() string { return hist() + " (stopping)" }) {
			return false
		}
		return w.check("start", faults, func() string { return hist() + " (starting)" })
	}
	return ok
}

// protos are the ways to configure the protocols.
var protos = []struct {
	name string
	udp  bool
	mode string
}{{"both", true, "enabled"}, {"UDP", true, "disabled"}, {"HTTP", false, "enabled"}, {"info", false, "info"}}

// controls: every sequence of commands and events.
func controls(depth int, inits []string, ms []manner, faults bool, more ...string) func() {
	return func() {
		pr := protos[vs.Choose(len(protos))]
		w := newWorld(func(c *config.Configuration) { c.UDP.Enabled, c.HTTP.Mode = pr.udp, pr.mode })
		w.manners = ms
		if more != nil {
			w.cli = new(lineResult)
		}
		hist := []string{pr.name}
		in := inits[vs.Choose(len(inits))]
		hist = append(hist, in)
		vs.Quiet(func() {
			switch in {
			case "missing":
			case "empty":
				vfs.Put(pidPath, nil)
			case "garbage":
				vfs.Put(pidPath, []byte("12x456789012\n"))
			case "no process":
				vfs.Put(pidPath, []byte("99"))
			case "group":
				vfs.Put(pidPath, []byte("-77"))
			case "zero":
				vfs.Put(pidPath, []byte("0"))
			case "minus one":
				vfs.Put(pidPath, []byte("-1"))
			case "running":
				p := w.spawn(ms[vs.Choose(len(ms))])
				vfs.Put(pidPath, []byte(strconv.Itoa(p.Pid)))
			case "unrecorded":
				w.spawn(ms[vs.Choose(len(ms))])
			case "another service":
				w.spawn(foreign)
			case "other mute":
				w.spawn(manners[7])
			}
			vs.WaitIdle()
		})
		if faults {
			vfs.Faults = true
			w.forkErr = true
		}
		cmds := append([]string{"start", "stop", "status", "reset", "restart", "crash"}, more...)
		for i := 0; i < depth; i++ {
			cmd := cmds[vs.Choose(len(cmds))]
			hist = append(hist, cmd)
			if cmd == "crash" {
				// the oldest tracker running dies
				for _, p := range vproc.Table {
					if p.Alive {
						w.die(p)
						break
					}
				}
				continue
			}
			if !w.check(cmd, faults, func() string { return strings.Join(hist, ", ") }) {
				return
			}
			vs.WaitIdle()
			b, _ := vfs.Get(pidPath)
			vs.Observe(fmt.Sprint(string(b), len(vproc.Table), w.answers()))
		}
		Note("%s", strings.Join(hist, ", "))
	}
}

// together: the real controller starts and stops the real tracker.
func together(depth int) func() {
	return func() {
		pr := protos[vs.Choose(len(protos))]
		ips := [][2]string{{"", ""}, {"10.0.0.1", ""}, {"", "10.0.0.1"}, {"::1", "0.0.0.0"}, {"127.0.0.2", "2001:db8::5"}}[vs.Choose(5)]
		w := newWorld(func(c *config.Configuration) {
			c.UDP.Enabled, c.HTTP.Mode, c.UDP.IP, c.HTTP.IP = pr.udp, pr.mode, ips[0], ips[1]
		})
		markLoaded()
		vproc.OnStart = func(name string, argv []string) (int, error) {
			w.next++
			p := &vproc.P{Pid: w.next, Alive: true}
			freshProcess()
			p.Group = vs.GoProc(fmt.Sprintf("tracker%d", p.Pid), func() { controller.NewController().Execute() })
			vs.Go(func() {
				vs.Block("exit", func() bool { _, dead := vs.Exited(p.Group); return dead })
				p.Alive = false
			})
			w.how[p.Pid] = manner{"trakx", true, true, false, time.Second}
			p.OnSignal = func(p *vproc.P, sig syscall.Signal) { vproc.Deliver(p.Group, sig) }
			vproc.Table = append(vproc.Table, p)
			w.launched = append(w.launched, p)
			return p.Pid, nil
		}
		hist := []string{fmt.Sprint(pr.name, ips)}
		cmds := []string{"start", "stop", "status", "restart"}
		for i := 0; i < depth; i++ {
			cmd := cmds[vs.Choose(len(cmds))]
			hist = append(hist, cmd)
			if !w.check(cmd, false, func() string { return strings.Join(hist, ", ") }) {
				return
			}
			vs.WaitIdle()
			b, _ := vfs.Get(pidPath)
			vs.Observe(fmt.Sprint(string(b), len(vproc.Table), w.answers()))
		}
		Note("%s", strings.Join(hist, ", "))
	}
}

func init() {
	register(&Check{ID: "C26", Secs: [2]int{100, 600}, Configs: func(d bool) []Config {
		n := 3
		if d {
			n = 5
		}
		inits := []string{"missing", "empty", "garbage", "no process", "group", "zero", "minus one", "running", "unrecorded", "other mute", "another service"}
		b := vs.Budget{MaxSteps: 2_000_000, FreeSw: -1}
		e := b
		e.Env = 1
		if d {
			e.Env = 2
		}
		return []Config{
			{Name: "every manner", Run: controls(n, inits, manners, false), B: b, Bound: fmt.Sprintf("4 protocol choices, 11 initial states, 10 manners, all sequences of %d of 6 commands and events", n)},
			{Name: "histories", Run: controls(n+2, []string{"missing", "no process"}, []manner{manners[0], manners[6], manners[5]}, false), B: b, Bound: fmt.Sprintf("all sequences of %d of 6 commands and events, 3 manners", n+2)},
			{Name: "failing calls", Run: controls(n-1, []string{"missing", "running", "no process"}, []manner{manners[0], manners[6]}, true), B: e, Bound: fmt.Sprintf("all sequences of %d, every file and process call failing", n-1)},
			{Name: "controller and tracker", Run: together(n + 1), B: b, Bound: fmt.Sprintf("all sequences of %d of 4 commands", n+1)},
		}
	}})
	register(&Check{ID: "C33", Secs: [2]int{60, 600}, Configs: func(d bool) []Config {
		n := 2
		if d {
			n = 4
		}
		inits := []string{"missing", "empty", "garbage", "no process", "group", "running", "unrecorded", "other mute", "another service"}
		b := vs.Budget{MaxSteps: 2_000_000, FreeSw: -1}
		e := b
		e.Env = 1
		return []Config{
			{Name: "every manner", Run: controls(n, inits, manners, false, "reboot", "", "help", "Start"), B: b, Bound: fmt.Sprintf("4 protocol choices, 9 initial states, 10 manners, all sequences of %d of 9 command lines and a crash", n)},
			{Name: "histories", Run: controls(n+1, []string{"missing", "no process"}, []manner{manners[0], manners[6], manners[5]}, false, "reboot"), B: b, Bound: fmt.Sprintf("all sequences of %d command lines, 3 manners", n+1)},
			{Name: "failing calls", Run: controls(n, []string{"missing", "running", "no process"}, []manner{manners[0], manners[6]}, true, "reboot"), B: e, Bound: fmt.Sprintf("all sequences of %d, every file and process call failing", n)},
			{Name: "execute", Run: executes, B: b},
		}
	}})
}

// executes: the execute command is the tracker.
func executes() {
	pr := protos[vs.Choose(len(protos))]
	newWorld(func(c *config.Configuration) { c.UDP.Enabled, c.HTTP.Mode = pr.udp, pr.mode })
	markLoaded()
	freshProcess()
	ended := false
	p := vs.GoProc("trakx execute", func() {
		os.Args = []string{"trakx", "execute"}
		zzcli.Main()
		ended = true
	})
	vs.WaitIdle()
	if _, dead := vs.Exited(p); dead || ended {
		vs.Fail("execute ended: %s", lastFatal)
		return
	}
	if pr.udp && vnet.UDP(udpPort) == nil || pr.mode != "disabled" && vnet.TCP(httpPort) == nil {
		vs.Fail("execute serves nothing (%s)", pr.name)
	}
	vproc.Deliver(p, syscall.SIGTERM)
	if code, ok := waitExit(p); !ok || code != 0 {
		vs.Fail("execute ended with %v %d after SIGTERM", ok, code)
	}
	Note("%s", pr.name)
}
