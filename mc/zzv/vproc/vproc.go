// Package vproc is the virtual process table.
package vproc

import (
	"syscall"

	"github.com/crimist/trakx/zzv/vs"
)

// P is one virtual process.
type P struct {
	Pid      int
	Alive    bool
	Group    int // vs process number when the process runs in the execution, 0 otherwise
	OnSignal func(p *P, sig syscall.Signal)
	Signals  []syscall.Signal
	Argv     []string
}

// KillCall records every kill made, signal 0 included.
type KillCall struct {
	Pid int
	Sig syscall.Signal
	Err error
}

var (
	Table    []*P
	Kills    []KillCall
	OnStart  func(name string, argv []string) (int, error)
	selfPids [][2]int                    // vs proc -> pid
	Output   func(stderr bool, b []byte) // gets what is printed
)

func init() { vs.OnReset(Reset) }

func Reset() {
	Table, Kills, OnStart, selfPids, Output = nil, nil, nil, nil, nil
	sigs = nil
	ignored = nil
}

func Find(pid int) *P {
	for _, p := range Table {
		if p.Pid == pid {
			return p
		}
	}
	return nil
}

func SetSelf(proc, pid int) { vs.Push(&selfPids, [2]int{proc, pid}) }

func Self() int {
	for _, s := range selfPids {
		if s[0] == vs.CurProc() {
			return s[1]
		}
	}
	return 4242
}

func Kill(pid int, sig syscall.Signal) error {
	vs.CheckDead()
	vs.Point("kill")
	err := kill(pid, sig)
	vs.Push(&Kills, KillCall{pid, sig, err})
	vs.Tracef("kill(%d, %d) = %v", pid, sig, err)
	return err
}

func kill(pid int, sig syscall.Signal) error {
	if pid <= 0 {
		return nil // a process group or everything: always "works", and is always recorded
	}
	p := Find(pid)
	if p == nil || !p.Alive {
		return syscall.ESRCH
	}
	if sig == 0 {
		return nil
	}
	vs.Push(&p.Signals, sig)
	if sig == syscall.SIGKILL {
		p.Alive = false
		return nil
	}
	if p.OnSignal != nil {
		p.OnSignal(p, sig)
	}
	return nil
}

func Start(name string, argv []string) (int, error) {
	vs.CheckDead()
	vs.Point("fork")
	if OnStart == nil {
		return 0, syscall.ENOENT
	}
	return OnStart(name, argv)
}

func Wait(pid int) {
	vs.Block("wait", func() bool { p := Find(pid); return p == nil || !p.Alive })
}

// ---- signal registration ----

type reg struct {
	proc int
	send func(s syscall.Signal)
	sigs []syscall.Signal
	key  any
}

var sigs []reg

type ign struct {
	proc int
	sig  syscall.Signal
}

var ignored []ign

func Notify(key any, send func(s syscall.Signal), list []syscall.Signal) {
	vs.Push(&sigs, reg{vs.CurProc(), send, list, key})
}

func StopNotify(key any) {
	n := sigs[:0]
	for _, r := range sigs {
		if r.key != key {
			vs.Push(&n, r)
		}
	}
	sigs = n
}

func Ignore(list []syscall.Signal) {
	for _, s := range list {
		vs.Push(&ignored, ign{vs.CurProc(), s})
	}
}

// Handles tells whether the process has asked for the signal.
func Handles(proc int, s syscall.Signal) bool {
	for _, r := range sigs {
		if r.proc != proc {
			continue
		}
		if len(r.sigs) == 0 {
			return true
		}
		for _, x := range r.sigs {
			if x == s {
				return true
			}
		}
	}
	return false
}

// Deliver sends a signal to the tasks of a vs process: to its registered channels, or the default action
// (the process ends). It reports whether a handler took it.
func Deliver(proc int, s syscall.Signal) bool {
	vs.Tracef("signal %v", s)
	any := false
	for _, r := range sigs {
		if r.proc != proc {
			continue
		}
		match := len(r.sigs) == 0
		for _, x := range r.sigs {
			if x == s {
				match = true
			}
		}
		if match {
			any = true
			r.send(s)
		}
	}
	if any {
		return true
	}
	for _, i := range ignored {
		if i.proc == proc && i.sig == s {
			return true
		}
	}
	if _, ok := vs.Exited(proc); !ok {
		vs.KillProc(proc, 128+int(s))
	}
	return false
}
