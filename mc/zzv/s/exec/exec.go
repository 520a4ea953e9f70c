// Package exec replaces os/exec in the instrumented tracker.
package exec

import (
	"context"
	"errors"
	"io"
	real "os/exec"
	"syscall"

	vos "github.com/crimist/trakx/zzv/s/os"
	"github.com/crimist/trakx/zzv/vproc"
)

// Cmd is exec.Cmd.
type Cmd struct {
	Path        string
	Args        []string
	Env         []string
	Dir         string
	Stdin       io.Reader
	Stdout      io.Writer
	Stderr      io.Writer
	ExtraFiles  []*vos.File
	SysProcAttr *syscall.SysProcAttr
	Process     *vos.Process
}

type Error = real.Error
type ExitError = real.ExitError

var ErrNotFound = real.ErrNotFound

func Command(name string, arg ...string) *Cmd {
	return &Cmd{Path: name, Args: append([]string{name}, arg...)}
}
func CommandContext(_ context.Context, name string, arg ...string) *Cmd {
	return Command(name, arg...)
}
func LookPath(file string) (string, error) { return file, nil }

func (c *Cmd) Start() error {
	if c.Process != nil {
		return errors.New("exec: already started")
	}
	pid, err := vproc.Start(c.Path, c.Args)
	if err != nil {
		return err
	}
	c.Process = &vos.Process{Pid: pid}
	return nil
}
func (c *Cmd) Wait() error {
	if c.Process == nil {
		return errors.New("exec: not started")
	}
	vproc.Wait(c.Process.Pid)
	return nil
}
func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}
func (c *Cmd) String() string { return c.Path }
