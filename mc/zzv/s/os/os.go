// Package os replaces the standard one in the instrumented tracker: inside an execution files, processes
// and exit are virtual; outside (package initialisation) calls reach the real system.
package os

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	real "os"
	"path"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/crimist/trakx/zzv/vfs"
	"github.com/crimist/trakx/zzv/vproc"
	"github.com/crimist/trakx/zzv/vs"
)

func init() { vfs.EOF = io.EOF }

func virt() bool { return vs.Active() && !vfs.Real }

var (
	Stdout = &File{r: real.Stdout}
	Stderr = &File{r: real.Stderr}
	Stdin  = &File{r: real.Stdin}
	Args   = real.Args
)

// File is os.File.
type File struct {
	r *real.File
	h *vfs.Handle
}

func wrap(f *real.File, err error) (*File, error) {
	if err != nil {
		return nil, err
	}
	return &File{r: f}, nil
}

func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	if f.r != nil {
		if vs.Active() {
			if vproc.Output != nil {
				vproc.Output(f.r == real.Stderr, b)
			}
			return len(b), nil
		}
		return f.r.Write(b)
	}
	return f.h.Write(b)
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	if f.r != nil {
		return f.r.Read(b)
	}
	return f.h.Read(b)
}
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if f.r != nil {
		return f.r.ReadAt(b, off)
	}
	d := f.h.Inode().Data
	if off >= int64(len(d)) {
		return 0, io.EOF
	}
	n := copy(b, d[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f.r != nil {
		return f.r.WriteAt(b, off)
	}
	if _, err := f.h.Seek(off, 0); err != nil {
		return 0, err
	}
	return f.h.Write(b)
}
func (f *File) Seek(off int64, w int) (int64, error) {
	if f.r != nil {
		return f.r.Seek(off, w)
	}
	return f.h.Seek(off, w)
}
func (f *File) Sync() error {
	if f == nil {
		return ErrInvalid
	}
	if f.r != nil {
		return f.r.Sync()
	}
	return f.h.Sync()
}
func (f *File) Truncate(n int64) error {
	if f.r != nil {
		return f.r.Truncate(n)
	}
	return f.h.Truncate(n)
}
func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	if f.r != nil {
		return f.r.Close()
	}
	return f.h.Close()
}
func (f *File) Name() string {
	if f.r != nil {
		return f.r.Name()
	}
	return f.h.Name
}
func (f *File) Fd() uintptr {
	if f.r != nil {
		return f.r.Fd()
	}
	return 99
}
func (f *File) Chmod(m FileMode) error {
	if f.r != nil {
		return f.r.Chmod(m)
	}
	f.h.Inode().Mode = m
	return nil
}
func (f *File) Stat() (FileInfo, error) {
	if f.r != nil {
		return f.r.Stat()
	}
	return info{f.h.Name, f.h.Inode()}, nil
}
func (f *File) SetDeadline(time.Time) error { return nil }

type info struct {
	name string
	n    *vfs.Inode
}

func (i info) Name() string       { return path.Base(i.name) }
func (i info) Size() int64        { return int64(len(i.n.Data)) }
func (i info) Mode() fs.FileMode  { return i.n.Mode }
func (i info) ModTime() time.Time { return time.Unix(0, i.n.MTime).UTC() }
func (i info) IsDir() bool        { return i.n.Mode.IsDir() }
func (i info) Sys() any           { return nil }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	if !virt() {
		return wrap(real.OpenFile(name, flag, perm))
	}
	h, err := vfs.Open(name, flag, perm)
	if err != nil {
		return nil, err
	}
	return &File{h: h}, nil
}
func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }
func CreateTemp(dir, pattern string) (*File, error) {
	if !virt() {
		return wrap(real.CreateTemp(dir, pattern))
	}
	if dir == "" {
		dir = "/tmp"
	}
	for {
		vfs.TmpSeq++
		s := strconv.Itoa(1000 + vfs.TmpSeq)
		name := pattern + s
		if i := strings.LastIndex(pattern, "*"); i >= 0 {
			name = pattern[:i] + s + pattern[i+1:]
		}
		f, err := OpenFile(dir+"/"+name, O_RDWR|O_CREATE|O_EXCL, 0600)
		if err != nil && errors.Is(err, fs.ErrExist) {
			continue
		}
		return f, err
	}
}
func ReadFile(name string) ([]byte, error) {
	if !virt() {
		return real.ReadFile(name)
	}
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.h.Close()
	var out []byte
	buf := make([]byte, 1<<20)
	for {
		n, err := f.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			if out == nil {
				out = []byte{}
			}
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}
func WriteFile(name string, data []byte, perm FileMode) error {
	if !virt() {
		return real.WriteFile(name, data, perm)
	}
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}
func Stat(name string) (FileInfo, error) {
	if !virt() {
		return real.Stat(name)
	}
	n, err := vfs.Stat(name)
	if err != nil {
		return nil, err
	}
	return info{name, n}, nil
}
func Lstat(name string) (FileInfo, error) { return Stat(name) }
func Remove(name string) error {
	if !virt() {
		return real.Remove(name)
	}
	return vfs.Remove(name)
}
func RemoveAll(name string) error {
	if !virt() {
		return real.RemoveAll(name)
	}
	return vfs.RemoveAll(name)
}
func Rename(o, n string) error {
	if !virt() {
		return real.Rename(o, n)
	}
	return vfs.Rename(o, n)
}
func Link(o, n string) error {
	if !virt() {
		return real.Link(o, n)
	}
	return vfs.Link(o, n)
}
func Symlink(o, n string) error { return vfs.ErrUnsupported }
func Truncate(name string, n int64) error {
	if !virt() {
		return real.Truncate(name, n)
	}
	return vfs.Truncate(name, n)
}
func MkdirAll(name string, perm FileMode) error {
	if !virt() {
		return real.MkdirAll(name, perm)
	}
	return vfs.Mkdir(name)
}
func Mkdir(name string, perm FileMode) error {
	if !virt() {
		return real.Mkdir(name, perm)
	}
	return vfs.Mkdir(name)
}
func Chmod(name string, mode FileMode) error {
	if !virt() {
		return real.Chmod(name, mode)
	}
	return nil
}
func Chtimes(name string, a, m time.Time) error { return nil }
func Chown(name string, u, g int) error         { return nil }
func ReadDir(name string) ([]DirEntry, error) {
	if !virt() {
		return real.ReadDir(name)
	}
	var r []DirEntry
	for _, f := range vfs.List() {
		if path.Dir(f) == path.Clean(name) {
			n, err := vfs.Stat(f)
			if err == nil {
				r = append(r, fs.FileInfoToDirEntry(info{f, n}))
			}
		}
	}
	return r, nil
}

// Exit ends the virtual process.
func Exit(code int) {
	if !vs.Active() {
		real.Exit(code)
	}
	vs.ExitProc(code)
}

func Getpid() int {
	if vs.Active() {
		return vproc.Self()
	}
	return real.Getpid()
}

// Process is os.Process on the virtual process table.
type Process struct{ Pid int }

func FindProcess(pid int) (*Process, error) { return &Process{pid}, nil }

func (p *Process) Signal(sig Signal) error {
	if p.Pid == -1 {
		return errors.New("os: process already released")
	}
	if p.Pid == 0 {
		return errors.New("os: process not initialized")
	}
	s, ok := sig.(syscall.Signal)
	if !ok {
		return errors.New("os: unsupported signal type")
	}
	if err := vproc.Kill(p.Pid, s); err != nil {
		if err == syscall.ESRCH {
			return ErrProcessDone
		}
		return err
	}
	return nil
}
func (p *Process) Kill() error    { return p.Signal(syscall.SIGKILL) }
func (p *Process) Release() error { p.Pid = -1; return nil }
func (p *Process) Wait() (*ProcessState, error) {
	vproc.Wait(p.Pid)
	return nil, nil
}
func StartProcess(name string, argv []string, attr *ProcAttr) (*Process, error) {
	pid, err := vproc.Start(name, argv)
	if err != nil {
		return nil, fmt.Errorf("fork/exec %s: %w", name, err)
	}
	return &Process{pid}, nil
}
