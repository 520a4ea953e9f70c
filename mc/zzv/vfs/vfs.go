// Package vfs is an in-memory file system with crash points: every change goes through step(), where the
// explorer may stop the process; after a power loss, data not synced and directory changes not synced may
// survive in part.
package vfs

import (
	"errors"
	"io/fs"
	"path"
	"strings"
	"syscall"

	"github.com/crimist/trakx/zzv/vs"
)

type Inode struct {
	Data    []byte
	durable []byte
	dirty   bool // Data differs from durable storage
	born    bool // created since the last power loss and never synced
	Mode    fs.FileMode
	MTime   int64
}

type dent struct {
	name string
	ino  *Inode
}

type dirOp struct {
	undo func() // restores the namespace to before the operation
}

var (
	ents  []dent
	dlog  []dirOp
	Real  bool // pass everything through to the real file system
	dirs  []string
	fault func(op, name string) error

	CrashPoints bool // every step may be the last one of the process (costs one deviation)
	Faults      bool // every call may fail (costs one deviation)
	Absent      []string
	TmpSeq      int
	Ops         []string
	Faulted     []string                   // what failed
	Handles     int                        // open ones
	FailNow     func(op, name string) bool // fails the call
	Crashed     bool
	CrashedAt   string
)

func init() {
	vs.OnReset(Reset)
}

// Reset empties the file system.
func Reset() {
	ents, dlog, dirs, Ops, Faulted = nil, nil, nil, nil, nil
	CrashPoints, Faults, Crashed = false, false, false
	Handles, FailNow = 0, nil
	CrashedAt = ""
	TmpSeq = 0
	Absent = nil
}

func clean(p string) string { return path.Clean(strings.ReplaceAll(p, "//", "/")) }

func find(p string) int {
	p = clean(p)
	for i := range ents {
		if ents[i].name == p {
			return i
		}
	}
	return -1
}

// Put stores a durable file.
func Put(p string, data []byte) {
	d := append([]byte(nil), data...)
	set(clean(p), &Inode{Data: d, durable: append([]byte(nil), d...), Mode: 0644, MTime: vs.Now()})
}

// Get returns a file's present content.
func Get(p string) ([]byte, bool) {
	if i := find(p); i >= 0 {
		return append([]byte{}, ents[i].ino.Data...), true
	}
	return nil, false
}

// Del removes a file without a trace.
func Del(p string) {
	if i := find(p); i >= 0 {
		ents = append(ents[:i:i], ents[i+1:]...)
	}
}

// Settle makes everything durable.
func Settle() {
	dlog = nil
	for i := range ents {
		n := ents[i].ino
		n.durable = append([]byte(nil), n.Data...)
		n.dirty, n.born = false, false
	}
}

// List returns all file names.
func List() []string {
	var r []string
	for _, e := range ents {
		vs.Push(&r, e.name)
	}
	return r
}

func set(p string, n *Inode) {
	if i := find(p); i >= 0 {
		ents[i].ino = n
		return
	}
	vs.Push(&ents, dent{p, n})
}

func logDir(undo func()) { vs.Push(&dlog, dirOp{undo}) }

func snapshotEnts() func() {
	s := append([]dent(nil), ents...)
	return func() { ents = append([]dent(nil), s...) }
}

// Step is one crash/fault point. It returns the injected error.
func step(op, name string) error {
	vs.CheckDead()
	vs.Point("fs " + op)
	if vs.Active() {
		vs.Push(&Ops, op+" "+name)
	}
	if CrashPoints && vs.Env(2) == 1 {
		crash(op, name)
	}
	if FailNow != nil && FailNow(op, name) {
		return &fs.PathError{Op: op, Path: name, Err: syscall.EIO}
	}
	if Faults {
		if c := vs.Env(3); c > 0 {
			err := []syscall.Errno{syscall.EIO, syscall.EACCES}[c-1]
			vs.Tracef("fault: %s %s fails: %v", op, name, err)
			vs.Push(&Faulted, op+" "+name)
			return &fs.PathError{Op: op, Path: name, Err: err}
		}
	}
	return nil
}

func crash(op, name string) {
	Crashed = true
	CrashedAt = op + " " + name
	vs.Tracef("crash before %s %s", op, name)
	vs.KillProc(vs.CurProc(), -9)
}

// PowerLoss turns the current state into one that may be found after the machine lost power: a choice for
// every unsynced file and for the point up to which directory changes reached the disk.
func PowerLoss() {
	// namespace: the first k directory operations survived
	k := len(dlog) - vs.Choose(len(dlog)+1)
	for i := len(dlog) - 1; i >= k; i-- {
		dlog[i].undo()
	}
	dlog = nil
	for i := range ents {
		n := ents[i].ino
		if !n.dirty {
			continue
		}
		opts := [][]byte{n.Data, n.durable, nil}
		if len(n.Data) > 1 {
			opts = append(opts, n.Data[:len(n.Data)/2], n.Data[:len(n.Data)-1])
			// right length, data blocks never written
			vs.Push(&opts, make([]byte, len(n.Data)))
		}
		n.Data = append([]byte(nil), opts[vs.Choose(len(opts))]...)
		n.durable = append([]byte(nil), n.Data...)
		n.dirty = false
	}
}

// ---- handles ----

type Handle struct {
	Name   string
	ino    *Inode
	off    int64
	append bool
	rd, wr bool
	closed bool
}

const (
	O_RDONLY = syscall.O_RDONLY
	O_WRONLY = syscall.O_WRONLY
	O_RDWR   = syscall.O_RDWR
	O_APPEND = syscall.O_APPEND
	O_CREAT  = syscall.O_CREAT
	O_EXCL   = syscall.O_EXCL
	O_TRUNC  = syscall.O_TRUNC
)

func noDir(p string) bool {
	for _, a := range Absent {
		if p == a || strings.HasPrefix(p, a+"/") {
			return true
		}
	}
	return false
}

func Open(name string, flag int, mode fs.FileMode) (*Handle, error) {
	if err := step("open", name); err != nil {
		return nil, err
	}
	if name == "" || noDir(clean(name)) {
		return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.ENOENT}
	}
	for _, d := range dirs {
		if d == clean(name) {
			if flag&(O_WRONLY|O_RDWR) != 0 {
				return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.EISDIR}
			}
			Handles++
			return &Handle{Name: name, ino: &Inode{Mode: fs.ModeDir | 0755}, rd: true}, nil
		}
	}
	i := find(name)
	if i < 0 {
		if flag&O_CREAT == 0 {
			return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.ENOENT}
		}
		logDir(snapshotEnts())
		set(clean(name), &Inode{Mode: mode, dirty: true, born: true, MTime: vs.Now()})
		i = find(name)
	} else if flag&O_CREAT != 0 && flag&O_EXCL != 0 {
		return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.EEXIST}
	} else if flag&O_TRUNC != 0 && flag&(O_WRONLY|O_RDWR) != 0 {
		ents[i].ino.Data = nil
		ents[i].ino.dirty = true
	}
	h := &Handle{Name: name, ino: ents[i].ino, append: flag&O_APPEND != 0}
	switch flag & 3 {
	case O_RDONLY:
		h.rd = true
	case O_WRONLY:
		h.wr = true
	default:
		h.rd, h.wr = true, true
	}
	Handles++
	return h, nil
}

func (h *Handle) bad(op string) error {
	if h == nil {
		return fs.ErrInvalid
	}
	if h.closed {
		return &fs.PathError{Op: op, Path: h.Name, Err: fs.ErrClosed}
	}
	return nil
}

func (h *Handle) Write(b []byte) (int, error) {
	if err := h.bad("write"); err != nil {
		return 0, err
	}
	if !h.wr {
		return 0, &fs.PathError{Op: "write", Path: h.Name, Err: syscall.EBADF}
	}
	vs.CheckDead()
	vs.Point("fs write")
	if vs.Active() {
		vs.Push(&Ops, "write "+h.Name)
	}
	cut := -1
	if CrashPoints {
		// crash before the write, or after any part of it (all parts when short, else a spread)
		cuts := spread(len(b))
		if c := vs.Env(1 + len(cuts)); c > 0 {
			cut = cuts[c-1]
		}
	}
	fail := -1
	if cut < 0 && Faults {
		if c := vs.Env(3); c > 0 {
			fail = []int{0, len(b) / 2}[c-1]
		}
	}
	n := len(b)
	if cut >= 0 {
		n = cut
	} else if fail >= 0 {
		n = fail
	}
	h.put(b[:n])
	if cut >= 0 {
		crash("write", h.Name)
	}
	if fail >= 0 {
		vs.Push(&Faulted, "write "+h.Name)
		return n, &fs.PathError{Op: "write", Path: h.Name, Err: syscall.ENOSPC}
	}
	return len(b), nil
}

// spread lists the torn lengths tried for a write of n bytes.
func spread(n int) []int {
	if n <= 80 {
		r := make([]int, 0, n)
		for i := 0; i < n; i++ {
			vs.Push(&r, i)
		}
		return r
	}
	r := []int{}
	for i := 0; i < 40; i++ {
		vs.Push(&r, i*n/40)
	}
	return append(r, n-1)
}

func (h *Handle) put(b []byte) {
	if h.append {
		h.off = int64(len(h.ino.Data))
	}
	end := h.off + int64(len(b))
	if end > int64(len(h.ino.Data)) {
		h.ino.Data = append(h.ino.Data, make([]byte, end-int64(len(h.ino.Data)))...)
	}
	copy(h.ino.Data[h.off:], b)
	h.off = end
	h.ino.dirty = true
	h.ino.MTime = vs.Now()
}

var EOF error // set by the os shim

func (h *Handle) Read(b []byte) (int, error) {
	if err := h.bad("read"); err != nil {
		return 0, err
	}
	if err := step("read", h.Name); err != nil {
		return 0, err
	}
	if h.ino.Mode.IsDir() {
		return 0, &fs.PathError{Op: "read", Path: h.Name, Err: syscall.EISDIR}
	}
	if h.off >= int64(len(h.ino.Data)) {
		if len(b) == 0 {
			return 0, nil
		}
		return 0, EOF
	}
	n := copy(b, h.ino.Data[h.off:])
	if Faults && n > 1 && vs.Env(2) == 1 {
		n = (n + 1) / 2 // a short read is no error
	}
	h.off += int64(n)
	return n, nil
}

func (h *Handle) Seek(off int64, whence int) (int64, error) {
	if err := h.bad("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 1:
		off += h.off
	case 2:
		off += int64(len(h.ino.Data))
	}
	if off < 0 {
		return 0, &fs.PathError{Op: "seek", Path: h.Name, Err: syscall.EINVAL}
	}
	h.off = off
	return off, nil
}

func (h *Handle) Sync() error {
	if err := h.bad("sync"); err != nil {
		return err
	}
	if err := step("sync", h.Name); err != nil {
		return err
	}
	if h.ino.Mode.IsDir() {
		dlog = nil
		return nil
	}
	h.ino.durable = append([]byte(nil), h.ino.Data...)
	h.ino.dirty = false
	return nil
}

func (h *Handle) Truncate(n int64) error {
	if err := h.bad("truncate"); err != nil {
		return err
	}
	if err := step("truncate", h.Name); err != nil {
		return err
	}
	trunc(h.ino, n)
	return nil
}

func trunc(n *Inode, size int64) {
	if size < int64(len(n.Data)) {
		n.Data = append([]byte(nil), n.Data[:size]...)
	} else {
		n.Data = append(n.Data, make([]byte, size-int64(len(n.Data)))...)
	}
	n.dirty = true
}

func (h *Handle) Close() error {
	if err := h.bad("close"); err != nil {
		return err
	}
	vs.CheckDead()
	h.closed = true
	Handles--
	return nil
}

func (h *Handle) Inode() *Inode { return h.ino }

// ---- namespace ----

func Stat(name string) (*Inode, error) {
	if err := step("stat", name); err != nil {
		return nil, err
	}
	for _, d := range dirs {
		if d == clean(name) {
			return &Inode{Mode: fs.ModeDir | 0755}, nil
		}
	}
	if i := find(name); i >= 0 && name != "" {
		return ents[i].ino, nil
	}
	return nil, &fs.PathError{Op: "stat", Path: name, Err: syscall.ENOENT}
}

func Remove(name string) error {
	if err := step("remove", name); err != nil {
		return err
	}
	i := find(name)
	if i < 0 {
		return &fs.PathError{Op: "remove", Path: name, Err: syscall.ENOENT}
	}
	logDir(snapshotEnts())
	ents = append(ents[:i:i], ents[i+1:]...)
	return nil
}

func RemoveAll(name string) error {
	if err := step("removeall", name); err != nil {
		return err
	}
	logDir(snapshotEnts())
	n := ents[:0:0]
	for _, e := range ents {
		if e.name != clean(name) && !strings.HasPrefix(e.name, clean(name)+"/") {
			vs.Push(&n, e)
		}
	}
	ents = n
	return nil
}

func Rename(o, n string) error {
	if err := step("rename", o); err != nil {
		return err
	}
	i := find(o)
	if i < 0 {
		return &fs.PathError{Op: "rename", Path: o, Err: syscall.ENOENT}
	}
	if noDir(clean(n)) {
		return &fs.PathError{Op: "rename", Path: n, Err: syscall.ENOENT}
	}
	logDir(snapshotEnts())
	ino := ents[i].ino
	ents = append(ents[:i:i], ents[i+1:]...)
	set(clean(n), ino)
	return nil
}

func Truncate(name string, n int64) error {
	if err := step("truncate", name); err != nil {
		return err
	}
	i := find(name)
	if i < 0 {
		return &fs.PathError{Op: "truncate", Path: name, Err: syscall.ENOENT}
	}
	trunc(ents[i].ino, n)
	return nil
}

func Mkdir(name string) error {
	vs.Push(&dirs, clean(name))
	return nil
}

func Link(o, n string) error {
	if err := step("link", o); err != nil {
		return err
	}
	i := find(o)
	if i < 0 {
		return &fs.PathError{Op: "link", Path: o, Err: syscall.ENOENT}
	}
	if find(n) >= 0 {
		return &fs.PathError{Op: "link", Path: n, Err: syscall.EEXIST}
	}
	logDir(snapshotEnts())
	set(clean(n), ents[i].ino)
	return nil
}

var ErrUnsupported = errors.New("vfs: unsupported")
