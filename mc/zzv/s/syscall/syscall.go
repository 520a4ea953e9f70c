// Package syscall replaces the standard one in the instrumented tracker.
package syscall

import (
	real "syscall"

	"github.com/crimist/trakx/zzv/vproc"
	"github.com/crimist/trakx/zzv/vs"
)

func Kill(pid int, sig real.Signal) error {
	if !vs.Active() {
		return real.ESRCH
	}
	return vproc.Kill(pid, sig)
}
func Exit(code int)                         { vs.ExitProc(code) }
func Getpid() int                           { return vproc.Self() }
func Umask(int) int                         { return 0 }
func Unlink(string) error                   { return real.ENOSYS }
func Rmdir(string) error                    { return real.ENOSYS }
func Exec(string, []string, []string) error { return real.ENOSYS }
func ForkExec(name string, argv []string, attr *real.ProcAttr) (int, error) {
	return vproc.Start(name, argv)
}
func Reboot(int) error                                    { return real.ENOSYS }
func Mount(string, string, string, uintptr, string) error { return real.ENOSYS }
func Unmount(string, int) error                           { return real.ENOSYS }
func Chroot(string) error                                 { return real.ENOSYS }
