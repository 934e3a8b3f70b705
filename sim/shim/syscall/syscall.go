//go:build go1.22

// Package syscall lets nothing through to the real kernel.
package syscall

import (
	real "syscall"

	"github.com/hound-search/hound/zsim"
)

//zsim:only BytePtrFromString ByteSliceFromString Getpagesize Getuid Geteuid Getgid Getegid

func Mmap(fd int, offset int64, length int, prot int, flags int) ([]byte, error) {
	return zsim.Mmap(fd, offset, length, prot, flags)
}
func Munmap(b []byte) error          { return zsim.Munmap(b) }
func Madvise(b []byte, a int) error  { return nil }
func Mprotect(b []byte, p int) error { return nil }
func Getpid() int {
	if p := zsim.CurProc(); p != nil {
		return p.ID + 1000
	}
	return 1
}
func Getenv(k string) (string, bool) { return zsim.Getenv(k) }
func Sync()                          { zsim.SyncAll() }
func Fsync(fd int) error             { return zsim.FdSync(fd) }
func Fdatasync(fd int) error         { return zsim.FdSync(fd) }
func Exit(code int)                  { zsim.Exit(code) }
func Kill(pid int, sig Signal) error { return real.ESRCH }
func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
	return ioctl(trap, a1)
}
func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	return ioctl(trap, a1)
}
func RawSyscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
	return ioctl(trap, a1)
}
func RawSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	return ioctl(trap, a1)
}

// ioctl succeeds on the streams of a process that runs on a terminal.
func ioctl(trap, fd uintptr) (uintptr, uintptr, Errno) {
	if p := zsim.CurProc(); p != nil && trap == real.SYS_IOCTL && fd == 1 && p.Tty {
		return 0, 0, 0
	}
	return 0, 0, real.ENOTTY
}
func Flock(fd int, how int) error { return nil }
