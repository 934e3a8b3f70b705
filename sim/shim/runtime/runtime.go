//go:build go1.22

// Package runtime hides the real machine.
package runtime

import (
	real "runtime"

	"github.com/hound-search/hound/zsim"
)

func GC()                           {}
func GOMAXPROCS(n int) int          { return 8 }
func NumCPU() int                   { return 8 }
func ReadMemStats(m *real.MemStats) { *m = real.MemStats{} }
func SetFinalizer(obj, fin any)     {}
func LockOSThread()                 {}
func UnlockOSThread()               {}
func Gosched() {
	if zsim.W != nil {
		zsim.W.Yield()
	}
}
func NumGoroutine() int {
	if p := zsim.CurProc(); p != nil {
		return p.NTasks()
	}
	return 1
}
