//go:build go1.22

package debug

func FreeOSMemory()                {}
func SetGCPercent(p int) int       { return 100 }
func SetMaxThreads(n int) int      { return 10000 }
func SetMemoryLimit(n int64) int64 { return n }
func SetPanicOnFault(b bool) bool  { return false }
