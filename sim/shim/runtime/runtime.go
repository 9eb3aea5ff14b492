// Package simruntime is package runtime inside a simulated process.
package simruntime

import (
	real "runtime"

	"btrsim/simrt"
)

func Gosched()                      { simrt.Gosched() }
func Goexit()                       { real.Goexit() }
func NumGoroutine() int             { return simrt.NumTasks() }
func NumCPU() int                   { return 4 }
func GOMAXPROCS(n int) int          { return 4 }
func GC()                           {}
func LockOSThread()                 {}
func UnlockOSThread()               {}
func SetFinalizer(obj, f any)       {}
func ReadMemStats(m *real.MemStats) { *m = real.MemStats{} }
func Breakpoint()                   {}
