// Package simruntime replaces scheduling-related functions of package runtime.
package simruntime

import "verif/sim"

func Gosched()                        { sim.Gosched() }
func NumGoroutine() int               { return sim.NumTasks() }
func GC()                             { sim.Step(70); sim.GC() }
func LockOSThread()                   {}
func UnlockOSThread()                 {}
func NumCPU() int                     { return 4 }
func GOMAXPROCS(n int) int            { return 4 }
func SetFinalizer(obj, finalizer any) {}
