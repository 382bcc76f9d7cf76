//go:build race

package sim

import (
	"runtime"
	"unsafe"
)

// RaceBuild reports whether the library under test is compiled with race instrumentation.
const RaceBuild = true

func raceDisable() { runtime.RaceDisable() }
func raceEnable()  { runtime.RaceEnable() }

// RaceAcquire/RaceRelease/RaceReleaseMerge establish the happens-before edges
// that the simulated synchronization operation would establish.
func RaceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func RaceRelease(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func RaceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// RaceErrors is the number of data races reported so far in this process.
func RaceErrors() int { return runtime.RaceErrors() }

// RaceWrites and RaceReads tell the race detector that a stand-in wrote or read b on
// behalf of the library.
func RaceWrites(b []byte) {
	if len(b) > 0 {
		runtime.RaceWriteRange(unsafe.Pointer(&b[0]), len(b))
	}
}

func RaceReads(b []byte) {
	if len(b) > 0 {
		runtime.RaceReadRange(unsafe.Pointer(&b[0]), len(b))
	}
}
