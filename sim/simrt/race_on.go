//go:build race

package zzsimrt

import (
	"runtime"
	"unsafe"
)

// RaceBuild reports whether this binary carries the race detector.
const RaceBuild = true

// The scheduler's own hand-offs must not order the threads under test: a
// happens-before edge created by the simulator would hide the races of the
// code it schedules.
func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

//go:noinline
func RaceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:noinline
func RaceRelease(p unsafe.Pointer) { runtime.RaceRelease(p) }

//go:noinline
func RaceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// RaceErrors is the number of data races reported so far by this process.
//
//go:noinline
func RaceErrors() int { return runtime.RaceErrors() }
