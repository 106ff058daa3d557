//go:build !race

package zzsimrt

import "unsafe"

// RaceBuild reports whether this binary carries the race detector.
const RaceBuild = false

func raceOff() {}
func raceOn()  {}

//go:noinline
func RaceAcquire(p unsafe.Pointer) {}

//go:noinline
func RaceRelease(p unsafe.Pointer) {}

//go:noinline
func RaceReleaseMerge(p unsafe.Pointer) {}

// RaceErrors is the number of data races reported so far by this process.
//
//go:noinline
func RaceErrors() int { return 0 }
