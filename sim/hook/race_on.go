//go:build race && go1.21

package hook

import (
	"runtime"
	"unsafe"
)

// RaceBuild tells whether this is a race-detector build.
const RaceBuild = true

// The token that tasks hand to each other must not look like synchronisation
// to the race detector: it is the simulator's, not the program's.
func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

func raceAcquire[T any](p *T)      { runtime.RaceAcquire(unsafe.Pointer(p)) }
func raceRelease[T any](p *T)      { runtime.RaceRelease(unsafe.Pointer(p)) }
func raceReleaseMerge[T any](p *T) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }

// RaceErrors returns the number of races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
