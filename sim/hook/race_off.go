//go:build !race && go1.21

package hook

// RaceBuild tells whether this is a race-detector build.
const RaceBuild = false

func raceOff() {}
func raceOn()  {}

func raceAcquire[T any](p *T)      {}
func raceRelease[T any](p *T)      {}
func raceReleaseMerge[T any](p *T) {}

// RaceErrors returns the number of races reported so far.
func RaceErrors() int { return 0 }
