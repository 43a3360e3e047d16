//go:build !race

package vsched

// RaceBuild tells whether this is a race detector build.
const RaceBuild = false

func raceOff() {}
func raceOn()  {}

// RaceErrors is the number of races reported so far.
func RaceErrors() int { return 0 }
