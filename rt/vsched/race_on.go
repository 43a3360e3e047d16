//go:build race

package vsched

import "runtime"

// RaceBuild tells whether this is a race detector build.
const RaceBuild = true

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

// RaceErrors is the number of races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
