//go:build race

package simrt

import "runtime"

// RaceBuild reports whether the race detector is linked in.
const RaceBuild = true

// RaceErrors is the number of data races reported so far in this process.
func RaceErrors() int { return runtime.RaceErrors() }

func raceDisable() { runtime.RaceDisable() }
func raceEnable()  { runtime.RaceEnable() }
