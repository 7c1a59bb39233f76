//go:build !race

package simrt

// RaceBuild reports whether the race detector is linked in.
const RaceBuild = false

// RaceErrors is always zero without the race detector.
func RaceErrors() int { return 0 }

func raceDisable() {}
func raceEnable()  {}
