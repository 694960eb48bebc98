//go:build !race

package simrt

// RaceBuild tells whether this binary has the race detector.
const RaceBuild = false

func raceOff() {}

func raceOn() {}

// RaceErrors returns the number of races reported so far.
func RaceErrors() int { return 0 }
