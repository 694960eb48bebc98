//go:build race

package simrt

import "runtime"

// RaceBuild tells whether this binary has the race detector.
const RaceBuild = true

//go:norace
func raceOff() { runtime.RaceDisable() }

//go:norace
func raceOn() { runtime.RaceEnable() }

// RaceErrors returns the number of races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
