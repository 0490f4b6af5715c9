//go:build race

package simrt

import "runtime"

// Race tells that the race detector is compiled in.
const Race = true

// Hand-offs of the simulator must not order the memory accesses of the tasks for the race detector.
//
//go:norace
func raceOff() { runtime.RaceDisable() }

//go:norace
func raceOn() { runtime.RaceEnable() }

// Races returns the number of data races reported so far.
func Races() int { return runtime.RaceErrors() }
