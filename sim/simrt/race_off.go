//go:build !race

package simrt

// Race tells that the race detector is compiled in.
const Race = false

func raceOff() {}

func raceOn() {}

// Races returns the number of data races reported so far.
func Races() int { return 0 }
