//go:build !race && go1.22

package verifsched

// RaceMode tells if the race detector is on
const RaceMode = false

func runtimeRaceDisable() {}
func runtimeRaceEnable()  {}
func raceAcquire(t *byte) {}
func raceRelease(t *byte) {}

// RaceErrors returns the number of data races reported so far
func RaceErrors() int { return 0 }
