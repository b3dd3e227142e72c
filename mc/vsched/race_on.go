//go:build race && go1.22

package verifsched

import (
	"runtime"
	"unsafe"
)

// RaceMode tells if the race detector is on
const RaceMode = true

//go:norace
func runtimeRaceDisable() { runtime.RaceDisable() }

//go:norace
func runtimeRaceEnable() { runtime.RaceEnable() }

//go:norace
func raceAcquire(t *byte) { runtime.RaceAcquire(unsafe.Pointer(t)) }

//go:norace
func raceRelease(t *byte) { runtime.RaceReleaseMerge(unsafe.Pointer(t)) }

// RaceErrors returns the number of data races reported so far
func RaceErrors() int { return runtime.RaceErrors() }
