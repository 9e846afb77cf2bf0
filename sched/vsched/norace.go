//go:build !race

package vsched

import "unsafe"

// RaceEnabled reports if the race detector is in use.
const RaceEnabled = false

func Acquire(p unsafe.Pointer)      {}
func ReleaseMerge(p unsafe.Pointer) {}
func raceDisable()                  {}
func raceEnable()                   {}
