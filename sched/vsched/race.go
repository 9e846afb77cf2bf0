//go:build race

package vsched

import (
	"runtime"
	"unsafe"
)

// RaceEnabled reports if the race detector is in use.
const RaceEnabled = true

func Acquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func ReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func raceDisable()                  { runtime.RaceDisable() }
func raceEnable()                   { runtime.RaceEnable() }
