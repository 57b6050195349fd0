//go:build race

package vsched

import (
	"runtime"
	"unsafe"
)

// In race builds this package is compiled without instrumentation and its own
// hand-offs are hidden from the detector (RaceDisable); the happens-before
// edges of the modelled primitives are then declared explicitly, so that the
// detector judges the program's own synchronisation under every schedule.

const RaceBuild = true

func raceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func raceRelease(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func raceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func raceOff()                          { runtime.RaceDisable() }
func raceOn()                           { runtime.RaceEnable() }
func raceErrors() int                   { return runtime.RaceErrors() }
