//go:build !race

package vsched

import "unsafe"

const RaceBuild = false

func raceAcquire(p unsafe.Pointer)      {}
func raceRelease(p unsafe.Pointer)      {}
func raceReleaseMerge(p unsafe.Pointer) {}
func raceOff()                          {}
func raceOn()                           {}
func raceErrors() int                   { return 0 }
