//go:build !race

package vsched

import "unsafe"

// RaceEnabled tells whether the binary carries the race detector.
const RaceEnabled = false

func raceDisable()                 {}
func raceEnable()                  {}
func raceAcquire(p unsafe.Pointer) {}
func raceRelease(p unsafe.Pointer) {}
func RaceErrors() int              { return 0 }
