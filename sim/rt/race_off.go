//go:build !race

package rt

import "unsafe"

const raceOn = false

func raceDisable()                   {}
func raceEnable()                    {}
func raceAcquire(p unsafe.Pointer)   {}
func raceRelease(p unsafe.Pointer)   {}
func raceRelMerge(p unsafe.Pointer)  {}
func raceReadAddr(p unsafe.Pointer)  {}
func raceWriteAddr(p unsafe.Pointer) {}

// RaceErrors counts the races reported so far.
func RaceErrors() int { return 0 }
