//go:build race

package rt

import (
	"runtime"
	"unsafe"
)

const raceOn = true

func raceDisable()                   { runtime.RaceDisable() }
func raceEnable()                    { runtime.RaceEnable() }
func raceAcquire(p unsafe.Pointer)   { runtime.RaceAcquire(p) }
func raceRelease(p unsafe.Pointer)   { runtime.RaceRelease(p) }
func raceRelMerge(p unsafe.Pointer)  { runtime.RaceReleaseMerge(p) }
func raceReadAddr(p unsafe.Pointer)  { runtime.RaceRead(p) }
func raceWriteAddr(p unsafe.Pointer) { runtime.RaceWrite(p) }

// RaceErrors counts the races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
