//go:build race

package sim

import (
	"runtime"
	"unsafe"
)

// With the race detector built in, the scheduler's own handing over is hidden from it: two
// conversations that are switched only at seams still count as concurrent, so that what the code
// under test shares between them without synchronisation is reported, deterministically.

const raceBuild = true

var raceHB [8]byte

func raceErrors() int { return runtime.RaceErrors() }
func raceOff()        { runtime.RaceDisable() }
func raceOn()         { runtime.RaceEnable() }

// raceIn and raceOut order what the simulator itself does inside the tasks.
func raceIn()  { runtime.RaceAcquire(unsafe.Pointer(&raceHB)) }
func raceOut() { runtime.RaceReleaseMerge(unsafe.Pointer(&raceHB)) }
