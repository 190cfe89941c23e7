//go:build race

package rt

import (
	"runtime"
	"unsafe"
)

const RaceEnabled = true

func raceDisable()    { runtime.RaceDisable() }
func raceEnable()     { runtime.RaceEnable() }
func RaceErrors() int { return runtime.RaceErrors() }

// parked orders what a task did before what the simulator reads after the
// run, also when the task never runs again; tasks are not ordered by it.
var parked [8]byte

func raceParking() { runtime.RaceReleaseMerge(unsafe.Pointer(&parked)) }
func raceCollect() { runtime.RaceAcquire(unsafe.Pointer(&parked)) }
