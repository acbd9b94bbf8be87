//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

// With the race detector on, the simulator's own hand-overs are hidden from
// it (they would order everything), and only the simulated locks, joins and
// spawns create happens-before edges: the detector then judges the simulated
// schedule by the synchronisation the code itself does.
const RaceEnabled = true

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

func addr(x interface{}) unsafe.Pointer {
	return (*[2]unsafe.Pointer)(unsafe.Pointer(&x))[1]
}

func raceAcquire(x interface{}) { runtime.RaceAcquire(addr(x)) }
func raceRelease(x interface{}) { runtime.RaceReleaseMerge(addr(x)) }
func RaceErrors() int           { return runtime.RaceErrors() }
